// f1 / fx evaluation / matching kernels of the real phase 1 against the independent definition, at every k
#include "hx.hpp"
#include <chia/phase1.hpp>
#include <chia/DiskSort.hpp>
#include "../ref/pos.hpp"
#include <set>

using hx::fmt;
static hx::Rng rng(1);

template<typename T> static void put_meta(T& e, const ref::Meta& m, int bits) {
	for(auto& b : e.meta) b = rng();		// bytes beyond the meta data are unspecified
	for(size_t i = 0; i < e.meta.size() && i < size_t((bits + 7) / 8); ++i) e.meta[i] = m.b[i];
}
template<> void put_meta<phase1::entry_1>(phase1::entry_1& e, const ref::Meta& m, int bits) { e.x = ref::bits_at(m.b.data(), 0, bits); }

static ref::Meta rand_meta(int bits) {
	ref::Meta m; int style = rng.below(6);
	for(int i = 0; i < bits; ++i) {
		bool v = style == 0 ? false : style == 1 ? true : style == 2 ? i == int(rng.below(bits)) : rng() & 1;
		if(v) m.b[i >> 3] |= 0x80 >> (i & 7);
	}
	return m;
}
template<typename S> struct has_meta { static const bool value = true; };
template<> struct has_meta<phase1::entry_7> { static const bool value = false; };
template<typename S> static const uint8_t* meta_of(const S& e) { return e.meta.data(); }
template<> const uint8_t* meta_of<phase1::entry_7>(const phase1::entry_7& e) { return nullptr; }

template<typename T, typename S> static void eval(int t, int k, int n) {
	phase1::FxCalculator<T, S> F(k, t);
	const int ml = ref::meta_len(t - 1) * k, mo = ref::meta_len(t) * k;
	for(int i = 0; i < n; ++i) {
		const uint64_t yL = rng.edgy(k + 6), yR = rng.edgy(k + 6);
		const auto mL = rand_meta(ml), mR = rand_meta(ml);
		T L, R; S out; memset((void*)&out, 0xA5, sizeof out);
		L.y = yL; R.y = yR; put_meta(L, mL, ml); put_meta(R, mR, ml);
		F.evaluate(L, R, out);
		uint64_t y; ref::Meta m;
		ref::fx(t, k, yL, mL, mR, y, m);
		if(uint64_t(out.y) != y) hx::violation(fmt("eval:y:t%d", t), fmt("f%d at k=%d: y=%llx, defined %llx (yL=%llx)", t, k, (unsigned long long)out.y, (unsigned long long)y, (unsigned long long)yL));
		if(has_meta<S>::value)
			for(int b = 0; b < mo; b += 8) {
				const int c = std::min(8, mo - b);
				if(ref::bits_at(meta_of(out), b, c) != ref::bits_at(m.b.data(), b, c)) { hx::violation(fmt("eval:meta:t%d", t), fmt("f%d at k=%d: wrong metadata at bit %d", t, k, b)); break; }
			}
	}
	hx::evals(n);
	hx::observe("fx_evaluations", n);
}

template<typename T> static void match(int k, int rounds) {
	phase1::FxMatcher<T> M;
	const uint64_t nb = ((uint64_t(1) << (k + 6)) - 1) / ref::PBC;		// index of the last (partial) bucket
	uint64_t found = 0;
	for(int it = 0; it < rounds; ++it) {
		const uint64_t bl = it % 11 == 0 ? 0 : it % 11 == 1 ? nb - 1 : it % 11 == 2 ? nb - 2 : rng.below(nb);
		const uint64_t ymax = (uint64_t(1) << (k + 6)) - 1;
		std::vector<uint64_t> yl, yr;
		const int style = rng.below(9);
		int nl = rng.range(0, 340), nr = rng.range(0, 340);
		if(style == 0) nl = rng.below(3);
		if(style == 1) nr = rng.below(3);
		auto pick = [&](uint64_t bucket) -> uint64_t {
			uint64_t c;
			switch(style) {
				case 2: c = rng.chance(50) ? rng.below(200) : ref::PBC - 1 - rng.below(200); break;	// domain edges
				case 3: c = rng.below(60) * 127 + rng.below(3); break;
				case 4: c = rng.chance(70) ? 127 * rng.below(119) + 126 : rng.below(ref::PBC); break;
				default: c = rng.below(ref::PBC);
			}
			return std::min(bucket * ref::PBC + c, ymax);
		};
		for(int i = 0; i < nl; ++i) yl.push_back(pick(bl));
		if(style == 5 || style == 6) {		// force matches incl. all m and repeated y
			for(int i = 0; i < nr && nl; ++i) {
				const uint64_t y = yl[rng.below(yl.size())]; const int m = rng.below(64), s = 2 * m + (bl & 1), c = y % ref::PBC;
				const uint64_t t = (c / 127 + m) % 119 * 127 + (c % 127 + s * s) % 127;
				yr.push_back(std::min((bl + 1) * ref::PBC + t, ymax));
				if(rng.chance(30)) yr.push_back(yr.back());
			}
			while(yr.size() > 340) yr.pop_back();
		} else for(int i = 0; i < nr; ++i) yr.push_back(pick(bl + 1));
		if(style == 7) for(auto& y : yl) if(rng.chance(30)) y = yl[0];
		std::sort(yl.begin(), yl.end()); std::sort(yr.begin(), yr.end());
		std::vector<T> L(yl.size()), R(yr.size());
		for(size_t i = 0; i < L.size(); ++i) { memset((void*)&L[i], 0, sizeof(T)); L[i].y = yl[i]; }
		for(size_t i = 0; i < R.size(); ++i) { memset((void*)&R[i], 0, sizeof(T)); R[i].y = yr[i]; }
		const uint64_t lim = uint64_t(1) << PMAX;
		const uint64_t base = it % 13 == 0 ? lim - rng.below(L.size() + 2) : it % 13 == 1 ? lim - 1 - L.size() : rng.bits(std::min(k, PMAX - 1));
		// the definition, by trying all pairs
		std::map<std::pair<uint64_t, uint64_t>, int> want; size_t all = 0;
		for(size_t i = 0; i < L.size(); ++i) for(size_t j = 0; j < R.size(); ++j)
			if(ref::matches(yl[i], yr[j])) { all++; if(base + i < lim) want[{base + i, L.size() - i + j}]++; }
		if(all > 15000) continue;
		std::vector<phase1::match_t<T>> out;
		M.find_matches(base, L, R, out);
		for(auto& m : out) {
			auto f = want.find({uint64_t(m.pos), uint64_t(m.off)});
			if(f == want.end() || f->second-- == 0) { hx::violation("match:extra", fmt("k=%d bucket %llu: pair (%llu,+%d) returned but not a match (or twice)", k, (unsigned long long)bl, (unsigned long long)m.pos, int(m.off))); continue; }
			const uint64_t i = m.pos - base, j = m.off - (L.size() - i);
			if(uint64_t(m.left.y) != yl[i] || uint64_t(m.right.y) != yr[j]) hx::violation("match:payload", fmt("k=%d: returned entries do not belong to the positions", k));
		}
		for(auto& w : want) if(w.second > 0) hx::violation("match:missing", fmt("k=%d bucket %llu (style %d, %zu x %zu): pair (%llu,+%llu) is a match but missing", k, (unsigned long long)bl, style, L.size(), R.size(), (unsigned long long)w.first.first, (unsigned long long)w.first.second));
		found += out.size();
	}
	hx::evals(rounds); hx::observe("match_groups", rounds); hx::observe("matches_seen", found);
}

static void f1(int k, int n) {
	for(int i = 0; i < n; ++i) {
		uint8_t id[32]; for(auto& b : id) b = rng.chance(5) ? 0xff : rng();
		phase1::F1Calculator F(k, id);
		const auto c = ref::f1_key(id);
		for(int j = 0; j < 6; ++j) {
			uint64_t cnt = j < 3 ? 16 : rng.range(1, 40);
			uint64_t x0 = rng.edgy(k); if(rng.chance(60)) x0 &= ~uint64_t(15);
			if(x0 + cnt > uint64_t(1) << k) x0 = (uint64_t(1) << k) - cnt;
			std::vector<phase1::entry_1> blk(cnt + 1);
			memset((void*)&blk[cnt], 0x5A, sizeof(blk[cnt])); auto guard = blk[cnt];
			try { F.compute_block(x0, cnt, blk.data()); }
			catch(const std::exception& ex) { if(cnt == 16) hx::violation("f1:throw", fmt("k=%d x=%llu: %s", k, (unsigned long long)x0, ex.what())); continue; }	// large odd ranges may be refused
			if(memcmp((void*)&guard, (void*)&blk[cnt], sizeof guard)) hx::violation("f1:overrun", fmt("k=%d: writes beyond the %llu entries asked for", k, (unsigned long long)cnt));
			for(uint64_t q = 0; q < cnt; ++q) {
				const uint64_t y = ref::f1(c, k, x0 + q);
				if(uint64_t(blk[q].y) != y || uint64_t(blk[q].x) != x0 + q) { hx::violation("f1:value", fmt("k=%d x=%llu (block of %llu at %llu): y=%llx, defined %llx", k, (unsigned long long)(x0 + q), (unsigned long long)cnt, (unsigned long long)x0, (unsigned long long)blk[q].y, (unsigned long long)y)); break; }
			}
			hx::observe("f1_values", cnt);
		}
	}
	hx::evals(n);
}

int main(int argc, char** argv) {
	const std::string what = hx::arg(argc, argv, "--what", "eval,match,f1");
	const int scale = atoi(hx::arg(argc, argv, "--scale", "1"));
	rng = hx::Rng(hx::seed() * 77 + 5);
	phase1::initialize();
	for(int k = 16; k <= KMAX; ++k) {
		hx::at(fmt("k=%d", k));
		if(what.find("eval") != std::string::npos) {
			using namespace phase1;
			const int n = 300 * scale;
			eval<entry_1, entry_2>(2, k, n); eval<entry_2, entry_3>(3, k, n); eval<entry_3, entry_4>(4, k, n);
			eval<entry_4, entry_5>(5, k, n); eval<entry_5, entry_6>(6, k, n); eval<entry_6, entry_7>(7, k, n);
			hx::kase(fmt("eval:k%d", k));
		}
		if(what.find("match") != std::string::npos) { match<phase1::entry_1>(k, 40 * scale); match<phase1::entry_4>(k, 20 * scale); hx::kase(fmt("match:k%d", k)); }
		if(what.find("f1") != std::string::npos) { f1(k, 60 * scale); hx::kase(fmt("f1:k%d", k)); }
	}
	hx::done();
}
