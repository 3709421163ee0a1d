// One table step of the real forward phase (phase1::compute_table) on synthetic, sparse tables at every k: runs of
// adjacent groups with gaps between them, empty groups, single entries, repeated y, groups at both ends of the range.
#include "hphase.hpp"
#include <chia/phase1.hpp>
#include "../ref/pos.hpp"
#include <map>
using hx::fmt;
using namespace phase1;
static hx::Rng rng(1);

struct In { uint64_t y; ref::Meta m; };
template<typename T> static void fill(T& e, const In& i, uint64_t id, int bits) {
	for(auto& b : e.meta) b = rng();
	memcpy(e.meta.data(), i.m.b.data(), std::min(e.meta.size(), size_t(bits + 7) / 8));
	e.pos = id & 0xFFFFF; e.off = id >> 20;
}
template<> void fill<entry_1>(entry_1& e, const In& i, uint64_t id, int bits) { e.x = ref::bits_at(i.m.b.data(), 0, bits); }
static uint64_t id_of(const tmp_entry_x& e, std::map<uint64_t, uint64_t>&) { return uint64_t(e.pos) | uint64_t(e.off) << 20; }
static uint64_t id_of(const tmp_entry_1& e, std::map<uint64_t, uint64_t>& by_x) { auto f = by_x.find(e.x); return f == by_x.end() ? ~0ull : f->second; }

template<typename S> static const uint8_t* meta_of(const S& e) { return e.meta.data(); }
template<> const uint8_t* meta_of<entry_7>(const entry_7&) { return nullptr; }

template<typename DS, typename T> static void load(DS& s, std::vector<T>& v) {
	auto c = s.add_cache();
	for(auto& e : v) c->add(e);
	c->flush(); c = nullptr; s.finish();
}

template<typename T, typename S, typename R, typename DL, typename DR>
static void step(int t, int k, int threads, int logb, const std::string& what) {
	const int ml = ref::meta_len(t - 1) * k, mo = ref::meta_len(t) * k;
	const uint64_t ymax = (uint64_t(1) << (k + 6)) - 1, last = ymax / ref::PBC;
	// groups
	std::map<uint64_t, std::vector<uint64_t>> g;
	auto add_group = [&](uint64_t i, int n) {
		if(i > last || n <= 0) return;
		for(int j = 0; j < n; ++j) g[i].push_back(std::min(i * ref::PBC + rng.below(ref::PBC), ymax));
	};
	const int runs = rng.below(6);
	if(rng.chance(70)) { add_group(0, rng.range(1, 200)); if(rng.chance(50)) add_group(1, rng.range(0, 200)); }
	for(int r = 0; r < runs; ++r) {
		uint64_t i = rng.chance(25) ? last - rng.below(4) : 2 + rng.below(last - 2);
		const int len = rng.range(1, 6);
		for(int j = 0; j < len; ++j, ++i) add_group(i, rng.chance(15) ? 0 : rng.chance(15) ? 1 : rng.range(1, 330));
	}
	if(g.count(1) && !g.count(0)) add_group(0, 1);		// a real table always has a first group
	if(g.count(2) && g.size() && !g.count(0)) add_group(0, 1);
	for(auto& x : g) {		// matches are rare at random: make some, and repeat some y
		auto n = g.find(x.first + 1);
		if(n != g.end() && rng.chance(70))
			for(int q = rng.below(40); q > 0; --q) {
				const uint64_t y = x.second[rng.below(x.second.size())]; const int m = rng.below(64), s = 2 * m + int(x.first & 1), c = y % ref::PBC;
				const uint64_t tt = uint64_t((c / 127 + m) % 119 * 127 + (c % 127 + s * s) % 127);
				if((x.first + 1) * ref::PBC + tt <= ymax && n->second.size() < 350) n->second.push_back((x.first + 1) * ref::PBC + tt);
			}
		if(rng.chance(20)) { const uint64_t y = x.second[0]; for(int q = rng.below(4); q > 0; --q) x.second.push_back(y); }
	}
	std::vector<In> in; std::map<uint64_t, uint64_t> by_x;
	for(auto& x : g) for(uint64_t y : x.second) {
		In e; e.y = y;
		for(int b = 0; b < ml; b += 8) e.m.b[b / 8] = rng();
		if(ml % 8) e.m.b[ml / 8] &= 0xFF << (8 - ml % 8);
		if(t == 2) { const uint64_t xx = ref::bits_at(e.m.b.data(), 0, k); if(by_x.count(xx)) continue; by_x[xx] = in.size(); }
		in.push_back(e);
	}
	std::vector<T> v(in.size());
	for(size_t i = 0; i < in.size(); ++i) { v[i].y = in[i].y; fill(v[i], in[i], i, t == 2 ? k : ml); }
	for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]);

	auto bad = [&](const std::string& key, const std::string& msg) { hx::violation(fmt("step:%s:t%d", key.c_str(), t), msg + " (" + what + fmt(" %zu entries in %zu groups)", in.size(), g.size())); };
	DL L(k + kExtraBits, logb, scratch() + "s.L");
	load(L, v);
	std::vector<R> lt; std::vector<S> rt;
	uint64_t ret = 0;
	{
		DiskTable<R> Lt(scratch() + "s.lt");
		if(t < 7) {
			DR Rs(k + kExtraBits, logb, scratch() + "s.R");
			ret = compute_table<T, S, R>(t, k, threads, &L, &Rs, &Lt);
			Collector<S> c; Rs.read(&c, std::max(threads / 2, 2)); rt = c.all;
		} else {
			DiskTable<S> Rt(scratch() + "s.rt");
			ret = compute_table<T, S, R, DL, DR>(t, k, threads, &L, nullptr, &Lt, &Rt);
			DiskTable<S> rd(Rt.get_info()); Collector<S> c; rd.read(&c); rt = c.all;
		}
		DiskTable<R> rd(Lt.get_info()); Collector<R> c; rd.read(&c); lt = c.all;
	}
	std::remove((scratch() + "s.lt").c_str()); std::remove((scratch() + "s.rt").c_str());
	if(ret != rt.size()) bad("count", fmt("announces %llu matches, delivers %zu", (unsigned long long)ret, rt.size()));
	// the left table on disk: every entry once, in order of y
	std::vector<uint64_t> id; std::vector<bool> seen(in.size());
	for(auto& e : lt) {
		const uint64_t i = id_of(e, by_x);
		if(i >= in.size() || seen[i]) { bad("left", "left table holds an entry that was not in it, or twice"); return; }
		seen[i] = true; id.push_back(i);
		if(id.size() > 1 && in[id[id.size() - 2]].y > in[i].y) { bad("order", "left table not in order of y"); return; }
	}
	if(id.size() != in.size()) { bad("left", fmt("left table holds %zu of %zu entries", id.size(), in.size())); return; }
	// the definition
	std::map<std::pair<uint64_t, uint64_t>, int> want;
	std::vector<uint64_t> ys; for(auto i : id) ys.push_back(in[i].y);
	for(size_t a = 0, b0 = 0; a < ys.size(); ++a) {
		while(b0 < ys.size() && ys[b0] / ref::PBC <= ys[a] / ref::PBC) ++b0;
		for(size_t b = b0; b < ys.size() && ys[b] / ref::PBC == ys[a] / ref::PBC + 1; ++b) if(ref::matches(ys[a], ys[b])) want[{a, b - a}]++;
	}
	const size_t nw = want.size();
	for(auto& e : rt) {
		const uint64_t p = e.pos, o = e.off;
		auto f = want.find({p, o});
		if(f == want.end() || f->second-- == 0) { bad("extra", fmt("pair (%llu,+%llu) delivered but not a match, or twice", (unsigned long long)p, (unsigned long long)o)); return; }
		uint64_t y; ref::Meta m;
		ref::fx(t, k, ys[p], in[id[p]].m, in[id[p + o]].m, y, m);
		if(uint64_t(e.y) != y) { bad("y", fmt("pair (%llu,+%llu): y=%llx, defined %llx", (unsigned long long)p, (unsigned long long)o, (unsigned long long)e.y, (unsigned long long)y)); return; }
		if(t < 7) for(int b = 0; b < mo; b += 8) { const int c = std::min(8, mo - b); if(ref::bits_at(meta_of(e), b, c) != ref::bits_at(m.b.data(), b, c)) { bad("meta", fmt("wrong metadata at bit %d", b)); return; } }
	}
	for(auto& w : want) if(w.second > 0) { bad("missing", fmt("pair (%llu,+%llu) is a match but missing (of %zu)", (unsigned long long)w.first.first, (unsigned long long)w.first.second, nw)); return; }
	hx::observe("sparse_left_entries", in.size()); hx::observe("sparse_matches", nw);
	for(auto& f : listdir(scratch())) if(f.find("sort_bucket") != std::string::npos && f.find("s.L") != std::string::npos) { bad("files", "bucket file left behind: " + f); break; }
}

int main(int argc, char** argv) {
	Quiet q;
	const int cases = atoi(hx::arg(argc, argv, "--cases", "30"));
	const int part = atoi(hx::arg(argc, argv, "--part", "0"));
	rng = hx::Rng(hx::seed() * 4241 + part);
	initialize();
	for(int c = 0; c < cases; ++c) {
		const int k = rng.chance(40) ? KMAX - int(rng.below(2)) : 16 + int(rng.below(KMAX - 15));
		const int t = 2 + c % 6;
		const int threads = (int[]){1, 2, 3, 4, 8, 16}[rng.below(6)];
		const int logb = 1 + rng.below(8);
		g_read_chunk_size = (size_t[]){65536, 65536, 1000, 333, 4096}[rng.below(5)];
		g_write_chunk_size = (size_t[]){4096, 4096, 100, 17, 1}[rng.below(5)];
		const std::string what = fmt("sparse t=%d k=%d threads=%d log_buckets=%d rchunk=%zu wchunk=%zu case=%d", t, k, threads, logb, g_read_chunk_size, g_write_chunk_size, c);
		hx::at(what);
		switch(t) {
			case 2: step<entry_1, entry_2, tmp_entry_1, DiskSort1, DiskSort2>(t, k, threads, logb, what); break;
			case 3: step<entry_2, entry_3, tmp_entry_x, DiskSort2, DiskSort3>(t, k, threads, logb, what); break;
			case 4: step<entry_3, entry_4, tmp_entry_x, DiskSort3, DiskSort4>(t, k, threads, logb, what); break;
			case 5: step<entry_4, entry_5, tmp_entry_x, DiskSort4, DiskSort5>(t, k, threads, logb, what); break;
			case 6: step<entry_5, entry_6, tmp_entry_x, DiskSort5, DiskSort6>(t, k, threads, logb, what); break;
			case 7: step<entry_6, entry_7, tmp_entry_x, DiskSort6, DiskSort7>(t, k, threads, logb, what); break;
		}
		hx::kase(what);
	}
	hx::done();
}
