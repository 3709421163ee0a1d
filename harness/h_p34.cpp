// The real compression phase (phase3::compute) and checkpoint phase (phase4::compute) on synthetic inputs at any k,
// judged by the independent format reader and a naive model.
//   --mode p3    phase 3 alone: parks of tables 1..6 and the final positions handed on
//   --mode full  phases 3 + 4, complete file decoded
//   --mode p4    phase 4 alone on synthetic sorted (f7, position) sequences
#include "hphase.hpp"
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include "../ref/plotfile.hpp"
#include <set>
#include <unordered_set>
#include <fcntl.h>
using hx::fmt;
typedef unsigned long long ull;
#ifdef CHIA_K34
static const int MAXK = 34;
#else
static const int MAXK = 32;
#endif
static hx::Rng rng(1);

template<typename T> static void shuffle(std::vector<T>& v) { for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]); }

static uint64_t count_like(uint64_t lim) {		// sizes with interesting residues
	static const uint64_t unit[] = {2048, 2048, 10000, 4096};
	uint64_t v;
	switch(rng.below(4)) {
		case 0: v = 2 + rng.below(40); break;
		case 1: v = 2 + rng.below(6000); break;
		case 2: v = unit[rng.below(4)] * (1 + rng.below(8)) + rng.below(7) - 3; break;
		default: v = lim / 2 + rng.below(lim / 2);
	}
	return std::max<uint64_t>(2, std::min(v, lim));
}

struct Ent { uint64_t key, pos; uint32_t off; };

static void run_p3(bool full, int c) {
	const int k = rng.chance(35) ? 16 + rng.below(3) : rng.chance(40) ? MAXK - rng.below(3) : 16 + rng.below(MAXK - 15);
	const int threads = (int[]){1, 2, 3, 4, 6, 8, 13, 16, 32}[rng.below(9)];
	const int logb = (int[]){4, 4, 5, 6}[rng.below(4)];
	g_read_chunk_size = (size_t[]){65536, 65536, 1000, 64, 2048, 4096, 5000}[rng.below(7)];
	g_write_chunk_size = (size_t[]){4096, 4096, 100, 17, 1, 2048}[rng.below(6)];
	const uint64_t lim = std::min<uint64_t>((uint64_t(1) << k) * 2 / 5, hx::thorough() ? 200000 : 50000);
	const int shape = rng.below(3);
	const uint64_t base = count_like(lim);
	uint64_t n[8];			// kept entries of tables 2..7
	for(int t = 2; t <= 7; ++t) {
		n[t] = shape == 0 ? base : shape == 1 ? count_like(lim) : std::max<uint64_t>(2, std::min<uint64_t>(lim, base + rng.below(5) - 2));
		if(t > 2) {		// keep the line point density of a real plot (average delta) and leave room for distinct pairs
			n[t] = std::max<uint64_t>(n[t], ((unsigned __int128)n[t - 1] * n[t - 1] * 5 / 4) >> k);
			n[t] = std::min(n[t], n[t - 1] < 40 ? n[t - 1] * (n[t - 1] - 1) / 2 : n[t - 1] * 8);
			n[t] = std::min(n[t], std::max<uint64_t>(lim, ((unsigned __int128)n[t - 1] * n[t - 1] * 5 / 4) >> k));
			n[t] = std::max<uint64_t>(n[t], 1);
		}
		if(full && t == 7) while(n[7] % 10000 >= 1 && n[7] % 10000 <= 3) n[7]--;	// no C3 representation, see C16
		if(n[t] < 8 && t < 7) n[t] = 8;
	}
	if(full && n[7] < 4) n[7] = 4;
	const std::string what = fmt("%s k=%d threads=%d log_buckets=%d rchunk=%zu wchunk=%zu kept=%llu,%llu,%llu,%llu,%llu,%llu", full ? "p34" : "p3", k, threads, logb, g_read_chunk_size, g_write_chunk_size,
		(ull)n[2], (ull)n[3], (ull)n[4], (ull)n[5], (ull)n[6], (ull)n[7]);
	hx::at(what);
	auto bad = [&](const std::string& key, const std::string& msg) { hx::violation(key, msg + " (" + what + ")"); };

	// ---- table 1 and the pairs of table 2
	const uint64_t top = (uint64_t(1) << k) - 1;
	std::vector<std::pair<uint64_t, std::vector<uint64_t>>> hl;		// a high x and its 1..3 partners
	uint64_t X0;
	{
		uint64_t x = top;
		if(rng.chance(40)) x = std::max<uint64_t>(n[2] * 4 + 10, rng.bits(k));
		if(x > top) x = top;
		uint64_t left = n[2];
		while(left) {
			const uint64_t m = std::min<uint64_t>(left, 1 + rng.below(3));
			hl.push_back({x, std::vector<uint64_t>(m)});
			left -= m;
			x -= 1 + (rng.chance(2) && x > left * 3 + 10 ? rng.below(2) : 0);
		}
		X0 = x + 1;		// all highs are >= X0
		std::unordered_set<uint64_t> used;
		uint64_t i = 0;
		for(auto& h : hl) for(auto& v : h.second) {
			if(X0 > n[2] * 2) { do v = rng.below(X0); while(!used.insert(v).second); }
			else v = i;		// small k
			i++;
		}
	}
	shuffle(hl);
	std::vector<uint64_t> table1; std::vector<char> used1; std::vector<uint64_t> newpos;	// newpos: x of the used entries, in order
	std::vector<Ent> ent;
	{
		std::vector<uint64_t> keys(n[2]); for(uint64_t i = 0; i < n[2]; ++i) keys[i] = i;
		shuffle(keys);
		for(size_t a = 0; a < hl.size();) {
			const size_t g = std::min<size_t>(1 + rng.below(rng.chance(20) ? 255 : 20), hl.size() - a);
			std::vector<uint64_t> el;
			for(size_t i = a; i < a + g; ++i) { el.push_back(hl[i].first); for(auto v : hl[i].second) el.push_back(v); }
			shuffle(el);
			std::map<uint64_t, uint64_t> at;
			for(auto v : el) {
				while(rng.chance(20)) { table1.push_back(rng.bits(k)); used1.push_back(0); }
				at[v] = newpos.size();
				table1.push_back(v); used1.push_back(1); newpos.push_back(v);
			}
			for(size_t i = a; i < a + g; ++i) for(auto v : hl[i].second) {
				const uint64_t p = at[hl[i].first], q = at[v];
				ent.push_back({keys[ent.size()], std::min(p, q), uint32_t(std::max(p, q) - std::min(p, q))});
			}
			a += g;
		}
		while(rng.chance(70)) { table1.push_back(rng.bits(k)); used1.push_back(0); }
	}
	phase2::output_t in;
	in.params.k = k; for(auto& b : in.params.id) b = rng();
	in.params.memo.resize(rng.chance(50) ? 128 : 112); for(auto& b : in.params.memo) b = rng();
	in.params.plot_name = "p3";
	{
		DiskTable<phase2::entry_1> f(scratch() + "in.t1");
		for(auto v : table1) { phase2::entry_1 e; e.x = v; f.write(e); }
		f.close(); in.table_1 = f.get_info();
		in.bitfield_1 = std::make_shared<bitfield>(table1.size() + rng.below(500));
		for(size_t i = 0; i < used1.size(); ++i) if(used1[i]) in.bitfield_1->set(i);
	}
	std::vector<ref::u128> want_lp[7];
	std::vector<std::pair<uint64_t, uint64_t>> want7;
	std::vector<uint64_t> f7;
	for(int t = 2; t <= 7; ++t) {
		if(t > 2) {
			ent.clear();
			std::set<std::pair<uint64_t, uint32_t>> seen;
			const uint64_t L = newpos.size();
			// every pair distinct; near the ends as well
			uint64_t tries = 0;
			while(ent.size() < n[t] && tries++ < n[t] * 40) {
				const uint64_t pos = rng.chance(2) ? L - 2 : rng.chance(2) ? 0 : rng.below(L - 1);
				const uint64_t room = std::min<uint64_t>(1023, L - 1 - pos);
				const uint32_t off = 1 + rng.below(rng.chance(30) ? room : std::min<uint64_t>(room, 400));
				if(seen.insert({pos, off}).second) ent.push_back({0, pos, off});
			}
			n[t] = ent.size();
			if(full && t == 7) { while(ent.size() % 10000 >= 1 && ent.size() % 10000 <= 3) ent.pop_back(); n[7] = ent.size(); }
			std::vector<uint64_t> keys(n[t]); for(uint64_t i = 0; i < n[t]; ++i) keys[i] = i;
			shuffle(keys);
			if(t == 7) {
				std::vector<uint64_t> y(n[7]); uint64_t v = 0;
				for(auto& e : y) { e = v; uint64_t d = 0; while(d < 14 && rng.chance(48)) d++; v += d; }
				const uint64_t room = v < (uint64_t(1) << k) ? (uint64_t(1) << k) - 1 - v : 0;
				const uint64_t b0 = rng.chance(30) ? room : rng.below(room + 1);
				for(uint64_t i = 0; i < n[7]; ++i) { uint64_t yy = std::min<uint64_t>(y[i] + b0, top); keys[i] = yy; }
				shuffle(keys);
			}
			for(uint64_t i = 0; i < n[t]; ++i) ent[i].key = keys[i];
		}
		// model
		std::vector<std::pair<ref::u128, uint64_t>> lps(ent.size());
		for(size_t i = 0; i < ent.size(); ++i) lps[i] = {ref::line_point(newpos[ent[i].pos], newpos[ent[i].pos + ent[i].off]), ent[i].key};
		std::sort(lps.begin(), lps.end());
		std::vector<uint64_t> np(ent.size());
		for(size_t i = 0; i < lps.size(); ++i) { want_lp[t - 1].push_back(lps[i].first); if(t < 7) np[lps[i].second] = i; else want7.push_back({lps[i].second, i}); }
		// input
		if(t < 7) {
			in.sort[t - 1] = std::make_shared<phase2::DiskSortT>(k, logb, scratch() + fmt("in.s%d", t));
			auto o = ent; shuffle(o);
			for(auto& e : o) { phase2::entry_x x; x.key = e.key; x.pos = e.pos; x.off = e.off; in.sort[t - 1]->add(x); }
			in.sort[t - 1]->finish();
		} else {
			std::stable_sort(ent.begin(), ent.end(), [](const Ent& a, const Ent& b) { return a.pos < b.pos; });
			DiskTable<phase2::entry_7> f(scratch() + "in.t7");
			for(auto& e : ent) { phase2::entry_7 x; x.y = e.key; x.pos = e.pos; x.off = e.off; f.write(x); }
			f.close(); in.table_7 = f.get_info();
		}
		newpos.swap(np);
	}
	std::sort(want7.begin(), want7.end());

	phase3::output_t out;
	phase3::compute(in, out, threads, logb, "p3", scratch(), scratch(), scratch());

	phase4::output_t out4;
	std::string file = out.plot_file_name;
	if(out.num_written_7 != want7.size()) bad("p3:count7", fmt("announces %llu final entries, there are %zu", (ull)out.num_written_7, want7.size()));
	if(!full) {
		Collector<phase3::entry_np> col;
		out.sort_7->read(&col, threads);
		std::vector<std::pair<uint64_t, uint64_t>> have;
		for(auto& e : col.all) have.push_back({uint64_t(e.key), uint64_t(e.pos)});
		if(!col.offsets_ok()) bad("p3:offsets", "block offsets of the final positions are wrong");
		for(size_t i = 1; i < have.size(); ++i) if(have[i].first < have[i - 1].first) { bad("p3:order7", "final positions not in order of f7"); break; }
		std::sort(have.begin(), have.end());
		if(have != want7) bad("p3:final", fmt("final positions handed on differ from the model (%zu, expected %zu)", have.size(), want7.size()));
	} else {
		phase4::compute(out, out4, threads, logb, "p3", scratch(), scratch(), scratch());
		out.sort_7 = nullptr;
		file = out4.plot_file_name;
	}
	ref::PlotFile p;
	bool ok = p.load(file) && (full ? p.decode() : p.header());
	if(!full && ok) for(int t = 1; t <= 6 && ok; ++t) ok = p.table(t);
	const std::string pre = full ? "" : "p3:";
	for(auto& e : p.errs) bad(pre + e.key, e.msg);
	if(ok) {
		if(p.k != k || memcmp(p.id, in.params.id.data(), 32) || p.memo != in.params.memo) bad(pre + "layout:header", "header does not carry k, id and memo");
		if(full && p.size != out4.plot_size) bad("layout:reported", fmt("reported size %llu, file has %llu", (ull)out4.plot_size, (ull)p.size));
		for(int t = 1; t <= 6; ++t) if(p.lp[t] != want_lp[t]) {
			size_t i = 0; while(i < p.lp[t].size() && i < want_lp[t].size() && p.lp[t][i] == want_lp[t][i]) i++;
			bad(fmt("%slp:t%d", pre.c_str(), t), fmt("file table %d: %zu line points, expected %zu; first difference at %zu", t, p.lp[t].size(), want_lp[t].size(), i));
			break;
		}
		if(full) {
			if(p.p7_sorted() != want7) bad("p7", "final positions and f7 values differ from the model");
		}
	}
	for(int i = 1; i < 6; ++i) in.sort[i] = nullptr;
	out.sort_7 = nullptr;
	if(exists(in.table_1.file_name) || exists(in.table_7.file_name)) bad("p3:left", "input table file not removed");
	for(auto& f : listdir(scratch())) { if(f.find("sort_bucket") != std::string::npos) { bad("p3:left", f + " left behind"); break; } }
	std::remove(file.c_str());
	hx::kase(what);
	hx::observe("p3_entries_compared", want_lp[1].size() + want_lp[2].size() + want_lp[3].size() + want_lp[4].size() + want_lp[5].size() + want_lp[6].size());
	hx::observe("p3_parks_decoded", (want_lp[1].size() + 2047) / 2048 + (want_lp[6].size() + 2047) / 2048);
	if(c < 2) hx::sample(what);
}

static void run_p4(int c, uint64_t forceN) {
	const int k = forceN ? 28 : rng.chance(30) ? 16 + rng.below(5) : rng.chance(40) ? MAXK - rng.below(3) : 16 + rng.below(MAXK - 15);
	const int threads = forceN ? 8 : (int[]){1, 2, 3, 4, 6, 8, 13, 16, 32}[rng.below(9)];
	const int logb = forceN ? 9 : (int[]){4, 4, 5, 6}[rng.below(4)];
	g_read_chunk_size = forceN ? 65536 : (size_t[]){65536, 65536, 1000, 64, 2048, 4096, 10000}[rng.below(7)];
	g_write_chunk_size = forceN ? 4096 : (size_t[]){4096, 4096, 100, 17, 1, 2048}[rng.below(6)];
	const uint64_t lim = std::min<uint64_t>((uint64_t(1) << k) * 3 / 5, 220000);
	uint64_t N;
	switch(rng.below(6)) {
		case 0: N = 2048 * (1 + rng.below(12)) + rng.below(5) - 2; break;
		case 1: N = 10000 * (1 + rng.below(4)) + rng.below(9) - 2; break;	// includes the residues 1..3
		case 2: N = 1 + rng.below(30); break;
		case 3: N = 1 + rng.below(5000); break;
		case 4: N = 10240 * (1 + rng.below(3)); break;
		default: N = 20000 + rng.below(lim);
	}
	if(forceN) N = forceN;
	else { if(c < 6) N = 10000 * (c % 3) + (c % 2 ? 4 + rng.below(3) : 0); N = std::max<uint64_t>(1, std::min(N, lim)); }
	const uint64_t hdr = 60 + 128 + 80;
	uint64_t ptr7 = hdr;
	switch(rng.below(4)) {
		case 0: ptr7 += rng.below(1 << 20); break;
		case 1: ptr7 = (uint64_t(1) << 32) - rng.below(1 << 12); break;
		case 2: ptr7 = (uint64_t(1) << 31) - rng.below(1 << 12); break;
		default: ptr7 = (uint64_t(1) << (33 + rng.below(5))) + rng.below(1 << 16);		// sparse
	}
	const std::string what = fmt("p4 k=%d N=%llu threads=%d log_buckets=%d rchunk=%zu wchunk=%zu ptr7=%llu", k, (ull)N, threads, logb, g_read_chunk_size, g_write_chunk_size, (ull)ptr7);
	hx::at(what);
	auto bad = [&](const std::string& key, const std::string& msg) { hx::violation("p4:" + key, msg + " (" + what + ")"); };
	// f7 sequence: differences like those of a real plot
	std::vector<uint32_t> dl(N); uint64_t v = 0;
	const int dstyle = rng.below(3);
	for(uint64_t i = 1; i < N; ++i) {
		uint32_t d = 0;
		if(dstyle == 2 && (i & 63)) d = rng() & 1; else while(d < 20 && rng.chance(46)) d++;
		dl[i] = d; v += d;
	}
	const uint64_t top = (uint64_t(1) << k) - 1;
	if(v > top) { for(auto& d : dl) d = d > 0; v = 0; for(auto d : dl) v += d; }
	const uint64_t room = v < top ? top - v : 0;
	uint64_t y0 = rng.chance(30) ? room : rng.chance(20) ? 0 : rng.below(room + 1);
	std::vector<uint64_t> ys(N), ps(N);
	{ uint64_t y = y0; for(uint64_t i = 0; i < N; ++i) { y += dl[i]; ys[i] = y; ps[i] = rng.below(8) == 0 ? std::min<uint64_t>(rng.edgy(k), (uint64_t(1) << (k == 32 ? 32 : k)) - 1) : rng.bits(k); } }
	std::vector<uint32_t>().swap(dl);
	auto sort = std::make_shared<phase3::DiskSortNP>(k, logb, scratch() + "in.s7");
	{
		// added in a scrambled order
		uint64_t step = 0x9E3779B1 % N; if(!step) step = 1;
		auto gcd = [](uint64_t a, uint64_t b) { while(b) { uint64_t t = a % b; a = b; b = t; } return a; };
		while(gcd(step, N) != 1) step++;
		uint64_t i = rng.below(N);
		for(uint64_t j = 0; j < N; ++j) { phase3::entry_np e; e.key = ys[i]; e.pos = ps[i]; sort->add(e); i = (i + step) % N; }
		sort->finish();
	}
	phase3::output_t in;
	in.header_size = hdr; in.num_written_7 = N; in.final_pointer_7 = ptr7; in.params.k = k;
	in.plot_file_name = scratch() + "p4.plot.tmp"; in.sort_7 = sort;
	std::vector<uint8_t> head(hdr); for(auto& b : head) b = rng();
	{ FILE* f = fopen(in.plot_file_name.c_str(), "wb"); fwrite(head.data(), 1, hdr, f); fclose(f); }
	phase4::output_t out;
	phase4::compute(in, out, threads, logb, "p4", scratch(), scratch(), scratch());
	in.sort_7 = nullptr; sort = nullptr;
	if(exists(in.plot_file_name)) bad("tmp", "temporary plot file still there");

	const int fd = open(out.plot_file_name.c_str(), O_RDONLY);
	struct stat st; if(fd < 0 || fstat(fd, &st)) { bad("nofile", "no " + out.plot_file_name); return; }
	auto rd = [&](uint64_t off, size_t n) { std::vector<uint8_t> b(n, 0xEE); ssize_t r = pread(fd, b.data(), n, off); if(r != ssize_t(n)) b.clear(); return b; };
	{
		auto h = rd(0, hdr);
		if(h.empty() || memcmp(h.data(), head.data(), hdr - 24)) bad("head", "bytes before the table pointers were changed");
		const uint64_t ps7 = (uint64_t(k) + 1) * 2048 / 8, cb = (k + 7) / 8, c3 = k < 20 ? 10000 : 3000;
		const uint64_t p7n = (N + 2047) / 2048, n1 = (N + 9999) / 10000, n2 = (n1 + 9999) / 10000;
		const uint64_t C1 = ptr7 + p7n * ps7, C2 = C1 + (n1 + 1) * cb, C3 = C2 + (n2 + 1) * cb, end = C3 + n1 * c3;
		const uint64_t got[3] = {h.empty() ? 0 : ref::be(&h[hdr - 24], 8), h.empty() ? 0 : ref::be(&h[hdr - 16], 8), h.empty() ? 0 : ref::be(&h[hdr - 8], 8)};
		if(got[0] != C1 || got[1] != C2 || got[2] != C3) bad("ptr", fmt("pointers %llu,%llu,%llu expected %llu,%llu,%llu", (ull)got[0], (ull)got[1], (ull)got[2], (ull)C1, (ull)C2, (ull)C3));
		if(out.plot_size != end) bad("size", fmt("reported size %llu, expected %llu", (ull)out.plot_size, (ull)end));
		const int tail = N % 10000 >= 1 && N % 10000 <= 3 ? N % 10000 : 0;
		if(uint64_t(st.st_size) != end) {
			if(tail == 1 && uint64_t(st.st_size) == end - c3) bad("c3tail:1", fmt("file ends %llu bytes early: the C3 park of a checkpoint interval with a single entry is not written", (ull)c3));
			else bad("len", fmt("file length %llu, expected %llu", (ull)st.st_size, (ull)end));
		}
		// C1 / C2
		auto c1 = rd(C1, (n1 + 1) * cb), c2 = rd(C2, (n2 + 1) * cb);
		if(c1.empty() || c2.empty()) bad("c12", "C1/C2 cannot be read");
		else {
			auto val = [&](std::vector<uint8_t>& b, uint64_t i) { return ref::be(&b[i * cb], cb); };
			for(uint64_t i = 0; i <= n1; ++i) if(val(c1, i) != (i < n1 ? ys[i * 10000] << (cb * 8 - k) : 0)) { bad("c1", fmt("C1 entry %llu is %llx", (ull)i, (ull)val(c1, i))); break; }
			for(uint64_t i = 0; i <= n2; ++i) if(val(c2, i) != (i < n2 ? ys[i * 100000000] << (cb * 8 - k) : 0)) { bad("c2", fmt("C2 entry %llu is %llx", (ull)i, (ull)val(c2, i))); break; }
		}
		// C3
		for(uint64_t i = 0; i < n1; ++i) {
			const uint64_t cnt = std::min<uint64_t>(10000, N - i * 10000);
			auto b = rd(C3 + i * c3, c3);
			if(cnt == 1) continue;
			if(b.empty()) { bad("c3", fmt("C3 park %llu cannot be read", (ull)i)); break; }
			const uint64_t sz = ref::be(b.data(), 2);
			std::vector<uint8_t> d;
			if(cnt <= 3) { if(sz == 0) bad(fmt("c3tail:%d", int(cnt)), fmt("C3 park of an interval with %llu entries is empty: the f7 after the first cannot be recovered", (ull)cnt)); else if(!ref::ans_table(1.0).decode(&b[2], sz, d, 10000) || d.size() != cnt - 1) bad("c3", "last C3 park not decodable"); continue; }
			if(sz + 2 > c3 || !ref::ans_table(1.0).decode(&b[2], sz, d, 10000) || d.size() != cnt - 1) { bad("c3", fmt("C3 park %llu cannot be decoded (size %llu, %zu deltas of %llu)", (ull)i, (ull)sz, d.size(), (ull)cnt - 1)); break; }
			bool z = true; for(size_t j = 2 + sz; j < c3; ++j) z &= !b[j];
			if(!z) { bad("c3pad", "unused C3 bytes not zero"); break; }
			bool good = true; for(uint64_t j = 1; j < cnt; ++j) if(ys[i * 10000 + j] - ys[i * 10000 + j - 1] != d[j - 1]) { bad("c3val", fmt("C3 park %llu delta %llu is %u", (ull)i, (ull)j, d[j - 1])); good = false; break; }
			if(!good) break;
		}
		// P7: order within equal f7 is free
		uint64_t i = 0; bool good = true;
		std::vector<uint64_t> have(N);
		const uint64_t CH = 64;
		for(uint64_t p = 0; p < p7n && good; p += CH) {
			const uint64_t m = std::min(CH, p7n - p);
			auto b = rd(ptr7 + p * ps7, m * ps7);
			if(b.empty()) { bad("p7", "P7 cannot be read"); good = false; break; }
			for(uint64_t q = 0; q < m; ++q) for(uint64_t s = 0; s < 2048; ++s) {
				const uint64_t val = ref::bits_at(&b[q * ps7], s * (k + 1), k + 1), idx = (p + q) * 2048 + s;
				if(idx < N) have[idx] = val; else if(val) { bad("p7pad", "unused P7 slots not zero"); s = 2048; }
			}
		}
		while(good && i < N) {
			uint64_t j = i; while(j < N && ys[j] == ys[i]) j++;
			std::sort(have.begin() + i, have.begin() + j); std::sort(ps.begin() + i, ps.begin() + j);
			for(uint64_t s = i; s < j; ++s) if(have[s] != ps[s]) { bad("p7val", fmt("position of final entry %llu is %llx, expected %llx", (ull)s, (ull)have[s], (ull)ps[s])); good = false; break; }
			i = j;
		}
		hx::observe("p4_entries_compared", N); hx::observe("p4_c3_parks", n1); hx::observe("p4_p7_parks", p7n); hx::observe_max("p4_c2_entries_max", n2); hx::observe_max("p4_file_offset_max", end);
	}
	close(fd);
	std::remove(out.plot_file_name.c_str());
	hx::kase(what);
	if(c < 2) hx::sample(what);
}

int main(int argc, char** argv) {
	Quiet q;
	const std::string mode = hx::arg(argc, argv, "--mode", "p3");
	const int cases = atoi(hx::arg(argc, argv, "--cases", "10"));
	const int part = atoi(hx::arg(argc, argv, "--part", "0"));
	const uint64_t big = strtoull(hx::arg(argc, argv, "--big", "0"), 0, 10);
	rng = hx::Rng(hx::seed() * 15485863 + part * 31 + mode.size());
	for(int c = 0; c < cases; ++c) {
		if(mode == "p4") run_p4(c, big);
		else run_p3(mode == "full", c);
	}
	hx::done();
}
