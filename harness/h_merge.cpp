// The two-way merge of the compression phase (phase3::compute_stage1): every right entry meets the new positions of the
// left entries it points at, whatever the block sizes, thread counts and schedule, also at the very end of the left input.
#include "hphase.hpp"
#include <chia/phase3.hpp>
#include "../ref/plotfile.hpp"
using hx::fmt;
typedef unsigned long long ull;
#ifdef CHIA_K34
static const int MAXK = 34;
#else
static const int MAXK = 32;
#endif
struct Ent { uint64_t key, pos; uint32_t off; };

int main(int argc, char** argv) {
	Quiet q;
	const int cases = atoi(hx::arg(argc, argv, "--cases", "10"));
	const int part = atoi(hx::arg(argc, argv, "--part", "0"));
	hx::Rng rng(hx::seed() * 49979687 + part);
	for(int c = 0; c < cases; ++c) {
		const int k = rng.chance(50) ? 16 + rng.below(4) : rng.chance(30) ? MAXK : 16 + rng.below(MAXK - 15);
		const int variant = rng.below(3);
		const int threads = (int[]){1, 2, 4, 5, 8, 8, 12, 16, 32}[rng.below(9)];
		const int logb = (int[]){4, 4, 4, 5, 6}[rng.below(5)];
		g_read_chunk_size = (size_t[]){65536, 65536, 1000, 64, 300, 4096}[rng.below(6)];
		g_write_chunk_size = (size_t[]){4096, 100, 17, 1}[rng.below(4)];
		const uint64_t NL = rng.chance(60) ? 16 + rng.below(600) : 16 + rng.below(rng.chance(50) ? 5000 : 20000);	// left entries (kept)
		const uint64_t tail = rng.chance(60) ? 1 + rng.below(std::min<uint64_t>(NL - 1, 60)) : 0;				// right entries that need the last left entry
		const uint64_t NR = rng.chance(50) ? NL : 1 + rng.below(NL * 2);
		const uint32_t maxoff = (uint32_t[]){1, 5, 60, 1000}[rng.below(4)];
		const std::string what = fmt("merge variant=%d k=%d threads=%d log_buckets=%d rchunk=%zu wchunk=%zu left=%llu right=%llu tail=%llu maxoff=%u", variant, k, threads, logb,
			g_read_chunk_size, g_write_chunk_size, (ull)NL, (ull)NR, (ull)tail, maxoff);
		hx::at(what);
		auto bad = [&](const std::string& kk, const std::string& msg) { hx::violation("merge:" + kk, msg + " (" + what + ")"); };
		// new positions: distinct
		std::vector<uint64_t> np(NL);
		{ const uint64_t span = uint64_t(1) << (k - 1), step = std::max<uint64_t>(1, span / NL), off = rng.below(3) ? rng.below(step) : 0;
		  for(uint64_t i = 0; i < NL; ++i) np[i] = std::min(i * step + off, span - 1 - (NL - 1 - i)); }
		if(NL > (uint64_t(1) << (k - 1))) continue;
		for(uint64_t i = NL; i > 1; --i) std::swap(np[i - 1], np[rng.below(i)]);
		std::vector<Ent> R;
		for(uint64_t i = 0; i < NR; ++i) {
			Ent e; e.pos = rng.below(NL - 1);
			e.off = 1 + rng.below(std::min<uint64_t>(maxoff, NL - 1 - e.pos)); R.push_back(e);
		}
		for(uint64_t i = 0; i < tail; ++i) { Ent e; e.pos = NL - 1 - (1 + rng.below(std::min<uint64_t>(NL - 1, rng.chance(50) ? 3 : 1000))); e.off = NL - 1 - e.pos; R.push_back(e); }
		if(variant == 2) std::stable_sort(R.begin(), R.end(), [](const Ent& a, const Ent& b) { return a.pos < b.pos; });
		else for(uint64_t i = R.size(); i > 1; --i) std::swap(R[i - 1], R[rng.below(i)]);
		const uint64_t kspan = uint64_t(1) << k;
		for(uint64_t i = 0; i < R.size(); ++i) R[i].key = variant == 2 && rng.chance(30) ? rng.below(kspan) : rng.chance(1) ? kspan - 1 - i : i;
		std::vector<std::pair<ref::u128, uint64_t>> want, got;
		for(auto& e : R) want.push_back({ref::line_point(np[e.pos], np[e.pos + e.off]), e.key});
		const std::string f1 = scratch() + "mg.t1", f7 = scratch() + "mg.t7";
		try {
			phase3::DiskSortLP lp(2 * k - 1, logb, scratch() + "mg.lp");
			if(variant == 0) {
				// table 1: unused entries in between are dropped
				std::vector<uint64_t> x; std::vector<char> used;
				for(uint64_t i = 0; i < NL; ++i) {
					while(rng.chance(variant == 0 && NL % 3 ? 25 : 0)) { x.push_back(rng.bits(k)); used.push_back(0); }
					x.push_back(np[i]); used.push_back(1);
				}
				if(rng.chance(30)) for(int i = rng.below(5000); i > 0; --i) { x.push_back(rng.bits(k)); used.push_back(0); }
				bitfield bf(x.size()); bf.clear();
				for(uint64_t i = 0; i < x.size(); ++i) if(used[i]) bf.set(i);
				{ FILE* f = fopen(f1.c_str(), "wb"); for(auto v : x) { phase2::entry_1 e; e.x = v; uint8_t b[16] = {}; e.write(b); fwrite(b, 1, phase2::entry_1::disk_size, f); } fclose(f); }
				table_t ti; ti.file_name = f1; ti.num_entries = x.size();
				DiskTable<phase2::entry_1> t1(ti);
				phase2::DiskSortT rs(k, logb, scratch() + "mg.r");
				for(auto& e : R) { phase2::entry_x w; w.key = e.key; w.pos = e.pos; w.off = e.off; rs.add(w); }
				rs.finish();
				phase3::compute_stage1<phase2::entry_1, phase2::entry_x, phase3::DiskSortNP, phase2::DiskSortT>(1, threads, nullptr, &rs, &lp, &t1, &bf);
			} else {
				phase3::DiskSortNP ls(k, logb, scratch() + "mg.l");
				std::vector<uint64_t> ord(NL); for(uint64_t i = 0; i < NL; ++i) ord[i] = i;
				for(uint64_t i = NL; i > 1; --i) std::swap(ord[i - 1], ord[rng.below(i)]);
				const uint64_t kb = rng.chance(50) ? 0 : kspan - NL;		// keys fall into the first or the last buckets
				const uint64_t ks = rng.chance(50) ? 1 : std::max<uint64_t>(1, kspan / NL);
				for(auto i : ord) { phase3::entry_np e; e.key = ks > 1 ? i * ks : kb + i; e.pos = np[i]; ls.add(e); }
				ls.finish();
				if(variant == 1) {
					phase2::DiskSortT rs(k, logb, scratch() + "mg.r");
					for(auto& e : R) { phase2::entry_x w; w.key = e.key; w.pos = e.pos; w.off = e.off; rs.add(w); }
					rs.finish();
					phase3::compute_stage1<phase3::entry_np, phase2::entry_x, phase3::DiskSortNP, phase2::DiskSortT>(2 + rng.below(4), threads, &ls, &rs, &lp);
				} else {
					{ FILE* f = fopen(f7.c_str(), "wb"); for(auto& v : R) { phase2::entry_7 e; e.y = v.key; e.pos = v.pos; e.off = v.off; uint8_t b[16] = {}; e.write(b); fwrite(b, 1, phase2::entry_7::disk_size, f); } fclose(f); }
					table_t ti; ti.file_name = f7; ti.num_entries = R.size();
					DiskTable<phase2::entry_7> t7(ti);
					phase3::compute_stage1<phase3::entry_np, phase2::entry_7, phase3::DiskSortNP, phase2::DiskSort7>(6, threads, &ls, nullptr, &lp, nullptr, nullptr, &t7);
				}
			}
			Collector<phase3::entry_lp> col; lp.read(&col, 2);
			for(auto& e : col.all) got.push_back({ref::u128(e.point), uint64_t(e.key)});
		} catch(const std::exception& ex) { bad("failed", std::string("merge of a valid pair of tables fails: ") + ex.what()); }
		std::remove(f1.c_str()); std::remove(f7.c_str());
		std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
		if(got.size() != want.size()) bad("count", fmt("%zu right entries became %zu line points", want.size(), got.size()));
		else if(got != want) { size_t i = 0; while(got[i] == want[i]) i++; bad("value", fmt("line point %zu (key %llu) is not that of its pair (expected key %llu)", i, (ull)got[i].second, (ull)want[i].second)); }
		hx::kase(what); hx::observe("merge_right_entries", R.size());
		if(c < 1) hx::sample(what);
	}
	hx::done();
}
