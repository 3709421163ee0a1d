// The real pruning phase (phase2::compute) on synthetic tables against a naive model.
#include "hphase.hpp"
#include <chia/phase2.hpp>
using hx::fmt;
typedef std::pair<uint64_t, uint32_t> PO;
struct M7 { uint64_t y, pos; uint32_t off; };

// A first table of more than 2^32 (wide build: 2^33) entries, of which pruning only sees the references from the second one.
static void big(hx::Rng& rng, int cases, int MAXK) {
	for(int c = 0; c < cases; ++c) {
		const int k = MAXK;
		const uint64_t edge = uint64_t(1) << 32;
#ifdef CHIA_K34
		const uint64_t n1 = (uint64_t(1) << 33) + rng.below(100000), lim = n1;
#else
		const uint64_t n1 = edge + 1024 + rng.below(100000), lim = edge;		// left positions stay below 2^32, their partners may not
#endif
		const int threads = (int[]){2, 4, 8}[rng.below(3)], logb = 4;
		phase2::g_thread_multi = 1 + rng.below(2);
		const uint64_t n[7] = {n1, 3000 + rng.below(3000), 3000, 2500, 2000, 2000, 1500};
		const std::string what = fmt("big k=%d threads=%d table1=%llu case=%d", k, threads, (unsigned long long)n1, c);
		hx::at(what);
		auto bad = [&](const std::string& key, const std::string& msg) { hx::violation("p2:" + key, msg + " (" + what + ")"); };
		phase1::output_t in; in.params.k = k; in.params.plot_name = "p2in";
		{ DiskTable<phase1::tmp_entry_1> f(scratch() + "big.table1"); f.close(); in.table[0] = f.get_info(); in.table[0].num_entries = n1; }
		std::vector<PO> t[7];
		for(int i = 1; i < 7; ++i) {
			t[i].resize(n[i]);
			for(uint64_t j = 0; j < n[i]; ++j) {
				uint64_t pos, off = 1 + rng.below(1023);
				if(i == 1) {
					const int w = rng.below(5);
					pos = w == 0 ? rng.bits(k) % lim : w == 1 ? lim - 1 - rng.below(1200) : w == 2 ? edge - 1 - rng.below(1200) : w == 3 ? (uint64_t(1) << 31) - 600 + rng.below(1200) : rng.below(2000);
					if(pos + off >= n1) off = std::max<uint64_t>(1, n1 - 1 - pos);
					if(pos + 1 >= n1) { pos = n1 - 2; off = 1; }
				} else {
					pos = rng.below(n[i - 1] - 1024);
				}
				t[i][j] = {pos, uint32_t(off)};
			}
			if(i < 6) {
				DiskTable<phase1::tmp_entry_x> f(scratch() + fmt("big.table%d", i + 1));
				for(auto& r : t[i]) { phase1::tmp_entry_x e; e.pos = r.first; e.off = r.second; f.write(e); }
				f.close(); in.table[i] = f.get_info();
			} else {
				DiskTable<phase1::entry_7> f(scratch() + "big.table7");
				for(auto& r : t[i]) { phase1::entry_7 e; e.y = rng.bits(k); e.pos = r.first; e.off = r.second; f.write(e); }
				f.close(); in.table[i] = f.get_info();
			}
		}
		std::vector<std::vector<uint64_t>> used(6);			// kept positions, ascending
		for(int i = 6; i >= 1; --i) {
			auto& u = used[i - 1];
			for(uint64_t j = 0; j < n[i]; ++j) if(i == 6 || std::binary_search(used[i].begin(), used[i].end(), j)) { u.push_back(t[i][j].first); u.push_back(t[i][j].first + t[i][j].second); }
			std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
		}
		auto rank = [&](int i, uint64_t pos) -> uint64_t { return std::lower_bound(used[i].begin(), used[i].end(), pos) - used[i].begin(); };
		phase2::output_t out;
		phase2::compute(in, out, threads, logb, "p2", scratch(), scratch());
		Collector<phase2::entry_x> col;
		out.sort[1]->read(&col, threads);
		if(col.all.size() != used[1].size()) bad("big:count", fmt("table 2 keeps %zu entries, %zu are needed", col.all.size(), used[1].size()));
		else {
			std::sort(col.all.begin(), col.all.end(), [](const phase2::entry_x& a, const phase2::entry_x& b) { return a.key < b.key; });
			for(size_t j = 0; j < col.all.size(); ++j) {
				const auto& r = t[1][used[1][j]]; const auto& e = col.all[j];
				if(uint64_t(e.pos) != rank(0, r.first) || uint64_t(e.pos) + e.off != rank(0, r.first + r.second)) { bad("big:entry", fmt("reference to %llu,+%u became %llu,+%u instead of %llu,+%llu", (unsigned long long)r.first, r.second, (unsigned long long)e.pos, e.off, (unsigned long long)rank(0, r.first), (unsigned long long)(rank(0, r.first + r.second) - rank(0, r.first)))); break; }
				if(r.first + r.second >= edge) hx::observe("p2_references_beyond_2^32", 1);
			}
		}
		for(auto u : used[0]) if(!out.bitfield_1->get(u)) { bad("big:used", fmt("table 1 entry %llu is needed but not marked", (unsigned long long)u)); break; }
		if(out.bitfield_1->count(0, n1) != int64_t(used[0].size())) bad("big:marks", fmt("%lld entries of table 1 marked instead of %zu", (long long)out.bitfield_1->count(0, n1), used[0].size()));
		for(auto& s : out.sort) s = nullptr;
		for(int i = 0; i < 7; ++i) std::remove(in.table[i].file_name.c_str());
		std::remove(out.table_7.file_name.c_str());
		hx::observe("p2_big_tables", 1);
		hx::kase("p2 " + what);
		if(c == 0) hx::sample("phase2 " + what);
	}
}

int main(int argc, char** argv) {
	Quiet q;
	const int cases = atoi(hx::arg(argc, argv, "--cases", "10"));
	const int part = atoi(hx::arg(argc, argv, "--part", "0"));
	hx::Rng rng(hx::seed() * 104729 + part);
#ifdef CHIA_K34
	const int MAXK = 34;
#else
	const int MAXK = 32;
#endif
	if(std::string(hx::arg(argc, argv, "--mode", "")) == "big") { big(rng, cases, MAXK); hx::done(); return 0; }
	for(int c = 0; c < cases; ++c) {
		const int k = rng.chance(60) ? 16 + rng.below(3) : 16 + rng.below(MAXK - 15);
		const int threads = (int[]){1, 2, 3, 4, 6, 8, 13, 16, 32}[rng.below(9)];
		const int logb = (int[]){4, 4, 5, 6}[rng.below(4)];
		g_read_chunk_size = (size_t[]){65536, 65536, 1000, 64, 63, 4096, 1024}[rng.below(7)];
		g_write_chunk_size = (size_t[]){4096, 4096, 100, 17, 1, 2048}[rng.below(6)];
		phase2::g_thread_multi = 1 + rng.below(3);
		const uint64_t lim = std::min<uint64_t>((uint64_t(1) << k) - 1, hx::thorough() ? 400000 : 120000);
		uint64_t n[7];
		const int shape = rng.below(5);
		for(int t = 0; t < 7; ++t) {
			static const uint64_t unit[] = {64, 1024, 2048, 4096, 65536};
			uint64_t v;
			if(shape == 0) v = 2 + rng.below(300);
			else if(shape == 1) v = unit[rng.below(5)] * (1 + rng.below(3)) + rng.below(5) - 2;
			else if(shape == 2) v = g_read_chunk_size * (1 + rng.below(4)) + rng.below(3) - 1;
			else if(shape == 3) v = lim / 2 + rng.below(lim / 2);
			else v = rng.chance(50) ? 2 + rng.below(50) : lim / 4 + rng.below(lim / 2);
			n[t] = std::max<uint64_t>(2, std::min(v, lim));
		}
		const std::string what = fmt("k=%d threads=%d log_buckets=%d rchunk=%zu wchunk=%zu mult=%d shape=%d sizes=%llu,%llu,%llu,%llu,%llu,%llu,%llu", k, threads, logb, g_read_chunk_size, g_write_chunk_size, phase2::g_thread_multi, shape,
			(unsigned long long)n[0], (unsigned long long)n[1], (unsigned long long)n[2], (unsigned long long)n[3], (unsigned long long)n[4], (unsigned long long)n[5], (unsigned long long)n[6]);
		hx::at(what);
		auto bad = [&](const std::string& key, const std::string& msg) { hx::violation("p2:" + key, msg + " (" + what + ")"); };
		// build
		phase1::output_t in; in.params.k = k; in.params.plot_name = "p2in";
		std::vector<uint64_t> x(n[0]);
		std::vector<PO> t[7]; std::vector<M7> t7;
		{
			DiskTable<phase1::tmp_entry_1> f(scratch() + "in.table1");
			for(auto& v : x) { v = rng.bits(k); phase1::tmp_entry_1 e; e.x = v; f.write(e); }
			f.close(); in.table[0] = f.get_info();
		}
		const int style = rng.below(4);			// how the references spread
		auto refs = [&](uint64_t below, uint64_t i, uint64_t count) -> PO {
			uint64_t pos; uint64_t maxoff = std::min<uint64_t>(1023, below - 1), off;
			if(style == 0) pos = rng.below(below - 1);
			else if(style == 1) pos = (unsigned __int128)i * (below - 1) / count;	// ascending
			else if(style == 2) pos = rng.chance(50) ? below - 2 - rng.below(std::min<uint64_t>(below - 1, 3)) : rng.below(std::min<uint64_t>(below - 1, 5));
			else pos = rng.below(1 + (below - 2) / 64) * 64 + (rng.chance(50) ? 63 : 0);
			pos = std::min(pos, below - 2);
			const uint64_t room = std::min<uint64_t>(maxoff, below - 1 - pos);
			off = rng.chance(10) ? room : rng.chance(10) ? 1 : 1 + rng.below(room);
			return {pos, uint32_t(off)};
		};
		for(int i = 1; i < 6; ++i) {
			DiskTable<phase1::tmp_entry_x> f(scratch() + fmt("in.table%d", i + 1));
			t[i].resize(n[i]);
			for(uint64_t j = 0; j < n[i]; ++j) { t[i][j] = refs(n[i - 1], j, n[i]); phase1::tmp_entry_x e; e.pos = t[i][j].first; e.off = t[i][j].second; f.write(e); }
			f.close(); in.table[i] = f.get_info();
		}
		{
			DiskTable<phase1::entry_7> f(scratch() + "in.table7");
			for(uint64_t j = 0; j < n[6]; ++j) { auto r = refs(n[5], j, n[6]); t7.push_back({rng.edgy(k), r.first, r.second}); phase1::entry_7 e; e.y = t7[j].y; e.pos = r.first; e.off = r.second; f.write(e); }
			f.close(); in.table[6] = f.get_info();
		}
		// model
		std::vector<std::vector<char>> used(6);
		for(int i = 0; i < 6; ++i) used[i].assign(n[i], 0);
		for(auto& e : t7) used[5][e.pos] = used[5][e.pos + e.off] = 1;
		for(int i = 5; i >= 1; --i) for(uint64_t j = 0; j < n[i]; ++j) if(used[i][j]) used[i - 1][t[i][j].first] = used[i - 1][t[i][j].first + t[i][j].second] = 1;
		std::vector<std::vector<uint64_t>> rank(6);
		for(int i = 0; i < 6; ++i) { rank[i].resize(n[i] + 1); uint64_t s = 0; for(uint64_t j = 0; j < n[i]; ++j) { rank[i][j] = s; s += used[i][j]; } rank[i][n[i]] = s; }

		phase2::output_t out;
		phase2::compute(in, out, threads, logb, "p2", scratch(), scratch());

		// compare
		{
			Collector<phase1::entry_7> col;
			if(out.table_7.num_entries != n[6]) bad("t7:count", fmt("table 7 has %zu entries instead of %llu", out.table_7.num_entries, (unsigned long long)n[6]));
			else {
				DiskTable<phase1::entry_7> tab(out.table_7); tab.read(&col);
				for(uint64_t j = 0; j < n[6]; ++j) {
					const auto& e = col.all[j];
					const uint64_t a = rank[5][t7[j].pos], b = rank[5][t7[j].pos + t7[j].off];
					if(uint64_t(e.y) != t7[j].y || uint64_t(e.pos) != a || uint64_t(e.pos) + e.off != b) {
						bad("t7:entry", fmt("table 7 entry %llu is (y=%llx,%llu,+%u), expected (y=%llx,%llu,+%llu)", (unsigned long long)j, (unsigned long long)e.y, (unsigned long long)e.pos, e.off, (unsigned long long)t7[j].y, (unsigned long long)a, (unsigned long long)(b - a)));
						break;
					}
				}
			}
		}
		for(int i = 5; i >= 1; --i) {
			Collector<phase2::entry_x> col;
			out.sort[i]->read(&col, threads);
			uint64_t kept = rank[i][n[i]];
			if(!col.offsets_ok()) bad("offsets", fmt("table %d: block offsets wrong", i + 1));
			for(size_t j = 1; j < col.all.size(); ++j) if(col.all[j].pos < col.all[j - 1].pos) { bad("order", fmt("table %d not sorted by position", i + 1)); break; }
			if(col.all.size() != kept) { bad(fmt("count:t%d", i + 1), fmt("table %d keeps %zu entries, %llu are needed (of %llu)", i + 1, col.all.size(), (unsigned long long)kept, (unsigned long long)n[i])); continue; }
			std::sort(col.all.begin(), col.all.end(), [](const phase2::entry_x& a, const phase2::entry_x& b) { return a.key < b.key; });
			uint64_t j = 0;
			for(uint64_t s = 0; s < n[i]; ++s) if(used[i][s]) {
				const auto& e = col.all[j];
				const uint64_t a = rank[i - 1][t[i][s].first], b = rank[i - 1][t[i][s].first + t[i][s].second];
				if(uint64_t(e.key) != j || uint64_t(e.pos) != a || uint64_t(e.pos) + e.off != b) {
					bad(fmt("entry:t%d", i + 1), fmt("table %d kept entry %llu (was %llu) is (key=%llu,%llu,+%u), expected (%llu,+%llu)", i + 1, (unsigned long long)j, (unsigned long long)s, (unsigned long long)e.key, (unsigned long long)e.pos, e.off, (unsigned long long)a, (unsigned long long)(b - a)));
					break;
				}
				j++;
			}
			hx::observe("p2_kept_entries_compared", kept);
			hx::observe("p2_dropped_entries", n[i] - kept);
		}
		for(uint64_t j = 0; j < n[0]; ++j) if(out.bitfield_1->get(j) != bool(used[0][j])) { bad("t1:used", fmt("table 1 entry %llu %s used", (unsigned long long)j, used[0][j] ? "is" : "is not")); break; }
		if(out.table_1.num_entries != n[0]) bad("t1:count", "table 1 entry count changed");
		else {
			Collector<phase1::tmp_entry_1> col;
			DiskTable<phase1::tmp_entry_1> tab(out.table_1); tab.read(&col);
			for(uint64_t j = 0; j < n[0]; ++j) if(uint64_t(col.all[j].x) != x[j]) { bad("t1:x", "table 1 content changed"); break; }
		}
		for(int i = 1; i < 7; ++i) if(exists(in.table[i].file_name)) bad("left", fmt("input table %d not removed", i + 1));
		for(auto& s : out.sort) s = nullptr;
		for(auto& f : listdir(scratch())) if(f != "hx" && f != "out" && f.find("sort_bucket") != std::string::npos) { bad("left2", f + " left behind"); break; }
		std::remove(out.table_1.file_name.c_str()); std::remove(out.table_7.file_name.c_str());
		for(int i = 1; i < 7; ++i) std::remove(in.table[i].file_name.c_str());
		hx::kase("p2 " + what);
		if(c == 0) hx::sample("phase2 " + what);
	}
	hx::done();
}
