// The real forward phase (phase1::compute) against the definition: every table it leaves on disk is re-evaluated
// bottom up and compared as a multiset with an independent brute-force propagation.
#include "hphase.hpp"
#include <chia/phase1.hpp>
#include "../ref/pos.hpp"
using hx::fmt;

int main(int argc, char** argv) {
	Quiet q;
	const int cases = atoi(hx::arg(argc, argv, "--cases", "3"));
	const int part = atoi(hx::arg(argc, argv, "--part", "0"));
	const int kmax = atoi(hx::arg(argc, argv, "--kmax", "18"));
	hx::Rng rng(hx::seed() * 7919 + part);
	for(int c = 0; c < cases; ++c) {
		const int k = 16 + rng.below(kmax - 15);
		const int threads = (int[]){1, 2, 3, 4, 6, 8, 13, 16}[rng.below(8)];
		const int logb = (int[]){4, 4, 5, 6, 7}[rng.below(5)];
		g_read_chunk_size = (size_t[]){65536, 65536, 1000, 333, 4096}[rng.below(5)];
		g_write_chunk_size = (size_t[]){4096, 4096, 100, 17, 1}[rng.below(5)];
		phase1::input_t in; in.k = k;
		const int style = rng.below(8);
		for(auto& b : in.id) b = style == 0 ? 0 : style == 1 ? 255 : rng();
		const std::string what = fmt("k=%d threads=%d log_buckets=%d rchunk=%zu wchunk=%zu id0=%02x%02x%02x", k, threads, logb, g_read_chunk_size, g_write_chunk_size, in.id[0], in.id[1], in.id[2]);
		hx::at(what);
		phase1::output_t out;
		phase1::compute(in, out, threads, logb, "p1", scratch(), scratch());

		ref::Plot p; ref::forward(in.id.data(), k, p);
		const auto ck = ref::f1_key(in.id.data());
		std::vector<uint64_t> y, h; std::vector<ref::Meta> m;
		bool ok = true;
		auto bad = [&](const std::string& key, const std::string& msg) { hx::violation("p1:" + key, msg + " (" + what + ")"); };
		for(int t = 1; t <= 7 && ok; ++t) {
			std::vector<uint64_t> y2, h2; std::vector<ref::Meta> m2;
			if(t == 1) {
				Collector<phase1::tmp_entry_1> col;
				DiskTable<phase1::tmp_entry_1> tab(out.table[0]); tab.read(&col);
				for(auto& e : col.all) {
					if(uint64_t(e.x) >> k) { bad("x", fmt("x=%llx is not below 2^k", (unsigned long long)e.x)); ok = false; break; }
					y2.push_back(ref::f1(ck, k, e.x)); h2.push_back(ref::hash_x(e.x));
					ref::BitWriter w; w.add(e.x, k); ref::Meta mm; memcpy(mm.b.data(), w.buf, 8); m2.push_back(mm);
				}
			} else {
				std::vector<std::array<uint64_t, 3>> es;		// y (table 7), pos, off
				if(t == 7) { Collector<phase1::entry_7> col; DiskTable<phase1::entry_7> tab(out.table[6]); tab.read(&col); for(auto& e : col.all) es.push_back({uint64_t(e.y), uint64_t(e.pos), uint64_t(e.off)}); }
				else { Collector<phase1::tmp_entry_x> col; DiskTable<phase1::tmp_entry_x> tab(out.table[t - 1]); tab.read(&col); for(auto& e : col.all) es.push_back({0, uint64_t(e.pos), uint64_t(e.off)}); }
				for(auto& e : es) {
					const uint64_t l = e[1], r = e[1] + e[2];
					if(r >= y.size() || l >= y.size()) { bad(fmt("ref:t%d", t), fmt("table %d entry refers to %llu + %llu of %zu", t, (unsigned long long)e[1], (unsigned long long)e[2], y.size())); ok = false; break; }
					if(!ref::matches(y[l], y[r])) { bad(fmt("match:t%d", t), fmt("table %d joins positions %llu and %llu which do not match", t, (unsigned long long)l, (unsigned long long)r)); ok = false; break; }
					uint64_t yy; ref::Meta mm; ref::fx(t, k, y[l], m[l], m[r], yy, mm);
					if(t == 7 && yy != e[0]) { bad("f7", fmt("table 7 stores f7=%llx, its pair evaluates to %llx", (unsigned long long)e[0], (unsigned long long)yy)); ok = false; break; }
					y2.push_back(yy); m2.push_back(mm); h2.push_back(ref::hash_node(t, h[l], h[r]));
				}
			}
			if(!ok) break;
			if(t < 7) for(size_t i = 1; i < y2.size(); ++i) if(y2[i] < y2[i - 1]) { bad(fmt("order:t%d", t), fmt("table %d not in order of y at %zu", t, i)); break; }
			std::vector<uint64_t> a = h2, b;
			for(auto& e : p.t[t]) b.push_back(e.h);
			std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
			if(a != b) {
				std::vector<uint64_t> mi, ex;
				std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(mi));
				std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(ex));
				bad(fmt("set:t%d", t), fmt("table %d: %zu of %zu entries missing, %zu that should not exist", t, mi.size(), b.size(), ex.size()));
				break;		// everything above inherits it
			}
			if(out.table[t - 1].num_entries != h2.size()) bad("count", fmt("table %d announces %zu entries, holds %zu", t, out.table[t - 1].num_entries, h2.size()));
			hx::observe("p1_table_entries_compared", h2.size());
			y.swap(y2); h.swap(h2); m.swap(m2);
		}
		for(auto& t : out.table) std::remove(t.file_name.c_str());
		for(auto& f : listdir(scratch())) if(f.find("sort_bucket") != std::string::npos) { bad("left", "bucket file left behind: " + f); break; }
		hx::kase("p1 " + what);
		if(c == 0) hx::sample("phase1 " + what + fmt(" table sizes %zu..%zu", p.t[1].size(), p.t[7].size()));
	}
	hx::done();
}
