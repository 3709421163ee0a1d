// Park writing (phase3::compute_stage2) with line points over the whole 2k-bit range, any table, any file offset.
#include "hphase.hpp"
#include <chia/phase3.hpp>
#include "../ref/plotfile.hpp"
#include <fcntl.h>
using hx::fmt;
typedef unsigned long long ull;
#ifdef CHIA_K34
static const int MAXK = 34;
#else
static const int MAXK = 32;
#endif

int main(int argc, char** argv) {
	Quiet q;
	const int cases = atoi(hx::arg(argc, argv, "--cases", "10"));
	const int part = atoi(hx::arg(argc, argv, "--part", "0"));
	hx::Rng rng(hx::seed() * 32452843 + part);
	// line points: injective, order independent, exact
	{
		uint64_t n = 0;
		for(int k = 16; k <= MAXK; ++k) for(int i = 0; i < 3000; ++i) {
			uint64_t a = rng.edgy(k), b = rng.chance(30) ? std::min<uint64_t>(a + rng.below(3), (uint64_t(1) << k) - 1) : rng.edgy(k);
			if(a == b) continue;
			const auto l1 = Encoding::SquareToLinePoint(a, b), l2 = Encoding::SquareToLinePoint(b, a);
			n++;
			if(ref::u128(l1) != ref::line_point(a, b) || l1 != l2) { hx::violation("lp:value", fmt("line point of (%llx,%llx) at k=%d is %llx%016llx", (ull)a, (ull)b, k, (ull)(ref::u128(l1) >> 64), (ull)l1)); break; }
			auto inv = ref::inv_line_point(l1);
			if(inv.first != std::max(a, b) || inv.second != std::min(a, b)) hx::violation("lp:inj", "line point does not determine its pair");
		}
		hx::evals(n); hx::observe("line_points_checked", n);
	}
	for(int c = 0; c < cases; ++c) {
		const int k = c == 0 ? MAXK : rng.chance(40) ? MAXK - rng.below(3) : 16 + rng.below(MAXK - 15);
		const int t = 1 + rng.below(6);
		const int threads = (int[]){1, 2, 3, 4, 6, 8, 16}[rng.below(7)];
		const int logb = (int[]){4, 4, 5, 6}[rng.below(4)];
		g_read_chunk_size = (size_t[]){65536, 1000, 2048, 4096}[rng.below(4)];
		g_write_chunk_size = (size_t[]){4096, 100, 17, 1}[rng.below(4)];
		uint64_t N = rng.chance(50) ? 2048 * (1 + rng.below(20)) + rng.below(7) - 3 : rng.chance(30) ? 1 + rng.below(10) : 1 + rng.below(60000);
		N = std::min<uint64_t>(N, (uint64_t(1) << k) * 4 / 5);
		// deltas as in a real plot
		const ref::u128 top = (ref::u128(1) << (2 * k - 1)) - 1;
		std::vector<ref::u128> d(N); ref::u128 sum = 0;
		for(uint64_t i = 1; i < N; ++i) {
			// geometric, as between sorted uniform points
			int g = 0; while(g < 60 && rng.chance(t == 1 ? 83 : 74)) g++;
			ref::u128 v = ref::u128(g) << (k - 3) | rng.edgy(k - 3);
			if(v == 0) v = 1;
			d[i] = v; sum += v;
		}
		while(sum > top) { sum = 0; for(auto& v : d) { v = v / 2 + 1; sum += v; } }
		const ref::u128 room = top - sum;
		const ref::u128 rr = ref::u128(rng()) << 64 | rng();
		const ref::u128 base = c % 3 == 0 ? room : rng.chance(20) ? 0 : rr % (room + 1);
		std::vector<ref::u128> lp(N); { ref::u128 v = base; for(uint64_t i = 0; i < N; ++i) { v += d[i]; lp[i] = v; } }
		std::vector<uint64_t> key(N); for(uint64_t i = 0; i < N; ++i) key[i] = i;
		for(uint64_t i = N; i > 1; --i) std::swap(key[i - 1], key[rng.below(i)]);
		const uint64_t begin = rng.chance(50) ? 268 : rng.chance(50) ? (uint64_t(1) << 32) - rng.below(5000) : (uint64_t(1) << (32 + rng.below(5))) + rng.below(9999);
		const std::string what = fmt("stage2 k=%d table=%d N=%llu threads=%d log_buckets=%d begin=%llu base=%llx%016llx", k, t, (ull)N, threads, logb, (ull)begin, (ull)(base >> 64), (ull)base);
		hx::at(what);
		auto bad = [&](const std::string& kk, const std::string& msg) { hx::violation("stage2:" + kk, msg + " (" + what + ")"); };
		const std::string fn = scratch() + "s2.plot.tmp";
		uint64_t end = 0, written;
		std::vector<std::pair<uint64_t, uint64_t>> np;
		{
			phase3::DiskSortLP R(2 * k - 1, logb, scratch() + "s2.r");
			phase3::DiskSortNP L(k, logb, scratch() + "s2.l");
			std::vector<uint64_t> ord(N); for(uint64_t i = 0; i < N; ++i) ord[i] = i;
			for(uint64_t i = N; i > 1; --i) std::swap(ord[i - 1], ord[rng.below(i)]);
			for(auto i : ord) { phase3::entry_lp e; e.point = lp[i]; e.key = key[i]; R.add(e); }
			R.finish();
			FILE* f = fopen(fn.c_str(), "wb");
			written = phase3::compute_stage2(t, k, threads, &R, &L, f, begin, &end);
			fclose(f);
			Collector<phase3::entry_np> col; L.read(&col, threads);
			for(auto& e : col.all) np.push_back({uint64_t(e.key), uint64_t(e.pos)});
		}
		if(written != N) bad("count", fmt("announces %llu entries", (ull)written));
		ref::PlotFile p; p.k = k;
		const uint64_t ps = p.park_size(t), parks = (N + 2047) / 2048;
		if(end != begin + parks * ps) bad("end", fmt("table ends at %llu, expected %llu", (ull)end, (ull)(begin + parks * ps)));
		const int fd = open(fn.c_str(), O_RDONLY);
		struct stat st; fstat(fd, &st);
		if(uint64_t(st.st_size) != begin + parks * ps) bad("len", fmt("file length %llu", (ull)st.st_size));
		p.b.resize(parks * ps); p.size = parks * ps; p.ptr[t] = 0; p.ptr[t + 1] = parks * ps;
		if(pread(fd, p.b.data(), p.b.size(), begin) != ssize_t(p.b.size())) bad("short", "table cannot be read");
		else {
			p.table_at0(t);
			for(auto& e : p.errs) bad(e.key, e.msg);
			if(p.errs.empty() && p.lp[t] != lp) { size_t i = 0; while(i < N && i < p.lp[t].size() && p.lp[t][i] == lp[i]) i++; bad("lp", fmt("line point %zu decodes to another value", i)); }
		}
		close(fd);
		std::sort(np.begin(), np.end());
		std::vector<std::pair<uint64_t, uint64_t>> want; for(uint64_t i = 0; i < N; ++i) want.push_back({key[i], i});
		std::sort(want.begin(), want.end());
		if(np != want) bad("np", "renumbering handed to the next table is wrong");
		std::remove(fn.c_str());
		hx::kase(what); hx::observe("stage2_line_points", N);
		if(c < 1) hx::sample(what);
	}
	hx::done();
}
