// Used-marks: concurrent set on shared words, counts, rank index, file round trip, against plain counting.
#include <chia/chia.h>
#include <chia/bitfield_index.hpp>
#include "hx.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <unistd.h>
using hx::fmt;
static hx::Rng rng(1);
static uint64_t n_marks = 0, n_counts = 0, n_ranks = 0, n_shared = 0;

static int64_t pick_size() {
	switch(rng.below(8)) {
		case 0: return 1 + rng.below(70);
		case 1: return 64 * (1 + rng.below(40));
		case 2: return 1024 * (1 + rng.below(8));
		case 3: return 1024 * (1 + rng.below(8)) + (int64_t)rng.below(3) - 1;
		case 4: return 1024 * rng.below(60) + 1 + rng.below(1024);
		case 5: return 1 + rng.below(200);
		default: return 1 + rng.below(120000);
	}
}

static void round_(int threads_max) {
	const int64_t n = pick_size();
	const int T = 1 + rng.below(threads_max), style = rng.below(6);
	const unsigned dens = (unsigned[]){0, 1, 10, 50, 87, 99, 100}[rng.below(7)];
	hx::at(fmt("size=%lld threads=%d style=%d density=%u", (long long)n, T, style, dens));
	bitfield b(n);
	if(b.size() < n || b.size() % 64) { hx::violation("size", fmt("size %lld for %lld positions", (long long)b.size(), (long long)n)); return; }
	for(int64_t i = 0; i < b.size(); ++i) if(b.get(i)) { hx::violation("fresh", fmt("position %lld of a new bitfield of %lld is marked", (long long)i, (long long)n)); return; }
	std::vector<char> want(b.size());
	std::vector<std::vector<int64_t>> job(T);
	for(int64_t i = 0; i < n; ++i) {
		if(rng.below(100) >= dens) continue;
		want[i] = 1;
		switch(style) {
			case 0: job[i % T].push_back(i); break;						// all threads in every word
			case 1: job[i * T / n].push_back(i); break;					// ranges, shared words at the borders only
			case 2: job[rng.below(T)].push_back(i); break;
			case 3: for(auto& j : job) j.push_back(i); break;			// everyone marks everything
			case 4: job[(i / 64) % T].push_back(i); break;
			default: job[i % T].push_back(i); job[(i + 1) % T].push_back(i);
		}
	}
	if(rng.chance(30)) for(auto& j : job) for(size_t i = j.size(); i > 1; --i) std::swap(j[i - 1], j[rng.below(i)]);
	std::atomic<int> ready{0}; std::atomic<bool> go{false};
	std::vector<std::thread> th;
	for(int t = 0; t < T; ++t) th.emplace_back([&, t] { ready++; while(!go) std::this_thread::yield(); for(const auto p : job[t]) b.set(p); });
	while(ready < T) std::this_thread::yield();
	go = true;
	for(auto& t : th) t.join();
	std::vector<uint64_t> pre(b.size() + 1);
	for(int64_t i = 0; i < b.size(); ++i) {
		pre[i + 1] = pre[i] + want[i];
		n_marks++;
		if(b.get(i) != bool(want[i])) { hx::violation(want[i] ? "lost" : "phantom", fmt("position %lld of %lld %s after marking by %d threads", (long long)i, (long long)n, want[i] ? "is not marked" : "is marked but was never set", T)); return; }
	}
	if(T > 1 && style != 1 && style != 4) n_shared++;
	auto count = [&](int64_t a, int64_t e) {
		n_counts++;
		const int64_t c = b.count(a, e);
		if(c != int64_t(pre[e] - pre[a])) { hx::violation("count", fmt("%lld marks counted in [%lld, %lld) of %lld, there are %llu", (long long)c, (long long)a, (long long)e, (long long)b.size(), (unsigned long long)(pre[e] - pre[a]))); return false; }
		return true;
	};
	for(int i = 0; i < 60; ++i) {
		const int64_t a = 64 * rng.below(b.size() / 64 + 1);
		int64_t e = a + rng.below(b.size() - a + 1);
		if(rng.chance(30)) e = b.size();
		if(rng.chance(30)) e = std::min<int64_t>(b.size(), (e + 32) / 64 * 64);
		if(e < a) e = a;
		if(!count(a, e)) return;
	}
	if(!count(0, n) || !count(0, 0) || !count(0, b.size()) || !count(b.size(), b.size())) return;
	auto ranks = [&](const bitfield& b, const char* which) {
		const bitfield_index idx(b);
		std::vector<int64_t> on; for(int64_t i = 0; i < n; ++i) if(want[i]) on.push_back(i);
		if(on.empty()) return;
		auto look = [&](int64_t p, int64_t q) {
			const auto r = idx.lookup(p, q - p);
			n_ranks++;
			if(r.first != pre[p] || r.second != pre[q] - pre[p]) { hx::violation("rank", fmt("%sposition %lld offset %lld of %lld is translated to %llu offset %llu, exact is %llu offset %llu", which, (long long)p, (long long)(q - p), (long long)b.size(), (unsigned long long)r.first, (unsigned long long)r.second, (unsigned long long)pre[p], (unsigned long long)(pre[q] - pre[p]))); return false; }
			return true;
		};
		for(size_t i = 0; i < on.size(); i += 1 + (on.size() > 4000 ? rng.below(on.size() / 2000) : 0)) {
			size_t j = i + rng.below(4);
			if(rng.chance(20)) j = i + rng.below(3000); else if(rng.chance(10)) j = i + 1024;
			if(!look(on[i], on[std::min(j, on.size() - 1)])) return;
		}
		for(int i = 0; i < 40; ++i) {			// around index block borders
			const int64_t border = 1024 * rng.below(b.size() / 1024 + 1) + (int64_t)rng.below(5) - 2;
			auto it = std::lower_bound(on.begin(), on.end(), border);
			if(it == on.end()) continue;
			const size_t k = it - on.begin();
			if(!look(on[k], on[std::min(k + rng.below(3), on.size() - 1)])) return;
			if(k && !look(on[k - 1], on[k])) return;
		}
		look(on[0], on.back()); look(on.back(), on.back());
	};
	ranks(b, "");
	// file round trip
	if(FILE* f = tmpfile()) {
		b.write(f); rewind(f);
		bitfield c(n); for(int i = 0; i < 20; ++i) c.set(rng.below(n));
		c.read(f);
		for(int64_t i = 0; i < b.size(); ++i) if(c.get(i) != bool(want[i])) { hx::violation("file", fmt("position %lld of %lld differs after writing and reading", (long long)i, (long long)n)); break; }
		bitfield d(1 + rng.below(200)); d.swap(c);
		if(d.size() != b.size()) hx::violation("swap", "size not swapped");
		else ranks(d, "after file and swap: ");
		// a file that is too short must be reported
		if(b.size() > 64) if(FILE* g = tmpfile()) {
			std::vector<char> z(b.size() / 8 - 1 - rng.below(8)); fwrite(z.data(), 1, z.size(), g); rewind(g);
			bool thrown = false; bitfield e(n);
			try { e.read(g); } catch(const std::exception&) { thrown = true; }
			if(!thrown) hx::violation("short", "reading a file that is too short goes unnoticed");
			fclose(g);
		}
		fclose(f);
	}
	b.clear();
	for(int64_t i = 0; i < b.size(); ++i) if(b.get(i)) { hx::violation("clear", fmt("position %lld is marked after clear", (long long)i)); break; }
	hx::kase(fmt("%lld:%d:%d:%u", (long long)n, T, style, dens));
}

// more than 2^32 positions, few of them marked
static void big(int i) {
	const int64_t n = (int64_t(1) << 32) + 100000 + rng.below(1 << (20 + 4 * (i % 3)));
	const int T = 1 + rng.below(6);
	const std::string what = fmt("big size=%lld threads=%d", (long long)n, T);
	hx::at(what);
	bitfield b(n);
	std::vector<int64_t> on;
	for(int64_t c : {int64_t(0), int64_t(1) << 31, int64_t(1) << 32, n - 2000, int64_t(rng.below(n)), int64_t(rng.below(n))})
		for(int j = 0; j < 700; ++j) { const int64_t p = c - (c ? 1500 : 0) + rng.below(3000); if(p >= 0 && p < n) on.push_back(p); }
	on.push_back(n - 1);
	for(int j = 0; j < 20000; ++j) on.push_back(rng.below(n));
	std::vector<std::thread> th;
	for(int t = 0; t < T; ++t) th.emplace_back([&, t] { for(size_t j = t; j < on.size(); j += T) b.set(on[j]); });
	for(auto& t : th) t.join();
	std::sort(on.begin(), on.end()); on.erase(std::unique(on.begin(), on.end()), on.end());
	auto before = [&](int64_t p) { return int64_t(std::lower_bound(on.begin(), on.end(), p) - on.begin()); };
	for(auto p : on) {
		if(!b.get(p)) { hx::violation("lost", fmt("position %lld is not marked (%s)", (long long)p, what.c_str())); return; }
		if(p + 1 < n && b.get(p + 1) != std::binary_search(on.begin(), on.end(), p + 1)) { hx::violation("phantom", fmt("position %lld (%s)", (long long)p + 1, what.c_str())); return; }
		n_marks += 2;
	}
	if(b.count(0, n) != int64_t(on.size())) { hx::violation("count", fmt("%lld marks counted, %zu set (%s)", (long long)b.count(0, n), on.size(), what.c_str())); return; }
	for(int j = 0; j < 300; ++j) {
		const int64_t a = on[rng.below(on.size())] / 64 * 64, e = std::min<int64_t>(n, a + rng.below(1 << 16));
		n_counts++;
		if(b.count(a, e) != before(e) - before(a)) { hx::violation("count", fmt("%lld marks counted in [%lld,%lld), there are %lld (%s)", (long long)b.count(a, e), (long long)a, (long long)e, (long long)(before(e) - before(a)), what.c_str())); return; }
	}
	const bitfield_index index(b);
	for(size_t j = 0; j < on.size(); ++j) {
		size_t q = j; while(q + 1 < on.size() && on[q + 1] - on[j] < 1024 && rng.chance(90)) q++;
		const auto r = index.lookup(on[j], on[q] - on[j]);
		n_ranks++;
		if(r.first != j || r.second != q - j) { hx::violation("rank", fmt("lookup(%lld, %lld) gives %llu,%llu instead of %zu,%zu (%s)", (long long)on[j], (long long)(on[q] - on[j]), (unsigned long long)r.first, (unsigned long long)r.second, j, q - j, what.c_str())); return; }
	}
	hx::kase(what);
}

int main(int argc, char** argv) {
	rng = hx::Rng(hx::seed() * 9176 + atoi(hx::arg(argc, argv, "--part", "0")));
	const int N = atoi(hx::arg(argc, argv, "--rounds", "100")), T = atoi(hx::arg(argc, argv, "--threads", "12"));
	if(!strcmp(hx::arg(argc, argv, "--mode", "mix"), "hammer")) {		// few words, many threads, long
		for(int i = 0; i < N; ++i) {
			const int64_t n = 64 * (1 + rng.below(40)); const int threads = 2 + rng.below(T);
			hx::at(fmt("hammer words=%lld threads=%d", (long long)n / 64, threads));
			bitfield b(n); std::atomic<int> ready{0};
			std::vector<std::thread> th;
			for(int t = 0; t < threads; ++t) th.emplace_back([&, t] { ready++; while(ready < threads); for(int64_t p = t; p < n; p += threads) b.set(p); });
			for(auto& t : th) t.join();
			for(int64_t p = 0; p < n; ++p) if(!b.get(p)) { hx::violation("lost", fmt("position %lld of %lld is not marked after marking by %d threads", (long long)p, (long long)n, threads)); break; }
			n_marks += n; n_shared++;
		}
		hx::evals(N);
	} else if(!strcmp(hx::arg(argc, argv, "--mode", "mix"), "big")) for(int i = 0; i < N; ++i) big(i);
	else for(int i = 0; i < N; ++i) round_(T);
	hx::observe("marks_checked", n_marks); hx::observe("counts_checked", n_counts); hx::observe("ranks_checked", n_ranks); hx::observe("rounds_with_shared_words", n_shared);
	hx::done();
}
