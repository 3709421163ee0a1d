// The real stage classes (Thread, ThreadPool) and the readers built on them, under generated topologies, work times,
// failing jobs and schedules.  Every hand-in, execution, delivery, wait and close is an event judged online.
#include "hphase.hpp"
#include <atomic>
#include <thread>
#include <chrono>
#include <sys/wait.h>
using hx::fmt;
typedef unsigned long long ull;
typedef uint64_t u64;

static hx::Rng rng(1);
static u64 n_events = 0;

struct item_t { u64 seq = ~0ull, producer = 0; std::vector<u64> body; };
static void fill(item_t& i, u64 seq, u64 p) { i.seq = seq; i.producer = p; i.body.assign(seq % 5, seq * 77 + p); }
static bool intact(const item_t& i) { if(i.body.size() != i.seq % 5) return false; for(auto v : i.body) if(v != i.seq * 77 + i.producer) return false; return true; }

// work time of job seq: decided by a hash so that any thread may compute it
struct Work {
	u64 seed; int mode;
	void operator()(u64 seq) const {
		const u64 h = hx::Rng::mix(seed + seq * 0x9E3779B97F4A7C15ull);
		switch(mode) {
			case 0: return;
			case 1: if(h % 4 == 0) std::this_thread::yield(); return;
			case 2: if(h % 16 == 0) std::this_thread::sleep_for(std::chrono::microseconds(h / 16 % 300)); return;
			case 3: if(seq % 7 == 3) std::this_thread::sleep_for(std::chrono::microseconds(200)); return;	// one slow job per round
			default: { volatile u64 x = 0; for(u64 i = 0; i < h % 2000; ++i) x += i; }
		}
	}
};
static Work work() { return Work{rng(), int(rng.below(5))}; }

struct Ctx {			// judge of one stage
	std::string name;
	std::mutex m;
	std::vector<uint8_t> started, finished;
	std::atomic<int> inside{0};
	u64 events = 0;
	u64 fail_at = ~0ull;
	explicit Ctx(const std::string& n, u64 N) : name(n), started(N, 0), finished(N, 0) {}
	void begin(const item_t& i) {
		std::lock_guard<std::mutex> l(m);
		events++;
		if(!intact(i)) hx::violation("thread:content", name + fmt(": item %llu arrived altered", (ull)i.seq));
		if(i.seq >= started.size()) { hx::violation("thread:invented", name + fmt(": item %llu was never handed in", (ull)i.seq)); return; }
		if(started[i.seq]++) hx::violation("thread:twice", name + fmt(": item %llu executed more than once", (ull)i.seq));
	}
	void end(const item_t& i) { std::lock_guard<std::mutex> l(m); events++; if(i.seq < finished.size()) finished[i.seq] = 1; }
	u64 missing(u64 upto) { std::lock_guard<std::mutex> l(m); u64 n = 0; for(u64 i = 0; i < upto; ++i) n += !finished[i]; return n; }
};

// terminal consumer: order, one at a time
struct Sink : Processor<item_t> {
	std::string name; Work w; std::atomic<int> inside{0}; std::atomic<u64> next{0}; u64 fail_at = ~0ull; bool ordered = true; u64 limit = ~0ull;
	std::atomic<u64> count{0};
	std::vector<u64> last;		// per producer, for merged producers
	Sink(const std::string& n, Work w) : name(n), w(w), last(64, 0) {}
	void take(item_t& i) override {
		if(inside++) hx::violation("thread:overlap", name + ": two results delivered at the same time");
		if(!intact(i)) hx::violation("thread:content", name + fmt(": result %llu arrived altered", (ull)i.seq));
		const u64 n = next;
		if(ordered && i.seq != n) hx::violation("thread:order", name + fmt(": result %llu delivered where %llu was due", (ull)i.seq, (ull)n));
		if(i.seq >= limit) hx::violation("thread:afterfail", name + fmt(": result %llu delivered although job %llu failed", (ull)i.seq, (ull)limit));
		w(i.seq);
		inside--;
		next = i.seq + 1;
		count++;
	}
};
struct Local { std::atomic<int> used{0}; u64 count = 0; Local() {} Local(const Local& o) : count(o.count) {} Local& operator=(const Local& o) { count = o.count; return *this; } };
typedef ThreadPool<item_t, item_t, Local> Pool;
struct boom : std::runtime_error { boom() : std::runtime_error("boom-4711") {} };

static void pool_job(Ctx& c, Work w, item_t& in, item_t& out, Local& l) {
	c.begin(in);
	if(l.used++) hx::violation("thread:local", c.name + ": thread-local state used by two jobs at once");
	l.count++;
	w(in.seq);
	if(in.seq == c.fail_at) throw boom();
	l.used--;
	c.end(in);
	fill(out, in.seq, in.producer);
}

// ---- one Thread fed by several producers
static void t_thread(const std::string& what) {
	const int P = 1 + rng.below(5); const u64 N = 1 + rng.below(rng.chance(20) ? 3000 : 300);
	const bool fail = what == "fail"; const u64 fail_after = rng.below(N * P);
	Work w = work(); std::vector<std::vector<uint8_t>> seen(P, std::vector<uint8_t>(N, 0)); std::vector<std::atomic<u64>> handed(P); std::vector<u64> lastseq(P, 0);
	for(auto& h : handed) h = 0;
	std::atomic<int> inside{0}; std::atomic<u64> done{0}; bool failed = false; u64 order = 0;
	hx::at(fmt("Thread producers=%d items=%llu fail=%lld", P, (ull)N, fail ? (long long)fail_after : -1LL));
	auto* th = new Thread<item_t>([&](item_t& i) {
		if(inside++) hx::violation("thread:overlap", "a Thread executed two items at the same time");
		if(failed) hx::violation("thread:afterfail", "a Thread executed an item after one had failed");
		if(!intact(i)) hx::violation("thread:content", "item arrived altered");
		if(i.producer >= seen.size() || i.seq >= N) { hx::violation("thread:invented", "item never handed in"); inside--; return; }
		if(seen[i.producer][i.seq]++) hx::violation("thread:twice", fmt("item %llu executed more than once", (ull)i.seq));
		if(i.seq != lastseq[i.producer]) hx::violation("thread:order", fmt("item %llu of a producer executed where %llu was due", (ull)i.seq, (ull)lastseq[i.producer]));
		lastseq[i.producer] = i.seq + 1;
		w(i.seq * 7 + i.producer);
		if(fail && order++ == fail_after) { failed = true; inside--; throw boom(); }
		done++; inside--;
	}, rng.chance(50) ? "a name longer than fifteen characters" : "");
	std::vector<std::thread> ps; std::atomic<u64> waits{0};
	const u64 wseed = rng();
	for(int p = 0; p < P; ++p) ps.emplace_back([&, p]() {
		hx::Rng r(wseed + p);
		for(u64 s = 0; s < N; ++s) {
			item_t i; fill(i, s, p);
			th->take(i);
			handed[p] = s + 1;
			if(r.chance(5)) {
				// what this producer handed in before must be processed when wait() returns
				try { th->wait(); waits++; if(fail ? false : lastseq[p] < s + 1) hx::violation("thread:wait", fmt("wait() returned before item %llu was processed", (ull)s)); }
				catch(const std::exception& e) { if(!fail) hx::violation("thread:error", std::string("wait() failed: ") + e.what()); else if(!strstr(e.what(), "boom-4711")) hx::violation("thread:error", std::string("wait() lost the cause: ") + e.what()); }
			}
		}
	});
	for(auto& t : ps) t.join();
	if(!fail) {
		if(rng.chance(50)) { th->wait(); if(done != N * P) hx::violation("thread:wait", fmt("%llu of %llu items processed when wait() returned", (ull)done, (ull)(N * P))); }
		if(rng.chance(50)) th->close();
		delete th;
		if(done != N * P) hx::violation("thread:lost", fmt("%llu of %llu items processed when the Thread was gone", (ull)done, (ull)(N * P)));
	} else {
		for(int n = 0; n < 3; ++n) {
			bool err = false;
			try { if(n == 1) th->close(); else th->wait(); } catch(const std::exception& e) { err = true; }
			if(!err) hx::violation("thread:silent", n == 1 ? "close() of a failed Thread reported success" : "wait() on a failed Thread reported success");
		}
		item_t i; fill(i, 0, 0); th->take(i);		// must return
		if(!failed) hx::violation("thread:lost", "the failing item was never executed");
	}
	hx::observe("executions", done); hx::observe("waits", waits);
	hx::kase(fmt("thread P=%d N=%llu w=%d %s %llu", P, (ull)N, w.mode, what.c_str(), fail ? (ull)fail_after : 0));
}

// ---- chains of stages: feeder -> pool -> thread -> pool ... -> sink, as the phases build them
static void t_chain(const std::string& what) {
	const bool fail = what == "fail";
	const int stages = 1 + rng.below(4);
	const u64 N = 1 + rng.below(rng.chance(15) ? 4000 : 250);
	std::vector<Ctx*> ctx; std::string desc;
	std::vector<Processor<item_t>*> proc(stages + 1); std::vector<Pool*> pools(stages); std::vector<Thread<item_t>*> threads(stages);
	Sink* sink = new Sink("sink", work());
	proc[stages] = sink;
	const int fstage = fail ? rng.below(stages) : -1;
	u64 fail_at = rng.chance(20) ? 0 : rng.chance(20) ? N - 1 : rng.below(N);
	for(int s = stages - 1; s >= 0; --s) {
		Ctx* c = new Ctx(fmt("stage %d", s), N + 1); ctx.insert(ctx.begin(), c);
		if(s == fstage) c->fail_at = fail_at;
		Work w = work(); auto* out = proc[s + 1];
		if(rng.chance(35)) {
			threads[s] = new Thread<item_t>([c, w, out](item_t& i) {
				if(c->inside++) hx::violation("thread:overlap", c->name + ": a Thread executed two items at once");
				c->begin(i); w(i.seq);
				if(i.seq == c->fail_at) { c->inside--; throw boom(); }
				c->end(i); out->take(i); c->inside--;
			}, "t");
			proc[s] = threads[s]; desc += "T";
		} else {
			const int n = 1 + rng.below(rng.chance(25) ? 17 : 5);
			pools[s] = new Pool([c, w](item_t& i, item_t& o, Local& l) { pool_job(*c, w, i, o, l); }, out, n, rng.chance(50) ? "pool" : "");
			if(int(pools[s]->num_threads()) != n) hx::violation("thread:count", "pool has a different number of threads");
			proc[s] = pools[s]; desc += fmt("P%d", n);
		}
	}
	if(fail) sink->limit = fail_at;
	std::string id = fmt("chain %s N=%llu fail=%d@%lld", desc.c_str(), (ull)N, fstage, fail ? (long long)fail_at : -1LL);
	hx::at(id);
	bool err = false; u64 handed = 0, waits = 0; std::string err_what;
	auto waitall = [&](bool close) {		// upstream first, as the phases do
		bool any = false;
		for(int s = 0; s < stages; ++s) {
			bool e = false;
			try { if(threads[s]) { close ? threads[s]->close() : threads[s]->wait(); } else { close ? pools[s]->close() : pools[s]->wait(); } }
			catch(const std::exception& x) { e = true; err_what = x.what(); }
			any |= e;
			if(!e && fail && s == fstage && handed > fail_at) {
				// everything up to the failing item was handed to this stage before, so waiting for it must report the failure
				hx::violation("thread:silent", fmt("%s of failed stage %d of %s returned success", close ? "close()" : "wait()", s, desc.c_str()));
			}
			if(e && !fail) hx::violation("thread:error", fmt("stage %d of %s failed: ", s, desc.c_str()) + err_what);
			if(!e && !fail) {
				const u64 m = ctx[s]->missing(handed);
				if(m) hx::violation("thread:wait", fmt("%s of stage %d of %s returned with %llu of %llu items unprocessed", close ? "close()" : "wait()", s, desc.c_str(), (ull)m, (ull)handed));
			}
		}
		return any;
	};
	for(u64 s = 0; s < N && !err; ++s) {
		item_t i; fill(i, s, 0);
		try { proc[0]->take(i); handed = s + 1; } catch(const std::exception& x) { err = true; err_what = x.what(); if(!fail) hx::violation("thread:error", std::string("take() failed: ") + x.what()); }
		if(!err && rng.chance(2)) {
			err |= waitall(false); waits++;
			if(!err && !fail && sink->count != handed) hx::violation("thread:wait", fmt("%llu of %llu results delivered when every stage of %s had been waited for", (ull)sink->count, (ull)handed, desc.c_str()));
		}
		if(!err && pools[0] && rng.chance(2)) {
			try { const int n = rng.below(pools[0]->num_threads()); auto& l = pools[0]->get_local(n); if(l.used) hx::violation("thread:local", "get_local() returned state in use"); }
			catch(const std::exception& x) { err = true; if(!fail) hx::violation("thread:error", std::string("get_local() failed: ") + x.what()); }
		}
	}
	if(!fail) {
		if(pools[0]) {
			u64 sum = 0; for(size_t i = 0; i < pools[0]->num_threads(); ++i) sum += pools[0]->get_local(i).count;
			if(sum != N) hx::violation("thread:local", fmt("local counters sum to %llu, %llu items", (ull)sum, (ull)N));
		}
		if(rng.chance(30)) waitall(false);
		const bool explicit_close = rng.chance(60);
		if(explicit_close) waitall(true);
		for(int s = 0; s < stages; ++s) {
			delete threads[s]; delete pools[s];
			if(ctx[s]->missing(N)) hx::violation("thread:lost", fmt("stage %d of %s never processed %llu items", s, desc.c_str(), (ull)ctx[s]->missing(N)));
		}
		if(sink->count != N) hx::violation("thread:lost", fmt("%llu of %llu results delivered by %s", (ull)sink->count, (ull)N, desc.c_str()));
	} else {
		// all of this must return, and the failure must show
		const bool any = waitall(false);
		{ item_t i; fill(i, N - 1, 0); i.seq = N; i.body.assign(N % 5, N * 77); try { proc[0]->take(i); } catch(const std::exception&) {} }	// must return
		const bool any2 = waitall(true);
		if(!err && !(any && any2)) hx::violation("thread:silent", fmt("%s: waiting and closing all stages reported no error although job %llu of stage %d failed", desc.c_str(), (ull)fail_at, fstage));
		if(sink->count > fail_at) hx::violation("thread:afterfail", fmt("%llu results delivered, job %llu failed", (ull)sink->count, (ull)fail_at));
	}
	u64 ev = 0; for(auto* c : ctx) ev += c->events;
	hx::observe("executions", ev / 2); hx::observe("deliveries", sink->count); hx::observe("waits", waits);
	hx::kase(id);
	static int shown = 0; if(shown++ < 2) hx::sample(id);
}

// ---- a pool whose output throws
struct BombSink : Processor<item_t> {
	u64 at; std::atomic<u64> count{0}; bool dead = false;
	void take(item_t& i) override {
		if(dead) hx::violation("thread:afterfail", fmt("result %llu delivered after the output had failed", (ull)i.seq));
		if(i.seq == at) { dead = true; throw boom(); }
		count++;
	}
};
static void t_output(const std::string&) {
	const u64 N = 1 + rng.below(200); const int n = 1 + rng.below(9);
	BombSink* b = new BombSink; b->at = rng.below(N); Work w = work();
	hx::at(fmt("pool %d with failing output at %llu of %llu", n, (ull)b->at, (ull)N));
	Ctx* c = new Ctx("pool", N);
	Pool* p = new Pool([c, w](item_t& i, item_t& o, Local& l) { pool_job(*c, w, i, o, l); }, b, n);
	bool err = false;
	for(u64 s = 0; s < N && !err; ++s) { item_t i; fill(i, s, 0); try { p->take(i); } catch(const std::exception&) { err = true; } }
	bool e1 = false, e2 = false;
	try { p->wait(); } catch(const std::exception& x) { e1 = true; if(!strstr(x.what(), "boom-4711")) hx::violation("thread:error", std::string("the cause was lost: ") + x.what()); }
	try { p->close(); } catch(const std::exception&) { e2 = true; }
	if(!e1 || !e2) hx::violation("thread:silent", "a pool whose output failed reported success");
	if(b->count != b->at) hx::violation("thread:lost", fmt("%llu results delivered before the failing one at %llu", (ull)b->count, (ull)b->at));
	hx::observe("failures_surfaced", 1);
	hx::kase(fmt("output n=%d N=%llu at=%llu w=%d", n, (ull)N, (ull)b->at, w.mode));
}

// ---- readers built from stages: the consumer fails, or a file is short or missing; expected: an error (exception or abort)
struct rec_t { u64 key, id; static constexpr size_t disk_size = 16; size_t read(const uint8_t* b) { memcpy(&key, b, 8); memcpy(&id, b + 8, 8); return 16; } size_t write(uint8_t* b) const { memcpy(b, &key, 8); memcpy(b + 8, &id, 8); return 16; } };
struct rec_key { u64 operator()(const rec_t& e) { return e.key; } };
struct RecSink : Processor<std::pair<std::vector<rec_t>, size_t>> { u64 at = ~0ull, blocks = 0, entries = 0; void take(std::pair<std::vector<rec_t>, size_t>& d) override { if(blocks++ == at) throw boom(); entries += d.first.size(); } };

static int reader_child(int kind, bool sort, u64 N, int logb, int threads, u64 at) {
	const std::string f = scratch() + "rd" + std::to_string(getpid());
	RecSink sink; if(kind == 0) sink.at = at;
	if(sort) {
		DiskSort<rec_t, rec_key> s(40, logb, f);
		for(u64 i = 0; i < N; ++i) { rec_t r{hx::Rng::mix(i) >> 24, i}; s.add(r); }
		s.finish();
		const std::string b = f + ".sort_bucket_" + std::to_string(at % (1 << logb)) + ".tmp";
		if(kind == 1) { struct stat st; if(stat(b.c_str(), &st) || !st.st_size || truncate(b.c_str(), st.st_size - 1)) return 3; }
		if(kind == 2) unlink(b.c_str());
		s.read(&sink, threads);
	} else {
		table_t info;
		{ DiskTable<rec_t> t(f + ".table"); for(u64 i = 0; i < N; ++i) { rec_t r{i, i}; t.write(r); } t.close(); info = t.get_info(); }
		if(kind == 1) { if(truncate(info.file_name.c_str(), N * 16 - 1 - at % 16)) return 3; }
		if(kind == 2) unlink(info.file_name.c_str());
		DiskTable<rec_t> t(info);
		t.read(&sink, threads, 7 + at % 50);
	}
	if(kind == 0 && sink.blocks <= at) return 3;			// the fail point was not reached
	return 0;
}
static void t_reader(const std::string&) {
	const int kind = rng.below(3); const bool sort = rng.chance(50);
	const u64 N = 300 + rng.below(3000); const int logb = 1 + rng.below(5), threads = 1 + rng.below(6); const u64 at = rng.below(12);
	const std::string id = fmt("%s reader, %s, N=%llu logb=%d threads=%d at=%llu", sort ? "sort" : "table", kind == 0 ? "failing consumer" : kind == 1 ? "short file" : "missing file", (ull)N, logb, threads, (ull)at);
	hx::at(id);
	const pid_t p = fork();
	if(!p) {
		int rc = 7;
		if(!freopen("/dev/null", "w", stderr)) {}
		try { rc = reader_child(kind, sort, N, logb, threads, at); } catch(const std::exception&) { rc = 7; }
		_exit(rc);
	}
	int st = 0; waitpid(p, &st, 0);
	for(auto& f : listdir(scratch())) if(f.find("rd" + std::to_string(p)) == 0) unlink((scratch() + f).c_str());
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0) hx::violation("thread:silent", id + ": ended with success");
	else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { hx::evals(1); return; }
	else if(WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) hx::violation("thread:crash", id + fmt(": killed by signal %d", WTERMSIG(st)));
	else hx::observe("failures_surfaced", 1);
	hx::kase(id);
}

int main(int argc, char** argv) {
	Quiet q;
	const int cases = atoi(hx::arg(argc, argv, "--cases", "50"));
	const std::string mode = hx::arg(argc, argv, "--mode", "ok");
	rng = hx::Rng(hx::seed() * 67867967 + atoi(hx::arg(argc, argv, "--part", "0")) * 31 + (mode == "fail"));
	g_read_chunk_size = 64; g_write_chunk_size = 16;
	hx::out();
	for(int c = 0; c < cases; ++c) {
		if(mode == "ok") { rng.chance(30) ? t_thread("ok") : t_chain("ok"); continue; }
		const int kind = rng.below(10);
		if(kind >= 7) { t_reader("fail"); continue; }
		// failed stages cannot be destroyed (by design the process ends): each case in a process of its own
		const u64 s = rng();
		const pid_t p = fork();
		if(!p) { rng = hx::Rng(s); if(!freopen("/dev/null", "w", stderr)) {} kind < 2 ? t_thread("fail") : kind < 6 ? t_chain("fail") : t_output("fail"); hx::observe("failures_surfaced", 1); _exit(0); }
		int st = 0; waitpid(p, &st, 0);
		if(!WIFEXITED(st) || WEXITSTATUS(st)) hx::violation("thread:crash", fmt("ended with wait status 0x%x although every call was guarded", st));
	}
	hx::done();
}
