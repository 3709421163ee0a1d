// Every on-disk record type and the table file: what is written reads back, nothing else is touched.
#include "hphase.hpp"
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <chia/entries.h>
#include <set>
using hx::fmt;
typedef unsigned long long ull;
typedef unsigned __int128 u128;
static hx::Rng rng(1);
#ifdef CHIA_K34
static const int YB = 40, XB = 34, PB = 35, LPB = 67, Y7 = 34;
#else
static const int YB = 38, XB = 32, PB = 32, LPB = 63, Y7 = 32;
#endif
static const int OB = 10;

struct F { const char* name; u128 v; };
typedef std::vector<F> Fs;
static u128 edgy128(int bits) { return bits <= 64 ? u128(rng.edgy(bits)) : (u128(rng.edgy(bits - 64)) << 64 | rng.edgy(64)); }

template<typename T> struct Rec;
#define R2(T, NAME, SET, GET) template<> struct Rec<T> { static const char* name() { return NAME; } static void set(T& e) { SET; } static Fs get(const T& e) { return GET; } };
R2(phase1::entry_1, "phase1::entry_1", (e.y = rng.edgy(YB), e.x = rng.edgy(XB)), (Fs{{"y", e.y}, {"x", e.x}}))
template<int N> struct Rec<phase1::entry_xm<N>> {
	typedef phase1::entry_xm<N> T;
	static const char* name() { static std::string s = fmt("phase1::entry_xm<%d>", N); return s.c_str(); }
	static void set(T& e) { e.y = rng.edgy(YB); e.pos = rng.edgy(PB); e.off = rng.edgy(OB); const bool ff = rng.chance(15); for(auto& b : e.meta) b = ff ? 255 : rng(); }
	static Fs get(const T& e) { Fs f{{"y", e.y}, {"pos", e.pos}, {"off", e.off}}; for(auto b : e.meta) f.push_back({"meta", b}); return f; }
};
R2(phase1::entry_7, "phase1::entry_7", (e.y = rng.edgy(Y7), e.pos = rng.edgy(PB), e.off = rng.edgy(OB)), (Fs{{"y", e.y}, {"pos", e.pos}, {"off", e.off}}))
R2(phase1::tmp_entry_1, "phase1::tmp_entry_1", (e.x = rng.edgy(XB)), (Fs{{"x", e.x}}))
R2(phase1::tmp_entry_x, "phase1::tmp_entry_x", (e.pos = rng.edgy(PB), e.off = rng.edgy(OB)), (Fs{{"pos", e.pos}, {"off", e.off}}))
R2(phase2::entry_x, "phase2::entry_x", (e.key = rng.edgy(PB), e.pos = rng.edgy(PB), e.off = rng.edgy(OB)), (Fs{{"key", e.key}, {"pos", e.pos}, {"off", e.off}}))
R2(phase3::entry_lp, "phase3::entry_lp", (e.point = edgy128(LPB), e.key = rng.edgy(PB)), (Fs{{"point", e.point}, {"key", e.key}}))
R2(phase3::entry_np, "phase3::entry_np", (e.key = rng.edgy(PB), e.pos = rng.edgy(PB)), (Fs{{"key", e.key}, {"pos", e.pos}}))

static bool eq(const Fs& a, const Fs& b, std::string& d) {
	for(size_t i = 0; i < a.size(); ++i) if(a[i].v != b[i].v) { d = fmt("%s wrote 0x%llx%016llx read 0x%llx%016llx", a[i].name, (ull)(a[i].v >> 64), (ull)a[i].v, (ull)(b[i].v >> 64), (ull)b[i].v); return false; }
	return true;
}
template<typename T> static void garbage(T& e) { uint8_t* p = (uint8_t*)&e; for(size_t i = 0; i < sizeof(T); ++i) p[i] = rng(); }

template<typename T> static void records(uint64_t rounds) {
	const std::string nm = Rec<T>::name();
	hx::at(nm);
	const size_t D = T::disk_size; std::string d;
	std::set<std::string> shapes;
	for(uint64_t r = 0; r < rounds; ++r) {
		const size_t n = 1 + rng.below(5), pre = 8 + rng.below(9);
		std::vector<uint8_t> buf(pre + n * D + 24), orig;
		for(auto& b : buf) b = rng();
		orig = buf;
		std::vector<T> in(n);
		std::vector<size_t> order(n); for(size_t i = 0; i < n; ++i) order[i] = i;
		for(size_t i = n; i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
		for(auto& e : in) { garbage(e); Rec<T>::set(e); }
		for(size_t i : order) {
			const auto before = Rec<T>::get(in[i]);
			const size_t w = in[i].write(buf.data() + pre + i * D);
			if(w != D) hx::violation("codec:size", nm + fmt(": write() returned %zu, disk_size %zu", w, D));
			if(!eq(before, Rec<T>::get(in[i]), d)) hx::violation("codec:changed", nm + ": write() changed the entry: " + d);
		}
		for(size_t i = 0; i < buf.size(); ++i) if((i < pre || i >= pre + n * D) && buf[i] != orig[i]) { hx::violation("codec:outside", nm + fmt(": byte %zd outside the record changed", ssize_t(i) - ssize_t(pre))); break; }
		for(size_t i = 0; i < n; ++i) {
			T out; garbage(out);
			const auto snap = buf;
			const size_t w = out.read(buf.data() + pre + i * D);
			if(w != D) hx::violation("codec:size", nm + fmt(": read() returned %zu", w));
			if(!eq(Rec<T>::get(in[i]), Rec<T>::get(out), d)) hx::violation("codec:value", nm + ": " + d);
			if(snap != buf) hx::violation("codec:outside", nm + ": read() changed the buffer");
			// the result depends on the record's own bytes only
			std::vector<uint8_t> other(D + 40); for(auto& b : other) b = rng();
			memcpy(other.data() + 20, buf.data() + pre + i * D, D);
			T o2; garbage(o2); o2.read(other.data() + 20);
			if(!eq(Rec<T>::get(out), Rec<T>::get(o2), d)) hx::violation("codec:depends", nm + ": the value read depends on bytes outside the record: " + d);
		}
		for(auto& f : Rec<T>::get(in[0])) if(strcmp(f.name, "meta")) { int n = 0; for(u128 v = f.v; v; v >>= 1) n++; shapes.insert(fmt("%s %s %d", nm.c_str(), f.name, n)); }
		hx::evals(0);
	}
	hx::evals(rounds);
	for(auto& s : shapes) hx::kase(s);
	hx::observe("records_checked", rounds * 3);
}

// write_entry / read_entry
template<typename T> static void file_entries() {
	const std::string f = scratch() + "entries";
	std::vector<T> in(50); std::string d;
	{ FILE* o = fopen(f.c_str(), "wb"); for(auto& e : in) { garbage(e); Rec<T>::set(e); if(!write_entry(o, e)) hx::violation("codec:file", "write_entry failed"); } fclose(o); }
	FILE* i = fopen(f.c_str(), "rb");
	for(auto& e : in) { T o; garbage(o); if(!read_entry(i, o) || !eq(Rec<T>::get(e), Rec<T>::get(o), d)) hx::violation("codec:file", std::string(Rec<T>::name()) + ": read_entry: " + d); }
	T o; if(read_entry(i, o)) hx::violation("codec:file", "read_entry at end of file reported success");
	fclose(i); unlink(f.c_str());
}

template<typename T> struct Judge : Processor<std::pair<std::vector<T>, size_t>> {
	const std::vector<T>& in; uint64_t next = 0, blocks = 0; size_t block; std::string what; std::atomic<int> inside{0}; uint64_t slow;
	Judge(const std::vector<T>& in, size_t block, const std::string& w) : in(in), block(block), what(w) { slow = rng.below(4); }
	void take(std::pair<std::vector<T>, size_t>& d) override {
		if(inside++) hx::violation("table:overlap", what + ": blocks delivered concurrently");
		if(d.second != next) hx::violation("table:offset", what + fmt(": block labelled %zu where %llu was due", d.second, (ull)next));
		if(d.first.size() > block || d.first.empty()) hx::violation("table:block", what + fmt(": block of %zu entries, block size %zu", d.first.size(), block));
		std::string s;
		for(size_t i = 0; i < d.first.size(); ++i) {
			if(next + i >= in.size()) { hx::violation("table:extra", what + ": more entries than were written"); break; }
			if(!eq(Rec<T>::get(in[next + i]), Rec<T>::get(d.first[i]), s)) { hx::violation("table:value", what + fmt(": entry %llu: ", (ull)(next + i)) + s); break; }
		}
		next += d.first.size(); blocks++;
		if(slow == 1) usleep(50);
		inside--;
	}
};
template<typename T> static void table(int c) {
	g_write_chunk_size = (size_t[]){4096, 100, 17, 1, 64}[rng.below(5)];
	const size_t block = (size_t[]){65536, 4096, 1000, 64, 7, 1}[rng.below(6)];
	g_read_chunk_size = rng.chance(50) ? block : 65536;
	uint64_t N = (uint64_t[]){0, 1, 2, block, block + 1, block > 1 ? block - 1 : 1, 3 * block, g_write_chunk_size, g_write_chunk_size * 2 + 1, rng.below(3000), rng.below(100000)}[rng.below(11)];
	if(block < 20) N = std::min<uint64_t>(N, 4000);
	N = std::min<uint64_t>(N, 200000);
	const int threads = 1 + rng.below(9);
	const bool def = rng.chance(20);
	const std::string f = scratch() + "table.tmp";
	const std::string what = fmt("DiskTable<%s> N=%llu block=%zu wchunk=%zu threads=%d%s", Rec<T>::name(), (ull)N, block, g_write_chunk_size, threads, def ? " default" : "");
	hx::at(what);
	std::vector<T> in(N); for(auto& e : in) Rec<T>::set(e);
	table_t info;
	{
		DiskTable<T> t(f);
		for(uint64_t i = 0; i < N; ++i) { t.write(in[i]); if(rng.chance(1) && i % 10 == 0) t.flush(); }
		if(rng.chance(70)) { t.close(); info = t.get_info(); if(info.num_entries != N) hx::violation("table:count", what + fmt(": %llu entries recorded", (ull)info.num_entries)); if(rng.chance(30)) t.close(); }
		else { info.file_name = f; info.num_entries = N; }		// the destructor completes the file
	}
	struct stat st; stat(f.c_str(), &st);
	if(uint64_t(st.st_size) != N * T::disk_size) hx::violation("table:size", what + fmt(": file has %llu bytes", (ull)st.st_size));
	if(info.file_name != f) hx::violation("table:name", what + ": wrong file name recorded");
	if(N) {
		DiskTable<T> t(info);
		for(int round = 0; round < 2; ++round) {
			Judge<T> j(in, def ? g_read_chunk_size : block, what);
			if(def) t.read(&j); else t.read(&j, threads, block);
			if(j.next != N) hx::violation("table:lost", what + fmt(": %llu entries returned", (ull)j.next));
			hx::observe("table_entries_checked", j.next); hx::observe("table_blocks", j.blocks);
		}
		stat(f.c_str(), &st);
		if(uint64_t(st.st_size) != N * T::disk_size) hx::violation("table:size", what + ": reading changed the file");
		bool threw = false; try { T e; Rec<T>::set(e); for(size_t i = 0; i <= g_write_chunk_size; ++i) t.write(e); t.flush(); } catch(const std::exception&) { threw = true; }
		if(!threw) hx::violation("table:readonly", what + ": writing to a table opened for reading was accepted");
	}
	unlink(f.c_str());
	hx::kase(what);
	if(c < 1) hx::sample(what);
}

// table beyond 4 GiB: sparse file, entries of 4 KiB (and of the real width in thorough runs)
struct wide_t { uint64_t v; static constexpr size_t disk_size = 4096; size_t read(const uint8_t* b) { memcpy(&v, b, 8); return disk_size; } size_t write(uint8_t* b) const { memset(b, 0, disk_size); memcpy(b, &v, 8); return disk_size; } };
struct tiny_t { uint8_t v; static constexpr size_t disk_size = 1; size_t read(const uint8_t* b) { v = *b; return 1; } size_t write(uint8_t* b) const { *b = v; return 1; } };		// more than 2^32 entries
template<typename T> static void sparse(uint64_t bytes, int threads, size_t block) {
	const uint64_t N = bytes / T::disk_size;
	const std::string f = scratch() + "sparse.tmp";
	const std::string what = fmt("sparse table of %llu MiB, record %zu, threads=%d block=%zu", (ull)(bytes >> 20), size_t(T::disk_size), threads, block);
	hx::at(what);
	FILE* o = fopen(f.c_str(), "wb");
	std::map<uint64_t, uint64_t> marks;
	if(ftruncate(fileno(o), N * T::disk_size)) { fclose(o); return; }
	for(uint64_t p : {uint64_t(0), uint64_t(1), N / 2, N - 1, (uint64_t(1) << 31) / T::disk_size, (uint64_t(1) << 32) / T::disk_size, (uint64_t(1) << 32) / T::disk_size + 1, (uint64_t(1) << 32) / T::disk_size - 1, N - block - 1}) marks[p] = 1 + rng.bits(30);
	for(int i = 0; i < 200; ++i) marks[rng.below(N)] = 1 + rng.bits(30);
	for(auto& m : marks) { uint8_t b[8]; if(T::disk_size == 1) m.second = 1 + m.second % 255; memcpy(b, &m.second, 8); if(pwrite(fileno(o), b, sizeof(b) < T::disk_size ? 8 : T::disk_size == 1 ? 1 : 4, m.first * T::disk_size) < 0) {} }
	fclose(o);
	struct J : Processor<std::pair<std::vector<T>, size_t>> {
		uint64_t next = 0; std::map<uint64_t, uint64_t> got; std::string what;
		void take(std::pair<std::vector<T>, size_t>& d) override {
			if(d.second != next) hx::violation("table:offset", what + fmt(": block labelled %zu where %llu was due", d.second, (ull)next));
			for(size_t i = 0; i < d.first.size(); ++i) { uint64_t v; if constexpr(std::is_same<T, wide_t>::value || std::is_same<T, tiny_t>::value) v = d.first[i].v; else v = d.first[i].pos; if(v) got[next + i] = v; }
			next += d.first.size();
		}
	} j; j.what = what;
	table_t info; info.file_name = f; info.num_entries = N;
	DiskTable<T> t(info);
	t.read(&j, threads, block);
	if(j.next != N) hx::violation("table:lost", what + fmt(": %llu of %llu entries", (ull)j.next, (ull)N));
	if((std::is_same<T, wide_t>::value || std::is_same<T, tiny_t>::value) && j.got != marks) hx::violation("table:big", what + ": entries beyond 4 GiB differ from what the file holds");
	hx::observe("table_entries_checked", j.next);
	hx::observe_max("largest_table_bytes", bytes);
	unlink(f.c_str());
	hx::kase(what);
}

int main(int argc, char** argv) {
	Quiet q;
	rng = hx::Rng(hx::seed() * 86028121 + atoi(hx::arg(argc, argv, "--part", "0")));
	const uint64_t rounds = atoll(hx::arg(argc, argv, "--rounds", "20000"));
	const int tables = atoi(hx::arg(argc, argv, "--tables", "30"));
#define ALL(X) X(phase1::entry_1) X(phase1::entry_2) X(phase1::entry_3) X(phase1::entry_5) X(phase1::entry_7) X(phase1::tmp_entry_1) X(phase1::tmp_entry_x) X(phase2::entry_x) X(phase3::entry_lp) X(phase3::entry_np)
#define DO(T) records<T>(rounds); file_entries<T>();
	ALL(DO)
	for(int c = 0; c < tables; ++c) switch(rng.below(5)) {
		case 0: table<phase1::tmp_entry_1>(c); break;
		case 1: table<phase1::entry_7>(c); break;
		case 2: table<phase1::entry_4>(c); break;
		default: table<phase1::tmp_entry_x>(c);
	}
	// assign() hands the right fields from phase to phase
	for(int i = 0; i < 2000; ++i) {
		phase1::entry_1 e1; Rec<phase1::entry_1>::set(e1); phase1::tmp_entry_1 t1; garbage(t1); t1.assign(e1);
		phase1::entry_4 e4; Rec<phase1::entry_4>::set(e4); phase1::tmp_entry_x tx; garbage(tx); tx.assign(e4);
		phase2::entry_x e2; garbage(e2); e2.assign(tx);
		phase1::entry_7 e7, f7; Rec<phase1::entry_7>::set(e7); garbage(f7); f7.assign(e7); std::string d;
		if(t1.x != e1.x || tx.pos != e4.pos || tx.off != e4.off || e2.pos != e4.pos || e2.off != e4.off || !eq(Rec<phase1::entry_7>::get(e7), Rec<phase1::entry_7>::get(f7), d)) hx::violation("codec:assign", "a field was lost or mixed up between phases");
	}
	if(atoi(hx::arg(argc, argv, "--sparse", "0"))) {
		sparse<wide_t>(uint64_t(4400) << 20, 1 + rng.below(4), 1000 + rng.below(200));
		sparse<tiny_t>((uint64_t(1) << 32) + 50000000 + rng.below(1000), 4, 1000000 + rng.below(100000));
		if(hx::thorough()) { sparse<wide_t>(uint64_t(9000) << 20, 3, 4096); sparse<phase1::tmp_entry_x>(uint64_t(4200) << 20, 4, 65536); }
	}
	hx::done();
}
