// The real external sort under generated key distributions, adders, readers and chunk sizes.
// Monitors: every added entry delivered exactly once and unchanged, blocks ascending and sorted inside, offsets exact,
// deliveries one at a time, files present/absent exactly as asked.
#include "hphase.hpp"
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <atomic>
#include <thread>
#include <unordered_set>
using hx::fmt;
typedef unsigned long long ull;

struct entry_t {		// full 64-bit key and payload
	uint64_t key, id;
	static constexpr size_t disk_size = 16;
	size_t read(const uint8_t* b) { memcpy(&key, b, 8); memcpy(&id, b + 8, 8); return disk_size; }
	size_t write(uint8_t* b) const { memcpy(b, &key, 8); memcpy(b + 8, &id, 8); return disk_size; }
};
struct get_key { uint64_t operator()(const entry_t& e) { return e.key; } };

template<typename T> struct Tr;
template<> struct Tr<entry_t> { static const int id_bits = 64; static void set(entry_t& e, unsigned __int128 k, uint64_t id) { e.key = uint64_t(k); e.id = id; } static uint64_t id(const entry_t& e) { return e.id; } static unsigned __int128 key(const entry_t& e) { return e.key; } };
template<> struct Tr<phase3::entry_np> { typedef phase3::entry_np E; static void set(E& e, unsigned __int128 k, uint64_t id) { e.key = uint64_t(k); e.pos = id; } static uint64_t id(const E& e) { return e.pos; } static unsigned __int128 key(const E& e) { return e.key; } };
template<> struct Tr<phase3::entry_lp> { typedef phase3::entry_lp E; static void set(E& e, unsigned __int128 k, uint64_t id) { e.point = k; e.key = id; } static uint64_t id(const E& e) { return e.key; } static unsigned __int128 key(const E& e) { return e.point; } };
template<> struct Tr<phase1::entry_1> { typedef phase1::entry_1 E; static void set(E& e, unsigned __int128 k, uint64_t id) { e.y = uint64_t(k); e.x = id; } static uint64_t id(const E& e) { return e.x; } static unsigned __int128 key(const E& e) { return e.y; } };
template<> struct Tr<phase1::entry_4> { typedef phase1::entry_4 E; static void set(E& e, unsigned __int128 k, uint64_t id) { e.y = uint64_t(k); e.pos = id; e.off = id & 1023; for(size_t i = 0; i < e.meta.size(); ++i) e.meta[i] = uint8_t(id * 31 + i * 7 + (id >> 8)); }
	static uint64_t id(const E& e) { for(size_t i = 0; i < e.meta.size(); ++i) if(e.meta[i] != uint8_t(uint64_t(e.pos) * 31 + i * 7 + (uint64_t(e.pos) >> 8))) return ~uint64_t(0); return e.off == (e.pos & 1023) ? uint64_t(e.pos) : ~uint64_t(0); } static unsigned __int128 key(const E& e) { return e.y; } };

static hx::Rng rng(1);

template<typename T, typename DS>
static void one(const char* type, int key_bits, int c, bool over = false) {		// over: keys may exceed the nominal width by a fraction of a bit, as table positions do
	const int logb = 1 + rng.below(std::min(7, key_bits / 2));
	g_read_chunk_size = (size_t[]){65536, 4096, 1000, 64, 7, 1}[rng.below(6)];
	g_write_chunk_size = (size_t[]){4096, 100, 17, 1, 64}[rng.below(5)];
	uint64_t N = (uint64_t[]){0, 1, 2, 1 + rng.below(100), 1000 + rng.below(20000), 1000 + rng.below(60000), g_read_chunk_size + rng.below(3) - 1, g_write_chunk_size * 2 + rng.below(3) - 1}[rng.below(8)];
	if(g_write_chunk_size == 1 || g_read_chunk_size == 1) N = std::min<uint64_t>(N, 8000);
	if(hx::thorough() && rng.chance(20)) N *= 6;
	const int adders = rng.below(6), threads = 1 + rng.below(rng.chance(30) ? 16 : 5), rthreads = rng.chance(50) ? -1 : 1 + int(rng.below(6));
	const int style = over && rng.chance(25) ? 9 : rng.below(9);
	const bool keep = rng.chance(40), slow = rng.chance(15);
	const std::string what = fmt("%s key_bits=%d log_buckets=%d N=%llu adders=%d threads=%d/%d style=%d keep=%d rchunk=%zu wchunk=%zu", type, key_bits, logb, (ull)N, adders, threads, rthreads, style, keep, g_read_chunk_size, g_write_chunk_size);
	hx::at(what);
	auto bad = [&](const std::string& k, const std::string& m) { hx::violation(k, m + " (" + what + ")"); };
	const unsigned __int128 mask = key_bits >= 128 ? ~(unsigned __int128)0 : ((unsigned __int128)1 << key_bits) - 1;
	auto rnd = [&]() { return ((unsigned __int128)rng() << 64 | rng()) & mask; };
	const unsigned __int128 hot = rnd(); const int hb = key_bits - logb;
	std::vector<unsigned __int128> keys(N);
	for(uint64_t i = 0; i < N; ++i) {
		unsigned __int128 k;
		switch(style) {
			case 0: k = rnd(); break;
			case 1: k = hot; break;														// all equal
			case 2: k = (hot >> hb << hb) | (rnd() & (((unsigned __int128)1 << hb) - 1)); break;		// one bucket
			case 3: k = rng.chance(50) ? 0 : mask; break;									// both ends
			case 4: k = ((unsigned __int128)i * 3) & mask; break;							// ascending
			case 5: k = (mask - (unsigned __int128)i) & mask; break;						// descending
			case 6: k = (unsigned __int128)(rng.below(1 << logb)) << hb; break;				// bucket starts
			case 7: k = ((unsigned __int128)(1 + rng.below(1 << logb)) << hb) - 1; break;		// bucket ends
			case 9: k = rnd() + (rng.chance(40) ? rnd() * 2 / 5 : 0); break;				// the table is larger than 2^k
			default: k = rng.chance(90) ? (rnd() & (((unsigned __int128)1 << hb) - 1)) : rnd();		// mostly first bucket
		}
		keys[i] = style == 9 ? k : k & mask;
	}
	const std::string prefix = scratch() + "srt";
	auto files = [&] { size_t n = 0; for(auto& f : listdir(scratch())) if(f.find("srt.") == 0) n++; return n; };
	struct Out : Processor<std::pair<std::vector<T>, size_t>> {
		std::atomic<int> inside{0}; std::atomic<bool> overlap{false};
		bool slow = false; uint64_t blocks = 0;
		std::vector<std::pair<unsigned __int128, uint64_t>> all; bool off_ok = true, sorted = true;
		void take(std::pair<std::vector<T>, size_t>& d) override {
			if(inside++) overlap = true;
			if(slow && blocks % 3 == 0) usleep(200);
			if(d.second != all.size()) off_ok = false;
			for(auto& e : d.first) {
				auto k = Tr<T>::key(e);
				if(!all.empty() && k < all.back().first) sorted = false;
				all.push_back({k, Tr<T>::id(e)});
			}
			blocks++;
			inside--;
		}
	};
	auto judge = [&](Out& o, const char* when) {
		if(o.overlap) bad(std::string("overlap"), fmt("%s: two blocks delivered at the same time", when));
		if(!o.off_ok) bad("offset", fmt("%s: a block is labelled with a wrong position", when));
		if(!o.sorted) bad("order", fmt("%s: delivered keys not ascending", when));
		if(o.all.size() != N) { bad("count", fmt("%s: %zu entries delivered, %llu added", when, o.all.size(), (ull)N)); return; }
		std::vector<char> seen(N, 0);
		for(auto& e : o.all) {
			if(e.second >= N || e.first != keys[e.second]) { bad("content", fmt("%s: an entry came back with other content", when)); return; }
			if(seen[e.second]++) { bad("dup", fmt("%s: entry %llu delivered twice", when, (ull)e.second)); return; }
		}
		hx::observe("sorted_entries_checked", N); hx::observe("blocks_checked", o.blocks);
	};
	{
		DS s(key_bits, logb, prefix);
		if(s.num_buckets() != size_t(1) << logb) bad("buckets", "wrong number of buckets");
		if(keep) s.set_keep_files(true);
		if(adders == 0) for(uint64_t i = 0; i < N; ++i) { T e; Tr<T>::set(e, keys[i], i); s.add(e); }
		else {
			std::vector<std::thread> th;
			for(int a = 0; a < adders; ++a) th.emplace_back([&, a] {
				auto cache = s.add_cache();
				for(uint64_t i = a; i < N; i += adders) { T e; Tr<T>::set(e, keys[i], i); cache->add(e); if(i % 5000 == uint64_t(a)) cache->flush(); }
			});
			for(auto& t : th) t.join();
		}
		s.finish();
		Out o; o.slow = slow;
		s.read(&o, threads, rthreads);
		judge(o, "first read");
		if(keep) {
			Out o2; s.read(&o2, 1 + rng.below(4));
			judge(o2, "second read");
			if(files() != size_t(1) << logb) bad("kept", fmt("%zu files after reading with keep, %d expected", files(), 1 << logb));
		} else if(files()) bad("left", fmt("%zu files left after reading", files()));
	}
	if(keep) {
		if(files() != size_t(1) << logb) bad("kept", fmt("%zu files after closing with keep", files()));
		{
			DS s(key_bits, logb, prefix, true);
			Out o; s.read(&o, threads, rthreads);
			judge(o, "reopened");
		}
		if(files() != size_t(1) << logb) bad("kept", "reopening read-only removed files");
		for(auto& f : listdir(scratch())) if(f.find("srt.") == 0) std::remove((scratch() + f).c_str());
	} else {
		if(files()) bad("left", "files left after closing");
		if(rng.chance(20)) {		// never read: close removes
			{ DS s(key_bits, logb, prefix); for(uint64_t i = 0; i < std::min<uint64_t>(N, 100); ++i) { T e; Tr<T>::set(e, keys[i], i); s.add(e); } s.finish(); }
			if(files()) bad("left", "unread sort left its files");
		}
	}
	hx::kase(what);
	if(c < 2) hx::sample(what);
}

// Sorts reopened from (sparse) kept files: more than 2^32 entries in all, or more than 4 GiB in one bucket.
struct byte_t { uint8_t key = 0; static constexpr size_t disk_size = 1; size_t read(const uint8_t* b) { key = *b; return 1; } size_t write(uint8_t* b) const { *b = key; return 1; } };
struct get_byte { size_t operator()(const byte_t& e) { return e.key; } };
struct page_t { uint32_t key = 0; static constexpr size_t disk_size = 4096; size_t read(const uint8_t* b) { memcpy(&key, b, 4); return disk_size; } size_t write(uint8_t* b) const { memset(b, 0, disk_size); memcpy(b, &key, 4); return disk_size; } };
struct get_page { size_t operator()(const page_t& e) { return e.key; } };
template<typename T, typename K>
static void huge(const char* type, int logb, uint64_t per_bucket, int big_bucket, uint64_t big_count, int threads) {
	const std::string what = fmt("huge %s log_buckets=%d entries=%llu threads=%d", type, logb, (ull)(per_bucket * (1 << logb) + big_count), threads);
	hx::at(what);
	const std::string pre = scratch() + "huge";
	{ DiskSort<T, K> s(2 * logb, logb, pre); s.set_keep_files(true); s.finish(); }
	std::vector<std::string> files;
	for(auto& f : listdir(scratch())) if(f.compare(0, 5, "huge.") == 0) files.push_back(scratch() + f);
	uint64_t total = 0;
	bool ok = files.size() == size_t(1) << logb;
	for(size_t i = 0; ok && i < files.size(); ++i) { const uint64_t n = per_bucket + (int(i) == big_bucket ? big_count : rng.below(3)); total += n; ok = !truncate(files[i].c_str(), n * T::disk_size); }
	if(ok) {
		struct J : Processor<std::pair<std::vector<T>, size_t>> {
			uint64_t next = 0; bool bad = false; std::string what;
			void take(std::pair<std::vector<T>, size_t>& d) override {
				if(d.second != next && !bad) { bad = true; hx::violation("huge:offset", what + fmt(": block labelled %llu where %llu entries came before it", (ull)d.second, (ull)next)); }
				next += d.first.size();
			}
		} j; j.what = what;
		DiskSort<T, K> s(2 * logb, logb, pre, true);
		s.read(&j, threads);
		if(j.next != total) hx::violation("huge:count", what + fmt(": %llu entries delivered of %llu", (ull)j.next, (ull)total));
		hx::observe_max("largest_sort_entries", total);
		hx::kase(what);
	}
	for(auto& f : files) unlink(f.c_str());
}

int main(int argc, char** argv) {
	Quiet q;
	if(std::string(hx::arg(argc, argv, "--mode", "")) == "huge") {
		rng = hx::Rng(hx::seed());
		g_read_chunk_size = 65536; g_write_chunk_size = 64;
		huge<byte_t, get_byte>("bytes", 5, (uint64_t(1) << 27) + 8000000 + rng.below(1000), -1, 0, 8);
		g_read_chunk_size = 256;
		huge<page_t, get_page>("pages", 2, 10, 1, (uint64_t(1) << 20) + 5 + rng.below(1000), 4);
		hx::done();
		return 0;
	}
	const int cases = atoi(hx::arg(argc, argv, "--cases", "100"));
	rng = hx::Rng(hx::seed() * 49979687 + atoi(hx::arg(argc, argv, "--part", "0")));
#ifdef CHIA_K34
	const int MK = 34;
#else
	const int MK = 32;
#endif
	for(int c = 0; c < cases; ++c) switch(rng.below(6)) {
		case 0: case 1: one<entry_t, DiskSort<entry_t, get_key>>("generic", 4 + rng.below(61), c); break;
		case 2: one<phase3::entry_np, phase3::DiskSortNP>("entry_np", 16 + rng.below(MK - 16), c, true); break;
		case 3: one<phase3::entry_lp, phase3::DiskSortLP>("entry_lp", 2 * (16 + rng.below(MK - 16)) - 1, c, true); break;
		case 4: one<phase1::entry_1, phase1::DiskSort1>("entry_1", 22 + rng.below(MK - 15), c); break;
		default: one<phase1::entry_4, phase1::DiskSort4>("entry_4", 22 + rng.below(MK - 15), c);
	}
	hx::done();
}
