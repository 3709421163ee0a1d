// The entropy coders (FSE, Huff0, FSE-U16, histogram) under generated blocks and hostile streams.
// Every buffer is an exact-size heap block, so under AddressSanitizer each byte touched outside is an event.
#include "hx.hpp"
#include <memory>
#include <cmath>
#include <algorithm>
#include <map>
#define FSE_STATIC_LINKING_ONLY
#define HUF_STATIC_LINKING_ONLY
extern "C" {
#include <FSE/lib/fse.h>
#include <FSE/lib/huf.h>
#include <FSE/lib/hist.h>
}
extern "C" {
size_t FSE_compressU16(void* dst, size_t dstCapacity, const unsigned short* src, size_t srcSize, unsigned maxSymbolValue, unsigned tableLog);
size_t FSE_decompressU16(unsigned short* dst, size_t dstCapacity, const void* cSrc, size_t cSrcSize);
}
#define FSE_TL_MAX 14		// FSE_MAX_TABLELOG, from FSE_MAX_MEMORY_USAGE 16
using hx::fmt;
typedef std::vector<uint8_t> bytes;
static hx::Rng rng(1);
static std::map<std::string, uint64_t> cnt;

struct Buf {		// exact-size heap block
	size_t n; uint8_t* p;
	explicit Buf(size_t n) : n(n), p((uint8_t*)malloc(n ? n : 1)) { if(n) memset(p, 0xA5, n); if(!n) q = p; }
	Buf(const uint8_t* s, size_t n) : n(n), p((uint8_t*)malloc(n ? n : 1)) { if(n) memcpy(p, s, n); }
	~Buf() { free(p); }
	Buf(const Buf&) = delete;
	uint8_t* q = nullptr;
};

static std::string what;
static void bad(const std::string& k, const std::string& m) { hx::violation(k, m + " (" + what + ")"); }

static bytes gen(unsigned& style, size_t maxn) {
	size_t n;
	switch(rng.below(8)) {
		case 0: n = rng.below(6); break;
		case 1: n = rng.below(40); break;
		case 2: n = rng.below(600); break;
		case 3: n = (size_t[]){255, 256, 257, 1023, 1024, 2047, 2048, 9999, 10000, 65535, 65536}[rng.below(11)]; break;
		case 4: n = maxn - rng.below(3); break;
		default: n = rng.below(12000);
	}
	n = std::min(n, maxn);
	bytes b(n);
	style = rng.below(12);
	const unsigned A = 1 + rng.below(256), base = rng.below(256 - A + 1);
	const double p = 0.02 + 0.9 * (rng.below(1000) / 1000.0);
	for(size_t i = 0; i < n; ++i) {
		unsigned v = 0;
		switch(style) {
			case 0: v = base; break;
			case 1: v = rng.chance(50) ? base : base + A - 1; break;
			case 2: v = base + rng.below(A); break;
			case 3: { unsigned g = 0; while(g < A - 1 && rng.below(1000) < 1000 * (1 - p)) g++; v = base + g; } break;
			case 4: v = i + 1 == n ? base + A - 1 : base; break;				// one odd symbol at the end
			case 5: v = i == 0 ? base + A - 1 : base; break;					// ... at the start
			case 6: v = i & 255; break;											// every symbol
			case 7: v = (i * 256 / (n ? n : 1)); break;							// runs
			case 8: v = rng.chance(97) ? base : rng.below(256); break;
			case 9: v = uint8_t(-std::log((rng.below(1 << 20) + 1) / double(1 << 20)) * (1 + A / 16.0)); break;
			case 10: v = 255 - rng.below(1 + rng.below(A)); break;
			default: v = rng.below(256);
		}
		b[i] = v;
	}
	return b;
}
static double entropy(const bytes& b) {
	unsigned c[256] = {}; for(auto x : b) c[x]++;
	double h = 0; for(auto x : c) if(x) h -= x * std::log2(x / double(b.size()));
	return b.empty() ? 0 : h / b.size();
}
static unsigned maxsym(const bytes& b) { unsigned m = 0; for(auto x : b) m = std::max<unsigned>(m, x); return m; }
static bool constant(const bytes& b) { for(auto x : b) if(x != b[0]) return false; return true; }

static size_t capacity(size_t bound, size_t n) {
	switch(rng.below(14)) {
		case 0: return 0; case 1: return rng.below(20); case 2: return n / 2 + rng.below(8); case 3: return rng.below(n + 2);
		case 4: return n; default: return bound;
	}
}

typedef size_t (*dec_fn)(void*, size_t, const void*, size_t);
enum { EXACT = 1 };
// hostile and honest decoding with one decoder; orig may be null
static void decode(const char* name, dec_fn f, const uint8_t* c, size_t cn, const bytes* orig, size_t cap, int kind) {
	Buf src(c, cn), dst(cap);
	const size_t r = f(dst.p, cap, src.p, cn);
	cnt["decoded"]++;
	if(FSE_isError(r)) {
		cnt["decode_errors"]++;
		if(orig && cap >= orig->size() && (kind != EXACT || cap == orig->size()))
			bad(std::string(name) + ":lost", fmt("%s: decoding own output fails with %s", name, FSE_getErrorName(r)));
		return;
	}
	if(r > cap) return bad(std::string(name) + ":cap", fmt("%s: %zu bytes reported for capacity %zu", name, r, cap));
	if(orig && cap >= orig->size() && (kind != EXACT || cap == orig->size())) {
		if(r != orig->size()) bad(std::string(name) + ":size", fmt("%s: %zu bytes instead of %zu", name, r, orig->size()));
		else if(r && memcmp(dst.p, orig->data(), r)) bad(std::string(name) + ":data", fmt("%s: decoded data differs", name));
	}
}
static bytes mutate(const uint8_t* c, size_t n) {
	bytes m(c, c + n);
	const int rounds = 1 + rng.below(4);
	for(int i = 0; i < rounds; ++i) switch(rng.below(9)) {
		case 0: if(!m.empty()) m[rng.below(m.size())] ^= 1 << rng.below(8); break;
		case 1: if(!m.empty()) m[rng.below(std::min<size_t>(m.size(), 6))] = rng(); break;				// header
		case 2: if(!m.empty()) m.resize(rng.below(m.size() + 1)); break;								// truncate
		case 3: if(!m.empty()) m.back() = rng.chance(50) ? 0 : rng(); break;							// end mark
		case 4: if(!m.empty()) { size_t a = rng.below(m.size()); for(size_t j = a; j < m.size() && j < a + 8; ++j) m[j] = rng(); } break;
		case 5: { size_t k = rng.below(9); for(size_t j = 0; j < k; ++j) m.push_back(rng()); } break;
		case 6: if(!m.empty()) m.erase(m.begin() + rng.below(m.size())); break;
		case 7: if(!m.empty()) m[rng.below(m.size())] = rng.chance(50) ? 0xff : 0; break;
		default: for(auto& x : m) if(rng.chance(3)) x = rng();
	}
	return m;
}
static void hostile(const char* name, dec_fn f, const uint8_t* c, size_t cn, size_t n, int reps) {
	for(int i = 0; i < reps; ++i) {
		bytes m = mutate(c, cn);
		const size_t cap = (size_t[]){n, n, n + rng.below(50), rng.below(n + 1), rng.below(8), n ? n - 1 : 0}[rng.below(6)];
		decode(name, f, m.data(), m.size(), nullptr, cap, 0);
		cnt["hostile_streams"]++;
	}
}

static size_t fse_dec_wksp(void* d, size_t n, const void* s, size_t c) {
	std::unique_ptr<FSE_DTable[]> w(new FSE_DTable[FSE_DTABLE_SIZE_U32(FSE_TL_MAX)]);
	return FSE_decompress_wksp(d, n, s, c, w.get(), FSE_TL_MAX);
}

static void fse_round(int rep) {
	unsigned style; const bytes b = gen(style, 131072);
	const size_t n = b.size(), bound = FSE_compressBound(n);
	const unsigned ms = n ? maxsym(b) : 0;
	const unsigned msv = (unsigned[]){0, ms, 255, ms ? ms : 1, ms ? ms - 1 : 0}[rng.below(5)];
	const unsigned tl = (unsigned[]){0, 0, 5, 6, 9, 11, 12, 13, 14, 15, 4}[rng.below(11)];
	const size_t cap = capacity(bound, n);
	const bool wk = rng.chance(50), simple = !wk && rng.chance(20);
	what = fmt("fse n=%zu style=%u max=%u msv=%u tableLog=%u cap=%zu wksp=%d", n, style, ms, msv, tl, cap, wk);
	hx::at(what);
	Buf src(b.data(), n), dst(cap);
	size_t r;
	if(wk) {
		const unsigned t = tl <= FSE_TL_MAX ? tl : 11;			// zero stands for the default
		const size_t wn = FSE_WKSP_SIZE_U32((t ? t : FSE_TL_MAX), (msv ? msv : 255)) * 4; Buf w(wn);
		r = FSE_compress_wksp(dst.p, cap, src.p, n, msv, t, w.p, wn);
	} else r = simple ? FSE_compress(dst.p, cap, src.p, n) : FSE_compress2(dst.p, cap, src.p, n, msv, tl);
	cnt["fse_blocks"]++;
	const unsigned eff = simple || !msv ? 255 : msv;
	if(FSE_isError(r)) {
		cnt["encode_errors"]++;
		if(eff >= ms && (wk || tl <= FSE_TL_MAX) && (cap >= bound)) bad("fse:enc", fmt("compressing into %zu bytes fails with %s", cap, FSE_getErrorName(r)));
		return;
	}
	if(r > cap && !(r == 1)) return bad("fse:bound", fmt("%zu compressed bytes reported, capacity %zu", r, cap));
	if(r > bound) bad("fse:bound", fmt("%zu compressed bytes, bound %zu", r, bound));
	if(n > 1 && eff >= ms && (r == 1) != constant(b) && (r == 1 || cap >= bound)) bad("fse:rle", fmt("returned %zu for %sconstant data", r, constant(b) ? "" : "non-"));
	if(r == 0 && n >= 1000 && cap >= bound && eff >= ms && entropy(b) < 3) bad("fse:giveup", fmt("reported as not compressible at %.2f bits per symbol", entropy(b)));
	if(r < 2) { cnt["not_compressed"]++; return; }
	cnt["compressed"]++;
	hx::Rng save = rng;
	decode("fse", FSE_decompress, dst.p, r, &b, n, 0);
	decode("fse", FSE_decompress, dst.p, r, &b, n + 1 + rng.below(100), 0);
	decode("fse", fse_dec_wksp, dst.p, r, &b, n, 0);
	decode("fse", FSE_decompress, dst.p, r, nullptr, rng.below(n + 1), 0);
	decode("fse", FSE_decompress, dst.p, rng.below(r), nullptr, n, 0);
	hostile("fse", FSE_decompress, dst.p, r, n, rep);
	// the same size again must do, one byte less must not overrun
	if(!wk) for(int d = 0; d < 12; d += 1 + rng.below(5)) { size_t c2 = r - std::min<size_t>(r, d); Buf t(c2); const size_t r2 = simple ? FSE_compress(t.p, c2, src.p, n) : FSE_compress2(t.p, c2, src.p, n, msv, tl); if(!FSE_isError(r2) && r2 > c2) bad("fse:bound", fmt("%zu bytes reported, capacity %zu", r2, c2)); if(!FSE_isError(r2) && r2 > 1) decode("fse", FSE_decompress, t.p, r2, &b, n, 0); }
	hx::kase(fmt("fse:%u:%zu:%u:%u", style, n, eff, tl));
}

static void fse_tables() {
	unsigned style; const bytes b = gen(style, 60000);
	if(b.size() < 2 || constant(b)) return;
	const size_t n = b.size();
	const unsigned ms = maxsym(b);
	what = fmt("fse tables n=%zu style=%u max=%u", n, style, ms); hx::at(what);
	unsigned count[256], msv = 255, ref[256] = {};
	for(auto x : b) ref[x]++;
	Buf src(b.data(), n);
	const size_t top = HIST_count(count, &msv, src.p, n);
	unsigned big = 0; for(auto x : ref) big = std::max(big, x);
	if(FSE_isError(top) || top != big || msv != ms || memcmp(count, ref, sizeof(unsigned) * (ms + 1))) return bad("hist", "histogram differs from counting");
	{
		unsigned c2[256], m2 = 255; const size_t t2 = HIST_countFast(c2, &m2, src.p, n);
		if(t2 != big || m2 != ms || memcmp(c2, ref, sizeof(unsigned) * (ms + 1))) bad("hist", "fast histogram differs from counting");
		std::unique_ptr<unsigned[]> w(new unsigned[HIST_WKSP_SIZE_U32]);
		m2 = 255; const size_t t3 = HIST_count_wksp(c2, &m2, src.p, n, w.get());
		if(t3 != big || m2 != ms || memcmp(c2, ref, sizeof(unsigned) * (ms + 1))) bad("hist", "histogram with workspace differs from counting");
		if(ms > 1) { m2 = 1 + rng.below(ms - 1); std::unique_ptr<unsigned[]> c3(new unsigned[m2 + 1]); const size_t t4 = HIST_count(c3.get(), &m2, src.p, n); if(!FSE_isError(t4)) bad("hist", "symbols above the given maximum are not reported"); }
		const unsigned m3 = HIST_count_simple(c2, &(m2 = 255), src.p, n);
		if(m3 != big || memcmp(c2, ref, sizeof(unsigned) * (ms + 1))) bad("hist", "simple histogram differs from counting");
		cnt["histograms"]++;
	}
	if(top == n) return;
	unsigned tl = (unsigned[]){0, 5, 8, 11, 12, 14}[rng.below(6)];
	tl = FSE_optimalTableLog(tl, n, ms);
	if(tl < 5 || tl > FSE_TL_MAX) return bad("fse:tablelog", fmt("optimal table log %u", tl));
	Buf nb((ms + 1) * sizeof(short)); short* norm = (short*)nb.p;
	const size_t t = FSE_normalizeCount(norm, tl, count, n, ms);
	if(FSE_isError(t) || t != tl) return bad("fse:norm", fmt("normalizing for table log %u returned %zu", tl, t));
	int sum = 0; for(unsigned i = 0; i <= ms; ++i) { sum += std::abs(norm[i]); if((norm[i] != 0) != (ref[i] != 0)) return bad("fse:norm", fmt("symbol %u has count %u and normalized count %d", i, ref[i], norm[i])); }
	if(sum != 1 << tl) return bad("fse:norm", fmt("normalized counts sum up to %d instead of 2^%u", sum, tl));
	const size_t hb = FSE_NCountWriteBound(ms, tl);
	Buf h(hb); const size_t hn = FSE_writeNCount(h.p, hb, norm, ms, tl);
	if(FSE_isError(hn) || hn > hb) return bad("fse:ncount", fmt("writing the table header: %zu, bound %zu", hn, hb));
	for(size_t c : {hn, hn - std::min<size_t>(hn, 1 + rng.below(4)), size_t(rng.below(hn + 1))}) { Buf h2(c); const size_t r = FSE_writeNCount(h2.p, c, norm, ms, tl); if(!FSE_isError(r) && r > c) bad("fse:ncount", fmt("%zu header bytes reported, capacity %zu", r, c)); }
	{
		Buf hs(h.p, hn); short n2[256]; unsigned m2 = 255, t2 = 0;
		const size_t r = FSE_readNCount(n2, &m2, &t2, hs.p, hn);
		if(FSE_isError(r) || r != hn || m2 != ms || t2 != tl || memcmp(n2, norm, sizeof(short) * (ms + 1))) bad("fse:ncount", fmt("header reads back as size %zu max %u log %u instead of %zu %u %u", r, m2, t2, hn, ms, tl));
		for(int i = 0; i < 6; ++i) {
			bytes m = mutate(h.p, hn); if(rng.chance(50)) for(int j = rng.below(12); j > 0; --j) m.push_back(rng());
			Buf ms_(m.data(), m.size()); unsigned m3 = rng.chance(70) ? 255 : rng.below(256), t3 = 0; const unsigned lim = m3;
			Buf o((m3 + 1) * sizeof(short));
			const size_t r3 = FSE_readNCount((short*)o.p, &m3, &t3, ms_.p, m.size());
			if(!FSE_isError(r3) && (r3 > m.size() || m3 > lim)) bad("fse:ncount", fmt("hostile header of %zu bytes: %zu bytes used, max symbol %u of %u", m.size(), r3, m3, lim));
			if(!FSE_isError(r3)) {
				if(t3 > FSE_TABLELOG_ABSOLUTE_MAX) bad("fse:ncount", fmt("hostile header: table log %u", t3));
				else { FSE_DTable* dt = FSE_createDTable(t3); FSE_buildDTable(dt, (short*)o.p, m3, t3);  FSE_freeDTable(dt); }
			}
			cnt["hostile_headers"]++;
		}
	}
	FSE_CTable* ct = FSE_createCTable(ms, tl);
	FSE_DTable* dt = FSE_createDTable(tl);
	if(FSE_isError(FSE_buildCTable(ct, norm, ms, tl)) || FSE_isError(FSE_buildDTable(dt, norm, ms, tl))) bad("fse:build", "table building fails");
	else {
		const size_t cap = FSE_BLOCKBOUND(n);
		Buf c(cap); const size_t r = FSE_compress_usingCTable(c.p, cap, src.p, n, ct);
		if(FSE_isError(r) || r > cap) bad("fse:ct", fmt("coding with a table: %zu, capacity %zu", r, cap));
		else if(r) {
			Buf cs(c.p, r), d(n);
			const size_t q = FSE_decompress_usingDTable(d.p, n, cs.p, r, dt);
			if(q != n || memcmp(d.p, b.data(), n)) bad("fse:ct", fmt("table coded block decodes to %zu bytes, %s", q, q == n ? "different" : "wrong size"));
			for(int i = 0; i < 4; ++i) { bytes m = mutate(c.p, r); Buf mm(m.data(), m.size()); const size_t cp = rng.below(n + 20); Buf o(cp); const size_t z = FSE_decompress_usingDTable(o.p, cp, mm.p, m.size(), dt); if(!FSE_isError(z) && z > cp) bad("fse:ct", fmt("%zu bytes decoded, capacity %zu", z, cp)); cnt["hostile_streams"]++; }
			for(size_t c2 : {size_t(rng.below(r + 1)), r, r - 1, r + 7, r + 8}) { Buf t(c2); const size_t z = FSE_compress_usingCTable(t.p, c2, src.p, n, ct); if(!FSE_isError(z) && z > c2) bad("fse:ct", fmt("%zu bytes coded, capacity %zu", z, c2)); if(!FSE_isError(z) && z) { Buf zs(t.p, z), d2(n); const size_t q2 = FSE_decompress_usingDTable(d2.p, n, zs.p, z, dt); if(q2 != n || memcmp(d2.p, b.data(), n)) bad("fse:ct", fmt("block coded into %zu bytes does not decode", c2)); } }
		}
	}
	FSE_freeCTable(ct); FSE_freeDTable(dt);
	cnt["table_sets"]++;
	// raw and rle tables
	{
		const unsigned nb = 1 + rng.below(8);
		std::vector<FSE_CTable> rc(FSE_CTABLE_SIZE_U32(nb, (1 << nb) - 1)); std::vector<FSE_DTable> rd(FSE_DTABLE_SIZE_U32(nb));
		bytes d(b); for(auto& x : d) x &= (1 << nb) - 1;
		if(!FSE_isError(FSE_buildCTable_raw(rc.data(), nb)) && !FSE_isError(FSE_buildDTable_raw(rd.data(), nb))) {
			const size_t cap = n + 16; Buf s(d.data(), n), c(cap), o(n);
			const size_t r = FSE_compress_usingCTable(c.p, cap, s.p, n, rc.data());
			if(!FSE_isError(r) && r) { Buf cs(c.p, r); const size_t q = FSE_decompress_usingDTable(o.p, n, cs.p, r, rd.data()); if(q != n || memcmp(o.p, d.data(), n)) bad("fse:raw", fmt("raw table with %u bits: %zu of %zu bytes", nb, q, n)); }
		}
	}
}

static size_t huf_x1(void* d, size_t n, const void* s, size_t c) { return HUF_decompress4X1(d, n, s, c); }
static size_t huf_x2(void* d, size_t n, const void* s, size_t c) { return HUF_decompress4X2(d, n, s, c); }
static size_t huf_11(void* d, size_t n, const void* s, size_t c) { return HUF_decompress1X1(d, n, s, c); }
static size_t huf_12(void* d, size_t n, const void* s, size_t c) { return HUF_decompress1X2(d, n, s, c); }
static size_t huf_ctx(void* d, size_t n, const void* s, size_t c) { HUF_CREATE_STATIC_DTABLEX2(t, HUF_TABLELOG_MAX); return HUF_decompress4X_DCtx(t, d, n, s, c); }
static size_t huf_only(void* d, size_t n, const void* s, size_t c) { HUF_CREATE_STATIC_DTABLEX2(t, HUF_TABLELOG_MAX); return HUF_decompress4X_hufOnly(t, d, n, s, c); }
static size_t huf_1ctx(void* d, size_t n, const void* s, size_t c) { HUF_CREATE_STATIC_DTABLEX2(t, HUF_TABLELOG_MAX); return HUF_decompress1X_DCtx(t, d, n, s, c); }

static void huf_round(int rep) {
	unsigned style; const bytes b = gen(style, HUF_BLOCKSIZE_MAX);
	const size_t n = b.size(), bound = HUF_compressBound(n);
	const unsigned ms = n ? maxsym(b) : 0;
	const unsigned msv = (unsigned[]){0, ms, 255, ms ? ms - 1 : 0}[rng.below(4)];
	const unsigned tl = (unsigned[]){0, 0, 11, 12, 8, 6, 13}[rng.below(7)];
	const size_t cap = capacity(bound, n);
	const int variant = rng.below(4);
	what = fmt("huf n=%zu style=%u max=%u msv=%u tableLog=%u cap=%zu variant=%d", n, style, ms, msv, tl, cap, variant); hx::at(what);
	Buf src(b.data(), n), dst(cap);
	size_t r;
	std::vector<unsigned> w(HUF_WORKSPACE_SIZE_U32);
	const unsigned eff = msv ? msv : 255;
	auto go = [&](Buf& d, size_t c) {
		switch(variant) {
			case 0: return HUF_compress2(d.p, c, src.p, n, msv, tl);
			case 1: return HUF_compress1X(d.p, c, src.p, n, msv, tl);
			case 2: return HUF_compress4X_wksp(d.p, c, src.p, n, msv, tl, w.data(), HUF_WORKSPACE_SIZE);
			default: return HUF_compress1X_wksp(d.p, c, src.p, n, msv, tl, w.data(), HUF_WORKSPACE_SIZE);
		}
	};
	r = go(dst, cap);
	cnt["huf_blocks"]++;
	if(HUF_isError(r)) { cnt["encode_errors"]++; if(eff >= ms && tl <= 12 && cap >= bound) bad("huf:enc", fmt("compressing into %zu bytes fails with %s", cap, HUF_getErrorName(r))); return; }
	if(r > cap) return bad("huf:bound", fmt("%zu compressed bytes reported, capacity %zu", r, cap));
	if(n > 1 && eff >= ms && cap >= bound && (r == 1) != constant(b)) bad("huf:rle", fmt("returned %zu for %sconstant data", r, constant(b) ? "" : "non-"));
	if(r == 0 && n >= 2000 && cap >= bound && eff >= ms && tl != 6 && entropy(b) < 3) bad("huf:giveup", fmt("reported as not compressible at %.2f bits per symbol", entropy(b)));
	if(r < 2) { cnt["not_compressed"]++; return; }
	cnt["compressed"]++;
	if(variant == 0 || variant == 2) {
		decode("huf", HUF_decompress, dst.p, r, &b, n, EXACT);
		decode("huf4x1", huf_x1, dst.p, r, &b, n, EXACT); decode("huf4x2", huf_x2, dst.p, r, &b, n, EXACT);
		decode("hufctx", huf_ctx, dst.p, r, &b, n, EXACT); decode("hufonly", huf_only, dst.p, r, &b, n, EXACT);
		hostile("huf", HUF_decompress, dst.p, r, n, rep); hostile("huf4x1", huf_x1, dst.p, r, n, rep); hostile("huf4x2", huf_x2, dst.p, r, n, rep);
	} else {
		decode("huf1x1", huf_11, dst.p, r, &b, n, EXACT); decode("huf1x2", huf_12, dst.p, r, &b, n, EXACT); decode("huf1ctx", huf_1ctx, dst.p, r, &b, n, EXACT);
		hostile("huf1x1", huf_11, dst.p, r, n, rep); hostile("huf1x2", huf_12, dst.p, r, n, rep);
	}
	for(int d = 0; d < 16; d += 1 + rng.below(6)) { size_t c2 = r - std::min<size_t>(r, d); Buf t(c2); const size_t r2 = go(t, c2); if(!HUF_isError(r2) && r2 > c2) bad("huf:bound", fmt("%zu bytes reported, capacity %zu", r2, c2)); if(!HUF_isError(r2) && r2 > 1 && (variant == 0 || variant == 2)) decode("huf", HUF_decompress, t.p, r2, &b, n, EXACT); }
	hx::kase(fmt("huf:%d:%u:%zu:%u:%u", variant, style, n, eff, tl));
}

// several blocks with one reusable table
static void huf_repeat_round() {
	std::vector<unsigned> w(HUF_WORKSPACE_SIZE_U32), ct(HUF_CTABLE_SIZE_U32(255));
	HUF_repeat rep = HUF_repeat_none;
	bytes header; 
	for(int i = 0; i < 4; ++i) {
		unsigned style; const bytes b = gen(style, 20000); const size_t n = b.size(), bound = HUF_compressBound(n);
		what = fmt("huf repeat block %d n=%zu style=%u state=%d", i, n, style, int(rep)); hx::at(what);
		Buf src(b.data(), n), dst(bound);
		const bool x4 = rng.chance(50);
		const HUF_repeat before = rep;
		const size_t r = x4 ? HUF_compress4X_repeat(dst.p, bound, src.p, n, 255, 11, w.data(), HUF_WORKSPACE_SIZE, (HUF_CElt*)ct.data(), &rep, rng.chance(50), 0)
			: HUF_compress1X_repeat(dst.p, bound, src.p, n, 255, 11, w.data(), HUF_WORKSPACE_SIZE, (HUF_CElt*)ct.data(), &rep, rng.chance(50), 0);
		if(HUF_isError(r)) { bad("huf:repeat", fmt("fails with %s", HUF_getErrorName(r))); return; }
		if(r > bound) { bad("huf:bound", "capacity exceeded"); return; }
		if(r > 1 && rep == HUF_repeat_none) {		// a fresh table was written
			decode("hufrep", x4 ? huf_x1 : huf_11, dst.p, r, &b, n, EXACT);
			HUF_CREATE_STATIC_DTABLEX1(t, HUF_TABLELOG_MAX);
			Buf cs(dst.p, r); const size_t h = HUF_readDTableX1(t, cs.p, r);
			if(HUF_isError(h)) { bad("huf:repeat", "own table header cannot be read"); return; }
			header.assign(dst.p, dst.p + h);
		} else if(r > 1 && before != HUF_repeat_none && rep == before) {		// the old table was used: needs the old header
			HUF_CREATE_STATIC_DTABLEX1(t, HUF_TABLELOG_MAX);
			if(HUF_isError(HUF_readDTableX1(t, header.data(), header.size()))) { bad("huf:repeat", "header"); return; }
			Buf cs(dst.p, r), o(n); const size_t q = x4 ? HUF_decompress4X1_usingDTable(o.p, n, cs.p, r, t) : HUF_decompress1X1_usingDTable(o.p, n, cs.p, r, t);
			if(q != n || memcmp(o.p, b.data(), n)) bad("huf:repeat", fmt("block coded with the previous table decodes to %zu of %zu bytes", q, n));
			cnt["table_reused"]++;
		}
		if(r > 1) { if(rep == HUF_repeat_none) rep = HUF_repeat_check; } else { rep = HUF_repeat_none; header.clear(); }
	}
}

static void u16_round(int rep) {
	const unsigned A = 1 + rng.below(287), style = rng.below(5);
	const size_t n = (size_t[]){rng.below(5), rng.below(300), rng.below(20000), 4096}[rng.below(4)];
	std::vector<unsigned short> s(n);
	unsigned ms = 0; bool eq = true;
	for(size_t i = 0; i < n; ++i) {
		switch(style) { case 0: s[i] = A - 1; break; case 1: s[i] = rng.below(A); break; case 2: s[i] = rng.below(1 + rng.below(A)); break; case 3: s[i] = rng.chance(95) ? 0 : A - 1; break; default: s[i] = i % A; }
		ms = std::max<unsigned>(ms, s[i]); if(s[i] != s[0]) eq = false;
	}
	const unsigned msv = (unsigned[]){0, ms, 286, ms ? ms - 1 : 0}[rng.below(4)], tl = (unsigned[]){0, 12, 10, 9, 13, 11}[rng.below(6)];
	const size_t bound = FSE_compressBound(n * 2) + 600, cap = capacity(bound, n);
	what = fmt("u16 n=%zu style=%u max=%u msv=%u tableLog=%u cap=%zu", n, style, ms, msv, tl, cap); hx::at(what);
	Buf src((const uint8_t*)s.data(), n * 2), dst(cap);
	const size_t r = FSE_compressU16(dst.p, cap, (const unsigned short*)src.p, n, msv, tl);
	cnt["u16_blocks"]++;
	const unsigned eff = msv ? msv : 286;
	if(FSE_isError(r)) { cnt["encode_errors"]++; return; }
	if(r > cap && r != 1) return bad("u16:bound", fmt("%zu compressed bytes reported, capacity %zu", r, cap));
	if(n > 1 && r == 1 && !eq) bad("u16:rle", "returned 1 for data which is not constant");
	if(eff < ms && r > 1) bad("u16:max", "symbols above the given maximum are not reported");
	if(r < 2) return;
	cnt["compressed"]++;
	for(int i = 0; i < 2 + rep; ++i) {
		bytes m(dst.p, dst.p + r); size_t c = n; bool honest = i < 2;
		if(i == 1) c = n + rng.below(30);
		if(!honest) { m = mutate(dst.p, r); c = rng.chance(50) ? n : rng.below(n + 3); cnt["hostile_streams"]++; }
		Buf cs(m.data(), m.size()), o(c * 2);
		const size_t q = FSE_decompressU16((unsigned short*)o.p, c, cs.p, m.size());
		cnt["decoded"]++;
		if(!FSE_isError(q) && q > c) bad("u16:cap", fmt("%zu symbols reported for capacity %zu", q, c));
		if(honest && (q != n || memcmp(o.p, s.data(), n * 2))) bad("u16:data", fmt("decodes to %zu symbols instead of %zu%s", q, n, q == n ? ", different" : ""));
	}
	hx::kase(fmt("u16:%u:%zu:%u:%u", style, n, eff, tl));
}

static void noise() {
	const size_t n = rng.chance(70) ? rng.below(40) : rng.below(800);
	bytes m(n); for(auto& x : m) x = rng.chance(20) ? (rng.chance(50) ? 0 : 255) : rng();
	if(n && rng.chance(50)) m[0] = rng.below(16);				// plausible table log / weight header
	else if(n && rng.chance(50)) m[0] = 128 + rng.below(128);
	const size_t cap = rng.chance(50) ? rng.below(64) : rng.below(4000);
	what = fmt("noise n=%zu cap=%zu first=%02x%02x%02x%02x", n, cap, n > 0 ? m[0] : 0, n > 1 ? m[1] : 0, n > 2 ? m[2] : 0, n > 3 ? m[3] : 0); hx::at(what);
	decode("fse", FSE_decompress, m.data(), n, nullptr, cap, 0);
	decode("huf", HUF_decompress, m.data(), n, nullptr, cap, 0); decode("huf4x1", huf_x1, m.data(), n, nullptr, cap, 0); decode("huf4x2", huf_x2, m.data(), n, nullptr, cap, 0);
	decode("huf1x1", huf_11, m.data(), n, nullptr, cap, 0); decode("huf1x2", huf_12, m.data(), n, nullptr, cap, 0);
	{ Buf cs(m.data(), n), o(cap * 2); const size_t q = FSE_decompressU16((unsigned short*)o.p, cap, cs.p, n); if(!FSE_isError(q) && q > cap) bad("u16:cap", "capacity exceeded"); }
	{ Buf cs(m.data(), n); uint8_t hw[256]; U32 ranks[HUF_TABLELOG_ABSOLUTEMAX + 1], ns = 0, tl = 0; HUF_readStats(hw, 256, ranks, &ns, &tl, cs.p, n); }
	cnt["noise_streams"]++;
}

int main(int argc, char** argv) {
	rng = hx::Rng(hx::seed() * 7919 + atoi(hx::arg(argc, argv, "--part", "0")));
	const int N = atoi(hx::arg(argc, argv, "--rounds", "300"));
	const std::string mode = hx::arg(argc, argv, "--mode", "all");
	for(int i = 0; i < N; ++i) {
		if(mode == "all" || mode == "fse") { fse_round(6); fse_tables(); }
		if(mode == "all" || mode == "huf") { huf_round(4); if(i % 2 == 0) huf_repeat_round(); }
		if(mode == "all" || mode == "u16") u16_round(4);
		if(mode == "all" || mode == "noise") for(int j = 0; j < 20; ++j) noise();
	}
	for(auto& x : cnt) hx::observe(x.first, x.second);
	hx::evals(cnt["decoded"]);
	hx::sample(what);
	hx::done();
}
