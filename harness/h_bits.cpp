// Bit containers and integer codecs against exact bit strings (std::string of '0'/'1'), with canaries.
#include "hx.hpp"
#include <cmath>
#include <chia/util.hpp>
#include <chia/bits.hpp>
#include <chia/exceptions.hpp>
#include <set>
using hx::fmt;
typedef unsigned long long ull;
typedef unsigned __int128 u128;
static hx::Rng rng(1);
static std::set<std::string> seen;
static uint64_t n_ops = 0;

static std::string bin(u128 v, int n) { std::string s(n, '0'); for(int i = n - 1; i >= 0; --i, v >>= 1) s[i] = '0' + int(v & 1); return s; }
static u128 val(const std::string& s) { u128 v = 0; for(char c : s) v = v << 1 | (c == '1'); return v; }
static std::string bytes_of(const std::string& s) { std::string o((s.size() + 7) / 8, '\0'); for(size_t i = 0; i < s.size(); ++i) if(s[i] == '1') o[i / 8] |= 0x80 >> (i % 8); return o; }
static std::string bits_of(const uint8_t* p, size_t n) { std::string s; for(size_t i = 0; i < n; ++i) s += bin(p[i], 8); return s; }
static u128 rv(int n) { u128 v = n > 64 ? (u128(rng.edgy(n - 64)) << 64 | rng.edgy(64)) : n ? rng.edgy(n) : 0; return v; }
static void bad(const char* key, const std::string& m) { hx::violation(std::string("bits:") + key, m); }

template<typename B> static void same(const char* name, const B& b, const std::string& m, const char* after) {
	n_ops++;
	if(b.GetSize() != m.size()) { bad("size", fmt("%s after %s: %u bits, %zu expected", name, after, b.GetSize(), m.size())); return; }
	if(m.empty()) return;
	std::vector<uint8_t> buf((m.size() + 7) / 8 + 16, 0xA5);
	b.ToBytes(buf.data() + 8);
	const std::string e = bytes_of(m);
	if(memcmp(buf.data() + 8, e.data(), e.size())) bad("bytes", fmt("%s after %s: ToBytes differs (%zu bits)", name, after, m.size()));
	for(int i = 0; i < 8; ++i) if(buf[i] != 0xA5 || buf[buf.size() - 1 - i] != 0xA5) { bad("outside", fmt("%s: ToBytes wrote outside %zu bytes", name, e.size())); break; }
	if(m.size() <= 2000 && b.ToString() != m) bad("string", fmt("%s after %s: ToString differs", name, after));
	if(m.size() <= 64 && rng.chance(30)) { bool th = false; uint64_t v = 0; try { v = b.GetValue(); } catch(const std::exception&) { th = true; } if(th || v != (uint64_t)val(m)) bad("value", fmt("%s: GetValue of %zu bits", name, m.size())); }
}

template<typename B, typename B2> static void container(const char* name, size_t cap, int steps) {
	B b; std::string m; bool aligned_zero = false;
	for(int s = 0; s < steps; ++s) {
		const size_t room = cap - m.size();
		switch(rng.below(9)) {
			case 0: case 1: case 2: {		// append a value
				int n = 1 + rng.below(64); if(rng.chance(10)) n = 64; if(size_t(n) > room) break;
				const u128 v = rv(n); b.AppendValue(v, n); m += bin(v, n); same(name, b, m, "AppendValue"); seen.insert(fmt("append %d@%zu", n, (m.size() - n) % 64)); break; }
			case 3: {		// += another container type
				int n = 1 + rng.below(100); if(size_t(n) > room) break;
				const u128 v = rv(n); B2 o(v, n); b += o; m += bin(v, n); same(name, b, m, "+="); seen.insert(fmt("concat %d@%zu", n, (m.size() - n) % 64)); break; }
			case 4: {		// operator+ and copies
				const int n = 1 + rng.below(128); if(size_t(n) > room) break;
				const u128 v = rv(n); B o(v, n); B c = b + o; same(name, c, m + bin(v, n), "operator+"); same(name, b, m, "operator+ (left operand)"); B d(c); same(name, d, m + bin(v, n), "copy"); b = d; m += bin(v, n); same(name, b, m, "assign"); break; }
			case 5: {		// slice
				if(m.empty()) break;
				const size_t i = rng.below(m.size()), j = i + 1 + rng.below(m.size() - i);
				if(j - i > 600 && cap <= 640) break;
				B c = b.Slice(i, j); same(name, c, m.substr(i, j - i), "Slice"); same(name, b.Slice(i), m.substr(i), "Slice to the end");
				if(b.Slice(i, i).GetSize() != 0) bad("slice", "empty slice is not empty");
				seen.insert(fmt("slice %zu-%zu", i % 64, j % 64));
				same(name, b.Slice(i, m.size() + 50), m.substr(i), "Slice beyond the end"); break; }
			case 6: {		// slice to integer
				if(m.empty()) break;
				const size_t i = rng.below(m.size()), j = std::min(m.size(), i + 1 + rng.below(64));
				if(i / 64 + 1 < j / 64) break;
				n_ops++;
				if(b.SliceBitsToInt(i, j) != (uint64_t)val(m.substr(i, j - i))) bad("sliceint", fmt("%s: SliceBitsToInt(%zu, %zu) of %zu bits", name, i, j, m.size()));
				seen.insert(fmt("sliceint %zu-%zu", i % 64, j % 64)); break; }
			case 7: {		// construct: from value, padded, from bytes
				const int n = 1 + rng.below(std::min<size_t>(cap, 300)); const int vb = std::min(n, 1 + int(rng.below(128))); const u128 v = rv(vb);
				B c(v, n); same(name, c, std::string(n > 128 ? n - 128 : 0, '0') + bin(v, std::min(n, 128)), "construction from a value");
				if(n < int(cap)) { const int pad = rng.below(std::min<size_t>(cap - n, 200)); B d(c, n + pad); same(name, d, std::string(pad, '0') + c.ToString(), "padded copy"); }
				const int nb = 1 + rng.below(std::min<size_t>(cap / 8, 70)), extra = rng.below(std::min<size_t>(cap - nb * 8 + 1, 150)); std::vector<uint8_t> by(nb); for(auto& x : by) x = rng();
				B e(by.data(), nb, nb * 8 + extra); same(name, e, std::string(extra, '0') + bits_of(by.data(), nb), "construction from bytes");
				if(rng.chance(30)) { b = c; m = c.ToString(); }
				break; }
			default: {		// compare
				if(m.empty()) break;
				std::string o = m; if(rng.chance(70)) o[rng.below(o.size())] ^= 1; if(rng.chance(20)) o[rng.below(o.size())] ^= 1;
				B c; for(size_t i = 0; i < o.size(); ) { const size_t n = std::min<size_t>(o.size() - i, 1 + rng.below(64)); c.AppendValue(val(o.substr(i, n)), n); i += n; }
				n_ops++;
				if((b == c) != (m == o)) bad("equal", fmt("%s: == on %zu bits", name, m.size()));
				if((b < c) != (m < o) || (b > c) != (m > o)) bad("order", fmt("%s: < or > on %zu bits", name, m.size()));
				B d = c; d.AppendValue(0, 1); if(m.size() + 1 <= cap && b == d) bad("equal", "containers of different size are equal"); }
		}
		if(m.size() + 70 > cap || rng.chance(3)) { b = B(); m.clear(); }
	}
}

static void raw() {
	// write_bits / append_bits / slice_bits on a zeroed target with live neighbours
	const int words = 12; uint64_t dst[words + 2];
	const int off = rng.below(64 * (words - 6)), n = 1 + rng.below(64);
	std::string m(64 * words, '0');
	for(auto& c : m) c = rng.chance(50) ? '1' : '0';
	for(int i = 0; i < n; ++i) m[off + i] = '0';
	auto load = [&](const std::string& s) { const std::string b = bytes_of(s); memcpy(dst + 1, b.data(), words * 8); dst[0] = dst[words + 1] = 0x5A5A5A5A5A5A5A5Aull; };
	auto cmp = [&](const char* what, const std::string& e, int ret, int want) {
		n_ops++;
		if(ret != want) bad("offset", fmt("%s returned %d, %d expected", what, ret, want));
		if(bits_of((uint8_t*)(dst + 1), words * 8) != e) bad("raw", fmt("%s offset=%d bits=%d: wrong bits", what, off, n));
		if(dst[0] != 0x5A5A5A5A5A5A5A5Aull || dst[words + 1] != 0x5A5A5A5A5A5A5A5Aull) bad("outside", fmt("%s wrote outside", what));
	};
	{ load(m); const u128 v = rv(n); std::string e = m; e.replace(off, n, bin(v, n)); const int r = write_bits(dst + 1, (uint64_t)v, off, n); cmp("write_bits", e, r, off + n); seen.insert(fmt("write %d@%d", n, off % 64)); }
	const int n2 = 1 + rng.below(300), off2 = rng.below(64 * words - n2);
	std::string m2 = m; for(int i = 0; i < n2; ++i) m2[off2 + i] = '0';
	uint64_t src[8]; for(auto& x : src) x = rng.chance(20) ? ~0ull : rng();
	const std::string sb = bits_of((uint8_t*)src, 64);
	{ load(m2); std::string e = m2; e.replace(off2, n2, sb.substr(0, n2)); const int r = append_bits(dst + 1, src, off2, n2); n_ops++; if(r != off2 + n2 || bits_of((uint8_t*)(dst + 1), words * 8) != e) bad("raw", fmt("append_bits offset=%d bits=%d", off2, n2)); seen.insert(fmt("appendbits %d@%d", n2 % 64, off2 % 64)); }
	const int so = rng.below(512 - 1), sn = 1 + rng.below(std::min(400, 512 - so));
	{ std::string z(64 * words, '0'); load(z); std::string e = z; e.replace(0, sn, sb.substr(so, sn)); const int r = slice_bits(dst + 1, src, so, sn); n_ops++; if(r != sn || bits_of((uint8_t*)(dst + 1), words * 8) != e) bad("raw", fmt("slice_bits offset=%d bits=%d", so, sn)); seen.insert(fmt("slicebits %d@%d", sn % 64, so % 64)); }
}

static void ints() {
	uint8_t b[64]; auto arm = [&]() { memset(b, 0xC3, sizeof b); };
	auto guard = [&](int n, const char* w) { n_ops++; for(int i = 0; i < 64; ++i) if((i < 16 || i >= 16 + n) && b[i] != 0xC3) { bad("outside", fmt("%s wrote outside its %d bytes", w, n)); break; } };
	const uint16_t s = rng.edgy(16); const uint64_t q = rng.edgy(64); const u128 o = rv(128);
	arm(); Util::IntToTwoBytes(b + 16, s); guard(2, "IntToTwoBytes"); if(b[16] != s >> 8 || b[17] != (s & 255)) bad("int", "IntToTwoBytes"); if(Util::TwoBytesToInt(b + 16) != s) bad("int", "TwoBytesToInt");
	arm(); Util::IntToTwoBytesLE(b + 16, s); guard(2, "IntToTwoBytesLE"); if(b[17] != s >> 8 || b[16] != (s & 255)) bad("int", "IntToTwoBytesLE");
	arm(); Util::IntToEightBytes(b + 16 + 0, q); guard(8, "IntToEightBytes"); if(bits_of(b + 16, 8) != bin(q, 64)) bad("int", "IntToEightBytes"); if(Util::EightBytesToInt(b + 16) != q) bad("int", "EightBytesToInt");
	arm(); Util::IntTo16Bytes(b + 16, o); guard(16, "IntTo16Bytes"); if(bits_of(b + 16, 16) != bin(o, 128)) bad("int", "IntTo16Bytes");
	{ int n = 0; for(u128 v = o; v; v >>= 1) n++; if(Util::GetSizeBits(o) != n) bad("int", "GetSizeBits"); }
	{ int n = 0; for(uint64_t v = q; v; v &= v - 1) n++; if(Util::PopCount(q) != uint64_t(n)) bad("int", "PopCount"); }
	{ const uint32_t v = rng.edgy(20); if(Util::ByteAlign(v) != (v + 7) / 8 * 8) bad("int", "ByteAlign"); if(cdiv(int(v), 8) != int((v + 7) / 8)) bad("int", "cdiv"); }
	{ const int64_t i = int64_t(rng.edgy(40)) - (1ll << 39), n = 1 + rng.below(100000); const int64_t m = Util::Mod<int64_t>(i, n); if(m < 0 || m >= n || (i - m) % n) bad("int", "Mod"); }
	// bit fields inside bytes
	uint8_t buf[80]; for(auto& x : buf) x = rng.chance(10) ? 255 : rng();
	const std::string m = bits_of(buf, sizeof buf);
	{ const int n = 1 + rng.below(64), st = rng.below(500); if(st % 8 + n <= 64 || st + n <= 64) { n_ops++; if(Util::SliceInt64FromBytes(buf, st, n) != (uint64_t)val(m.substr(st, n))) bad("slicebytes", fmt("SliceInt64FromBytes start=%d bits=%d", st, n)); seen.insert(fmt("s64 %d@%d", n, st)); } }
	{ const int n = 1 + rng.below(64), st = rng.below(500); n_ops++; if(Util::SliceInt64FromBytesFull(buf, st, n) != (uint64_t)val(m.substr(st, n))) bad("slicebytes", fmt("SliceInt64FromBytesFull start=%d bits=%d", st, n)); seen.insert(fmt("s64f %d@%d", n, st % 64)); }
	{ const int n = 1 + rng.below(128), st = rng.below(440); n_ops++; if(Util::SliceInt128FromBytes(buf, st, n) != val(m.substr(st, n))) bad("slicebytes", fmt("SliceInt128FromBytes start=%d bits=%d", st, n)); seen.insert(fmt("s128 %d@%d", n, st % 8)); }
	{ // numbers at the end of a buffer are cut at its last byte
		const int len = 8 + rng.below(50), n = 1 + rng.below(50), st = rng.below(len * 8 - 8); if(st % 8 + n <= 64) { const int take = (st + n) / 8 > len - 1 ? len * 8 - st : n; if(take <= 57 && take > 0) { n_ops++; if(Util::ExtractNum(buf, len, st, n) != (uint64_t)val(m.substr(st, take))) bad("slicebytes", fmt("ExtractNum len=%d start=%d bits=%d", len, st, n)); } } }
	{ uint8_t o2[20], o3[20]; for(int i = 0; i < 20; ++i) o2[i] = o3[i] = rng(); if(rng.chance(70)) o3[rng.below(20)] ^= 1 << rng.below(8); const int st = rng.below(150); int c = Util::MemCmpBits(o2, o3, 20, st); const int e = bits_of(o2, 20).substr(st).compare(bits_of(o3, 20).substr(st)); n_ops++; if((c < 0) != (e < 0) || (c > 0) != (e > 0)) bad("memcmp", fmt("MemCmpBits from bit %d", st)); }
	{ std::vector<uint8_t> v(rng.below(50)); for(auto& x : v) x = rng(); std::string h = Util::HexStr(v.data(), v.size()); if(h.size() != 2 * v.size() || hex_to_bytes(h) != v) bad("hex", "hex round trip"); for(auto& c : h) c = toupper(c); if(hex_to_bytes(h) != v) bad("hex", "upper case hex"); }
	{ const double a = std::ldexp(1.0 + double(rng.bits(20)) / (1 << 20), int(rng.below(60)) - 30); const double r = Util::RoundPow2(a); int ex; std::frexp(a, &ex); if(r != std::ldexp(0.5, ex)) bad("int", "RoundPow2"); }
}

int main(int argc, char** argv) {
	if(!freopen("/dev/null", "w", stdout)) {}
	rng = hx::Rng(hx::seed() * 122949823 + atoi(hx::arg(argc, argv, "--part", "0")));
	const int rounds = atoi(hx::arg(argc, argv, "--rounds", "300"));
	for(int r = 0; r < rounds; ++r) {
		hx::at(fmt("round %d", r));
		container<Bits, LargeBits>("Bits", 640, 120);
		container<LargeBits, Bits>("LargeBits", 4000, 60);
		container<ParkBits, Bits>("ParkBits", 2048 * 64, 60);
		for(int i = 0; i < 60; ++i) raw();
		for(int i = 0; i < 60; ++i) ints();
	}
	// the park container at its full documented capacity
	{ ParkBits b; std::string m; while(m.size() + 64 <= 2048u * 64) { const int n = std::min<size_t>(1 + rng.below(64), 2048u * 64 - m.size()); const u128 v = rv(n); b.AppendValue(v, n); m += bin(v, n); } same("ParkBits", b, m, "filling"); }
	hx::observe("operations_checked", n_ops);
	hx::evals(n_ops > seen.size() ? n_ops - seen.size() : 0);
	for(auto& s : seen) hx::kase(s);
	hx::sample(fmt("%d rounds of 240 container operations and 120 raw/integer groups", rounds));
	hx::done();
}
