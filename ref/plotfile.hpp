// Independent reader of the v1.0 plot file format: layout checks + full decode.
#pragma once
#include "pos.hpp"
#include "gold_ncount.hpp"
#include <cstdio>
#include <sys/stat.h>

namespace ref {

struct Err { std::string key, msg; };

// ---- tANS decoder (table log 14), per the FSE format
struct AnsTable {
	struct D { uint16_t next; uint8_t sym, nb; };
	std::vector<D> d;
	AnsTable(const std::vector<short>& nc) {
		const int LOG = 14, SZ = 1 << LOG;
		d.resize(SZ);
		std::vector<int> symNext(nc.size());
		std::vector<int> spread(SZ, -1);
		int high = SZ - 1;
		for(size_t s = 0; s < nc.size(); ++s) {
			if(nc[s] == -1) { spread[high--] = int(s); symNext[s] = 1; }
			else symNext[s] = nc[s];
		}
		int pos = 0; const int step = (SZ >> 1) + (SZ >> 3) + 3;
		for(size_t s = 0; s < nc.size(); ++s)
			for(int i = 0; i < nc[s]; ++i) {
				spread[pos] = int(s);
				do pos = (pos + step) & (SZ - 1); while(pos > high);
			}
		for(int u = 0; u < SZ; ++u) {
			int s = spread[u]; int ns = symNext[s]++;
			int hb = 31 - __builtin_clz(ns);
			d[u].sym = s; d[u].nb = LOG - hb; d[u].next = (ns << (LOG - hb)) - SZ;
		}
	}
	// returns false if malformed
	bool decode(const uint8_t* p, size_t n, std::vector<uint8_t>& out, size_t max) const {
		out.clear();
		if(!n || !p[n - 1]) return false;
		int64_t bits = int64_t(n) * 8 - 8 + (31 - __builtin_clz(p[n - 1]));	// bits below the end mark
		auto rd = [&](int c) -> uint32_t {		// little-endian bit order, read downwards
			uint32_t v = 0;
			for(int i = 0; i < c; ++i) { bits--; v = v << 1 | ((p[bits >> 3] >> (bits & 7)) & 1); }
			return v;
		};
		if(bits < 28) return false;
		uint32_t st[2]; st[0] = rd(14); st[1] = rd(14);
		int w = 0;
		while(true) {
			if(out.size() + 2 > max) return false;
			const D& e = d[st[w]];
			out.push_back(e.sym);
			if(e.nb > bits) {
				out.push_back(d[st[w ^ 1]].sym);
				return bits == 0;
			}
			st[w] = e.next + rd(e.nb);
			w ^= 1;
		}
	}
};

inline const AnsTable& ans_table(double R) {
	static std::map<double, AnsTable*> m;
	auto& t = m[R];
	if(!t) t = new AnsTable(kGoldNCount.at(R));
	return *t;
}

inline uint64_t be(const uint8_t* p, int n) { uint64_t v = 0; for(int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }

struct PlotFile {
	std::string path;
	std::vector<uint8_t> b;			// file bytes from 'base'
	uint64_t size = 0;
	int k = 0;
	uint8_t id[32];
	std::vector<uint8_t> memo;
	uint64_t ptr[12] = {};			// 1..10, [11] = computed end
	std::vector<u128> lp[7];		// 1..6
	std::vector<uint64_t> p7, f7;
	std::vector<Err> errs;
	bool c3_tail = false;			// last C3 park had 1..3 f7 (format limitation)
	std::vector<uint64_t> p7_pad;

	void err(const std::string& key, const std::string& msg) { if(errs.size() < 40) errs.push_back({key, msg}); }

	static uint64_t ba(double bits) { uint32_t n = uint32_t(bits); return (n + 7) / 8; }
	uint64_t lp_size() const { return ba(2 * k); }
	uint64_t stub_size() const { return ba(2047 * (k - 3)); }
	uint64_t delta_size(int t) const { return ba(2047 * (t == 1 ? 5.6 : 3.5)); }
	uint64_t park_size(int t) const { return lp_size() + stub_size() + delta_size(t); }
	uint64_t c3_size() const { return k < 20 ? 10000 : 3000; }

	bool load(const std::string& fn) {
		path = fn;
		FILE* f = fopen(fn.c_str(), "rb");
		if(!f) { err("io", "cannot open " + fn); return false; }
		struct stat st; fstat(fileno(f), &st);
		size = st.st_size;
		b.resize(size);
		if(size && fread(b.data(), 1, size, f) != size) { fclose(f); err("io", "short read"); return false; }
		fclose(f);
		return true;
	}

	bool header() {
		if(size < 60 || memcmp(b.data(), "Proof of Space Plot", 19)) { err("layout:magic", "bad magic"); return false; }
		memcpy(id, &b[19], 32);
		k = b[51];
		size_t fl = be(&b[52], 2);
		if(fl != 4 || memcmp(&b[54], "v1.0", 4)) { err("layout:format", "bad format description"); return false; }
		size_t ml = be(&b[58], 2);
		if(60 + ml + 80 > size) { err("layout:short", "truncated header"); return false; }
		memo.assign(&b[60], &b[60] + ml);
		for(int i = 0; i < 10; ++i) ptr[i + 1] = be(&b[60 + ml + 8 * i], 8);
		if(ptr[1] != 60 + ml + 80) err("layout:ptr1", "table 1 pointer " + std::to_string(ptr[1]) + " does not follow the header");
		if(k < 16 || k > 34) { err("layout:k", "k = " + std::to_string(k)); return false; }
		return errs.empty();
	}

	bool zero(const uint8_t* a, const uint8_t* e) const { for(; a < e; ++a) if(*a) return false; return true; }

	bool table_at0(int t) { return table(t); }
	bool table(int t) {
		const uint64_t ps = park_size(t);
		if(ptr[t + 1] <= ptr[t] || (ptr[t + 1] - ptr[t]) % ps || ptr[t + 1] > size) {
			err("layout:ptr", "table " + std::to_string(t) + " spans " + std::to_string(ptr[t]) + ".." + std::to_string(ptr[t + 1])
				+ " (file size " + std::to_string(size) + "), not a whole number of parks of " + std::to_string(ps) + " bytes");
			return false;
		}
		const uint64_t parks = (ptr[t + 1] - ptr[t]) / ps;
		static const double R[7] = {0, 4.7, 2.75, 2.75, 2.7, 2.6, 2.45};
		for(uint64_t i = 0; i < parks; ++i)
			if(!park(t, i, i + 1 == parks, R[t])) return false;
		return true;
	}

	// decode everything; false if structurally unusable
	bool decode() {
		if(!header()) return false;
		for(int t = 1; t <= 6; ++t) if(!table(t)) return false;
		// P7
		const uint64_t ps7 = (k + 1) * 2048 / 8;
		const uint64_t n = lp[6].size();
		const uint64_t parks7 = (n + 2047) / 2048;
		if(ptr[8] != ptr[7] + parks7 * ps7) {
			err("layout:c1ptr", "C1 pointer " + std::to_string(ptr[8]) + " expected " + std::to_string(ptr[7] + parks7 * ps7));
			return false;
		}
		if(ptr[8] > size) { err("layout:short", "file ends before C1"); return false; }
		p7.resize(n);
		for(uint64_t i = 0; i < n; ++i) p7[i] = bits_at(&b[ptr[7] + i / 2048 * ps7], i % 2048 * (k + 1), k + 1);
		if(n % 2048) {
			for(uint64_t i = n; i < parks7 * 2048; ++i) if(bits_at(&b[ptr[7] + i / 2048 * ps7], i % 2048 * (k + 1), k + 1)) { err("layout:pad:p7", "unused P7 slots are not zero"); break; }
		}
		// C1, C2
		const int cb = (k + 7) / 8;
		const uint64_t n1 = (n + 9999) / 10000, n2 = (n1 + 9999) / 10000;
		if(ptr[9] != ptr[8] + (n1 + 1) * cb) { err("layout:c2ptr", "C2 pointer " + std::to_string(ptr[9]) + " expected " + std::to_string(ptr[8] + (n1 + 1) * cb)); return false; }
		if(ptr[10] != ptr[9] + (n2 + 1) * cb) { err("layout:c3ptr", "C3 pointer " + std::to_string(ptr[10]) + " expected " + std::to_string(ptr[9] + (n2 + 1) * cb)); return false; }
		ptr[11] = ptr[10] + n1 * c3_size();
		const bool tail = n % 10000 >= 1 && n % 10000 <= 3;
		if(size != ptr[11]) {
			if(n % 10000 == 1 && size == ptr[10] + (n1 - 1) * c3_size()) { /* reported below as c3_tail */ }
			else { err("layout:size", "file size " + std::to_string(size) + " expected " + std::to_string(ptr[11])); if(size < ptr[10]) return false; }
		}
		std::vector<uint64_t> c1(n1 + 1), c2(n2 + 1);
		auto rdc = [&](uint64_t off) {
			const uint64_t v = be(&b[off], cb);
			if(v & ((uint64_t(1) << (cb * 8 - k)) - 1)) err("layout:pad:c", "padding bits of a checkpoint are not zero");
			return v >> (cb * 8 - k);
		};
		for(uint64_t i = 0; i <= n1; ++i) c1[i] = rdc(ptr[8] + i * cb);
		for(uint64_t i = 0; i <= n2; ++i) c2[i] = rdc(ptr[9] + i * cb);
		if(c1[n1]) err("layout:c1end", "C1 terminator is not zero");
		if(c2[n2]) err("layout:c2end", "C2 terminator is not zero");
		for(uint64_t i = 0; i < n2; ++i) if(c2[i] != c1[i * 10000]) err("layout:c2", "C2 entry " + std::to_string(i) + " differs from C1");
		// C3
		f7.reserve(n);
		for(uint64_t i = 0; i < n1; ++i) {
			const uint64_t cnt = std::min<uint64_t>(10000, n - i * 10000);
			uint64_t y = c1[i];
			f7.push_back(y);
			const uint64_t off = ptr[10] + i * c3_size();
			if(cnt <= 3) {
				c3_tail = true;
				// cannot be represented by the delta coder; only the checkpoint is known
				for(uint64_t j = 1; j < cnt; ++j) f7.push_back(~uint64_t(0));
				continue;
			}
			if(off + c3_size() > size) { err("layout:short", "file ends inside C3"); return false; }
			const uint64_t sz = be(&b[off], 2);
			std::vector<uint8_t> d;
			if(sz + 2 > c3_size() || !ans_table(1.0).decode(&b[off + 2], sz, d, 10000)) {
				err("layout:c3", "C3 park " + std::to_string(i) + " cannot be decoded (size " + std::to_string(sz) + ")");
				return false;
			}
			if(d.size() != cnt - 1) {
				err("layout:c3", "C3 park " + std::to_string(i) + " has " + std::to_string(d.size()) + " deltas, expected " + std::to_string(cnt - 1));
				return false;
			}
			if(!zero(&b[off + 2 + sz], b.data() + off + c3_size())) err("layout:pad:c3", "C3 park " + std::to_string(i) + ": unused bytes are not zero");
			for(auto v : d) { y += v; f7.push_back(y); }
		}
		(void)tail;
		return true;
	}

	bool park(int t, uint64_t i, bool last, double R) {
		const uint8_t* p = &b[ptr[t] + i * park_size(t)];
		u128 cur = 0;
		{
			uint8_t tmp[16] = {};
			memcpy(tmp, p, lp_size());
			u128 v = 0; for(int j = 0; j < 16; ++j) v = v << 8 | tmp[j];
			cur = v >> (128 - 2 * k);
			if(v << (2 * k)) err("layout:pad:lp", "table " + std::to_string(t) + ": padding bits of a line point are not zero");
		}
		const uint8_t* stubs = p + lp_size();
		const uint8_t* ds = stubs + stub_size();
		uint64_t sz = ds[0] | ds[1] << 8;
		std::vector<uint8_t> d;
		const std::string where = "table " + std::to_string(t) + " park " + std::to_string(i);
		if(sz & 0x8000) {
			sz &= 0x7fff;
			if(sz + 2 > delta_size(t)) { err("layout:park", where + ": raw deltas too long"); return false; }
			d.assign(ds + 2, ds + 2 + sz);
		} else {
			if(sz + 2 > delta_size(t) || !ans_table(R).decode(ds + 2, sz, d, 2048)) {
				err("layout:park", where + " cannot be decoded (size " + std::to_string(sz) + ")"); return false;
			}
		}
		if(d.size() > 2047 || (!last && d.size() != 2047)) {
			err("layout:park", where + " has " + std::to_string(d.size()) + " deltas"); return false;
		}
		{
			const uint64_t sb = d.size() * (k - 3);
			bool ok = zero(stubs + (sb + 7) / 8, ds) && zero(ds + 2 + sz, p + park_size(t));
			if(sb % 8 && (stubs[sb / 8] & (0xff >> (sb % 8)))) ok = false;
			if(!ok) err("layout:pad:park", where + ": unused bytes are not zero");
		}
		auto& out = lp[t];
		if(!out.empty() && cur < out.back()) err("layout:order", where + ": line points not ascending");
		out.push_back(cur);
		for(size_t j = 0; j < d.size(); ++j) {
			cur += (u128(d[j]) << (k - 3)) + bits_at(stubs, j * (k - 3), k - 3);
			out.push_back(cur);
		}
		return true;
	}

	// order of P7 entries inside one f7 value is not significant
	std::vector<std::pair<uint64_t, uint64_t>> p7_sorted() const {
		std::vector<std::pair<uint64_t, uint64_t>> v(p7.size());
		for(size_t i = 0; i < p7.size(); ++i) v[i] = {f7[i], p7[i]};
		std::sort(v.begin(), v.end());
		return v;
	}
	uint64_t digest(bool with_header) const {
		uint64_t h = 0x1234;
		auto upd = [&](const uint8_t* p, size_t n) { for(size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 0x100000001b3ull; h ^= h >> 29; } };
		upd(b.data() + (with_header ? 0 : ptr[1] - 80), ptr[7] - (with_header ? 0 : ptr[1] - 80));
		for(auto& e : p7_sorted()) { h = mix(h + e.first) + mix(e.second * 7 + 1); }
		upd(b.data() + ptr[8], size - ptr[8]);
		return h;
	}
};

// Every entry of the file evaluated bottom-up.  Fills subtree hashes; reports unsound entries.
struct Evaluated { std::vector<uint64_t> h[8]; std::vector<uint64_t> y7; };

inline void evaluate(PlotFile& p, Evaluated& ev) {
	const int k = p.k;
	const ChaCha8 c = f1_key(p.id);
	std::vector<uint64_t> py; std::vector<Meta> pm; std::vector<uint64_t> ph;
	std::vector<int64_t> xi;
	auto mk1 = [&](uint64_t x, uint64_t& y, Meta& m) { y = f1(c, k, x); BitWriter w; w.add(x, k); m = Meta(); memcpy(m.b.data(), w.buf, 8); };
	for(int t = 2; t <= 7; ++t) {
		const auto& lps = p.lp[t - 1];
		std::vector<uint64_t> y(lps.size()), h(lps.size());
		std::vector<Meta> m(lps.size());
		for(size_t i = 0; i < lps.size(); ++i) {
			auto ab = inv_line_point(lps[i]);
			uint64_t a = ab.first, b = ab.second;
			const uint64_t lim = t == 2 ? uint64_t(1) << k : py.size();
			const std::string where = "file table " + std::to_string(t - 1) + " entry " + std::to_string(i);
			if(a >= lim || b >= lim || a == b) {
				p.err("sound:backref", where + " refers to " + std::to_string(a) + "," + std::to_string(b) + " of " + std::to_string(lim));
				if(p.errs.size() >= 40) return;
				continue;
			}
			if(i && lps[i] == lps[i - 1]) p.err("sound:dup", where + " duplicates its predecessor");
			uint64_t ya, yb, ha, hb; Meta ma, mb;
			if(t == 2) { mk1(a, ya, ma); mk1(b, yb, mb); ha = hash_x(a); hb = hash_x(b); }
			else { ya = py[a]; yb = py[b]; ma = pm[a]; mb = pm[b]; ha = ph[a]; hb = ph[b]; }
			if(ya > yb) { std::swap(ya, yb); std::swap(ma, mb); std::swap(ha, hb); }
			if(!matches(ya, yb)) { p.err("sound:match", where + " joins two entries that do not match"); if(p.errs.size() >= 40) return; }
			fx(t, k, ya, ma, mb, y[i], m[i]);
			h[i] = hash_node(t, ha, hb);
		}
		py.swap(y); pm.swap(m); ph.swap(h);
		ev.h[t] = ph;
	}
	ev.y7 = py;
	// f7 / P7
	std::vector<char> seen(py.size(), 0);
	for(size_t i = 0; i < p.p7.size(); ++i) {
		uint64_t q = p.p7[i];
		if(q >= py.size()) { p.err("sound:p7", "P7 entry " + std::to_string(i) + " points to " + std::to_string(q)); continue; }
		if(seen[q]) p.err("sound:p7dup", "P7 entry " + std::to_string(i) + " repeats position " + std::to_string(q));
		seen[q] = 1;
		if(p.f7[i] == ~uint64_t(0)) continue;	// undecodable C3 tail
		if(p.f7[i] != py[q]) p.err("sound:f7", "entry " + std::to_string(i) + " claims f7 " + std::to_string(p.f7[i]) + " but its proof evaluates to " + std::to_string(py[q]));
		if(i && p.f7[i - 1] != ~uint64_t(0) && p.f7[i] < p.f7[i - 1]) p.err("sound:f7order", "f7 not ascending at " + std::to_string(i));
	}
}

} // ref
