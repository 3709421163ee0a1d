// Independent reference implementation of the Chia v1.0 proof of space, written from
// the specification (not from the repository's code).  Everything in memory, sequential.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <array>
#include <string>
#include <algorithm>
#include "blake3.h"

namespace ref {

typedef unsigned __int128 u128;
static const int EXTRA = 6;
static const int PB = 119, PC = 127, PBC = 119 * 127;

// ---------------------------------------------------------------- ChaCha8
struct ChaCha8 {
	uint32_t st[16];
	static uint32_t le(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | uint32_t(p[3]) << 24; }
	ChaCha8(const uint8_t* key, int bits, const uint8_t* iv) {
		const uint8_t* c = (const uint8_t*)(bits == 256 ? "expand 32-byte k" : "expand 16-byte k");
		for(int i = 0; i < 4; ++i) st[i] = le(c + 4 * i);
		for(int i = 0; i < 4; ++i) st[4 + i] = le(key + 4 * i);
		for(int i = 0; i < 4; ++i) st[8 + i] = le(key + (bits == 256 ? 16 : 0) + 4 * i);
		st[12] = st[13] = st[14] = st[15] = 0;
		if(iv) { st[14] = le(iv); st[15] = le(iv + 4); }
	}
	static uint32_t rl(uint32_t v, int n) { return v << n | v >> (32 - n); }
	static void qr(uint32_t* x, int a, int b, int c, int d) {
		x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16);
		x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
		x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8);
		x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
	}
	void block(uint64_t pos, uint8_t* out) const {
		uint32_t in[16], x[16];
		memcpy(in, st, 64);
		in[12] = uint32_t(pos); in[13] = uint32_t(pos >> 32);
		memcpy(x, in, 64);
		for(int r = 0; r < 4; ++r) {
			for(int i = 0; i < 4; ++i) qr(x, i, 4 + i, 8 + i, 12 + i);
			for(int i = 0; i < 4; ++i) qr(x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
		}
		for(int i = 0; i < 16; ++i) {
			uint32_t v = x[i] + in[i];
			out[4 * i] = v; out[4 * i + 1] = v >> 8; out[4 * i + 2] = v >> 16; out[4 * i + 3] = v >> 24;
		}
	}
};

// ---------------------------------------------------------------- bit strings (MSB first)
struct BitStr {
	std::array<uint8_t, 96> b{};
	int n = 0;
	void add(uint64_t v, int bits) {
		for(int i = bits - 1; i >= 0; --i) { if((v >> i) & 1) b[n >> 3] |= 0x80 >> (n & 7); n++; }
	}
	void add(const BitStr& o) {
		for(int i = 0; i < o.n; ++i) { if(o.get(i)) b[n >> 3] |= 0x80 >> (n & 7); n++; }
	}
	bool get(int i) const { return (b[i >> 3] >> (7 - (i & 7))) & 1; }
	uint64_t num(int off, int bits) const {
		uint64_t v = 0;
		for(int i = 0; i < bits; ++i) v = v << 1 | get(off + i);
		return v;
	}
	BitStr slice(int off, int bits) const {
		BitStr r;
		for(int i = 0; i < bits; ++i) { if(get(off + i)) r.b[r.n >> 3] |= 0x80 >> (r.n & 7); r.n++; }
		return r;
	}
};

inline uint64_t bits_at(const uint8_t* p, uint64_t off, int n) {
	uint64_t v = 0;
	uint64_t i = off; int left = n;
	while(left > 0) {
		int bo = i & 7; int take = std::min(8 - bo, left);
		uint8_t byte = p[i >> 3];
		v = v << take | ((byte >> (8 - bo - take)) & ((1u << take) - 1));
		i += take; left -= take;
	}
	return v;
}

// meta data: up to 4k bits, MSB-first bytes, zero padded
struct Meta { std::array<uint8_t, 18> b{}; };

static inline int meta_len(int table) {		// of an entry of that table, in units of k
	static const int len[8] = {0, 1, 2, 4, 4, 3, 2, 0};
	return len[table];
}

struct BitWriter {
	uint8_t buf[96] = {};
	int n = 0;
	void add(uint64_t v, int bits) {
		while(bits > 0) {
			int room = 8 - (n & 7);
			int t = std::min(room, bits);
			uint8_t part = (v >> (bits - t)) & ((1u << t) - 1);
			buf[n >> 3] |= part << (room - t);
			n += t; bits -= t;
		}
	}
	void add_bytes(const uint8_t* p, int bits) {
		for(int i = 0; i < bits; i += 8) {
			int t = std::min(8, bits - i);
			add(p[i >> 3] >> (8 - t), t);
		}
	}
};

// F1: y of one x
inline uint64_t f1(const ChaCha8& c, int k, uint64_t x) {
	uint64_t bit = x * k;
	uint8_t buf[128];
	c.block(bit / 512, buf);
	if(bit / 512 != (bit + k - 1) / 512) c.block(bit / 512 + 1, buf + 64);
	uint64_t y = bits_at(buf, bit % 512, k);
	return y << EXTRA | x >> (k - EXTRA);
}

inline ChaCha8 f1_key(const uint8_t* id) {
	uint8_t key[32]; key[0] = 1; memcpy(key + 1, id, 31);
	return ChaCha8(key, 256, nullptr);
}

// Ft for t in 2..7: (yL, metaL, metaR) -> (y, meta); metas are those of table t-1 entries
inline void fx(int t, int k, uint64_t yL, const Meta& mL, const Meta& mR, uint64_t& y, Meta& out) {
	const int ml = meta_len(t - 1) * k;
	BitWriter in;
	in.add(yL, k + EXTRA);
	in.add_bytes(mL.b.data(), ml);
	in.add_bytes(mR.b.data(), ml);
	blake3_hasher h;
	uint8_t dig[32];
	blake3_hasher_init(&h);
	blake3_hasher_update(&h, in.buf, (in.n + 7) / 8);
	blake3_hasher_finalize(&h, dig, 32);
	y = bits_at(dig, 0, k + (t < 7 ? EXTRA : 0));
	out = Meta();
	if(t == 2 || t == 3) {
		BitWriter w; w.add_bytes(mL.b.data(), ml); w.add_bytes(mR.b.data(), ml);
		memcpy(out.b.data(), w.buf, (w.n + 7) / 8);
	} else if(t < 7) {
		BitWriter w;
		int n = meta_len(t) * k, off = k + EXTRA;
		for(int i = 0; i < n; i += 8) { int c = std::min(8, n - i); w.add(bits_at(dig, off + i, c), c); }
		memcpy(out.b.data(), w.buf, (w.n + 7) / 8);
	}
}

inline bool matches(uint64_t yL, uint64_t yR) {
	uint64_t bl = yL / PBC, br = yR / PBC;
	if(bl + 1 != br) return false;
	int cl = yL % PBC, cr = yR % PBC;
	int m = ((cr / PC - cl / PC) % PB + PB) % PB;
	if(m >= 64) return false;
	int s = 2 * m + int(bl & 1);
	return ((cr % PC - cl % PC) % PC + PC) % PC == (s * s) % PC;
}

inline uint64_t mix(uint64_t a) {
	a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31;
	return a;
}
inline uint64_t hash_x(uint64_t x) { return mix(x * 0x9E3779B97F4A7C15ull + 0x1234567); }
inline uint64_t hash_node(int t, uint64_t l, uint64_t r) {
	return mix(mix(l + 0x632BE59BD9B4E019ull * t) * 3 + r * 0xD6E8FEB86659FD93ull);
}

struct Entry { uint64_t y; Meta m; uint32_t l, r; uint64_t h; };	// l, r: indices into the previous (sorted) table; table 1: l = x

struct Plot {			// full forward propagation
	int k;
	std::vector<Entry> t[8];					// t[i] sorted by y, i = 1..7
	std::vector<std::vector<char>> used;			// used[i][j]: reachable from table 7
	std::vector<uint64_t> pruned[8];				// sorted subtree hashes of the reachable entries
	std::vector<std::pair<uint64_t, uint64_t>> proofs;	// sorted (f7, hash)
	uint64_t lost = 0;							// matches dropped by the position limit
	bool ambiguous = false;						// equal y on both sides of the limit
};

inline void radix_sort_entries(std::vector<Entry>& v) {
	std::vector<std::pair<uint64_t, uint32_t>> key(v.size());
	for(size_t i = 0; i < v.size(); ++i) key[i] = {v[i].y, uint32_t(i)};
	std::sort(key.begin(), key.end());
	std::vector<Entry> out(v.size());
	for(size_t i = 0; i < v.size(); ++i) out[i] = v[key[i].second];
	v.swap(out);
}

// limit: left positions from there on cannot be stored and are dropped (2^32 or 2^35 in the real builds)
inline void forward(const uint8_t* id, int k, Plot& p, uint64_t limit = ~uint64_t(0)) {
	p.k = k;
	const ChaCha8 c = f1_key(id);
	const uint64_t N = uint64_t(1) << k;
	p.t[1].resize(N);
	{
		// sequential keystream
		std::vector<uint8_t> ks((N * k + 511) / 512 * 64);
		for(size_t b = 0; b < ks.size() / 64; ++b) c.block(b, &ks[b * 64]);
		for(uint64_t x = 0; x < N; ++x) {
			Entry& e = p.t[1][x];
			e.y = bits_at(ks.data(), x * k, k) << EXTRA | x >> (k - EXTRA);
			BitWriter w; w.add(x, k);
			e.m = Meta(); memcpy(e.m.b.data(), w.buf, 8);
			e.l = uint32_t(x); e.r = 0; e.h = hash_x(x);
		}
	}
	radix_sort_entries(p.t[1]);
	for(int t = 2; t <= 7; ++t) {
		const auto& L = p.t[t - 1];
		auto& out = p.t[t];
		if(limit < L.size() && L[limit - 1].y == L[limit].y) p.ambiguous = true;
		std::vector<int32_t> first(PBC, -1), cnt(PBC, 0);
		size_t a = 0;
		while(a < L.size()) {
			const uint64_t bl = L[a].y / PBC;
			size_t b = a;
			while(b < L.size() && L[b].y / PBC == bl) ++b;
			size_t e = b;
			while(e < L.size() && L[e].y / PBC == bl + 1) ++e;
			if(e > b) {
				for(size_t i = b; i < e; ++i) { int q = L[i].y % PBC; if(!cnt[q]) first[q] = int32_t(i - b); cnt[q]++; }
				for(size_t i = a; i < b; ++i) {
					int cl = L[i].y % PBC;
					for(int m = 0; m < 64; ++m) {
						int s = 2 * m + int(bl & 1);
						int q = (cl / PC + m) % PB * PC + (cl % PC + s * s) % PC;
						for(int j = 0; j < cnt[q]; ++j) {
							if(i >= limit) { p.lost++; continue; }
							Entry n;
							n.l = uint32_t(i); n.r = uint32_t(b + first[q] + j);
							fx(t, k, L[i].y, L[i].m, L[n.r].m, n.y, n.m);
							n.h = hash_node(t, L[i].h, L[n.r].h);
							out.push_back(n);
						}
					}
				}
				for(size_t i = b; i < e; ++i) cnt[L[i].y % PBC] = 0;
			}
			a = b;
		}
		radix_sort_entries(out);
	}
	p.used.assign(8, {});
	for(int t = 1; t <= 7; ++t) p.used[t].assign(p.t[t].size(), t == 7);
	for(int t = 7; t >= 2; --t)
		for(size_t i = 0; i < p.t[t].size(); ++i)
			if(p.used[t][i]) p.used[t - 1][p.t[t][i].l] = p.used[t - 1][p.t[t][i].r] = 1;
	for(int t = 1; t <= 7; ++t) {
		for(size_t i = 0; i < p.t[t].size(); ++i) if(p.used[t][i]) p.pruned[t].push_back(p.t[t][i].h);
		std::sort(p.pruned[t].begin(), p.pruned[t].end());
	}
	for(const auto& e : p.t[7]) p.proofs.push_back({e.y, e.h});
	std::sort(p.proofs.begin(), p.proofs.end());
}

inline u128 tri(u128 x) { return x * (x - 1) / 2; }

inline u128 line_point(uint64_t a, uint64_t b) { if(b > a) std::swap(a, b); return tri(a) + b; }

inline std::pair<uint64_t, uint64_t> inv_line_point(u128 lp) {
	// largest x with x(x-1)/2 <= lp
	uint64_t lo = 0, hi = uint64_t(1) << 36;
	while(hi - lo > 1) { uint64_t m = lo + (hi - lo) / 2; if(tri(m) <= lp) lo = m; else hi = m; }
	return {lo, uint64_t(lp - tri(lo))};
}

} // ref
