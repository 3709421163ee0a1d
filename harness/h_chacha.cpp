// Keystream of lib/chacha8.c and the table-1 batches against an independent ChaCha8, at any position of the 64-bit counter.
#include "hx.hpp"
#include <memory>
extern "C" {
#include <chacha8.h>
}
using hx::fmt;
static hx::Rng rng(1);

// straight from the definition: 4x4 matrix, column and diagonal rounds by index
static uint32_t rd(const uint8_t* p) { return p[0] | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }
static void block(const uint8_t* key, int kbits, const uint8_t* iv, uint64_t ctr, uint8_t out[64]) {
	uint32_t s[16], w[16];
	const char* c = kbits == 256 ? "expand 32-byte k" : "expand 16-byte k";
	for(int i = 0; i < 4; ++i) s[i] = rd((const uint8_t*)c + 4 * i);
	for(int i = 0; i < 4; ++i) s[4 + i] = rd(key + 4 * i);
	for(int i = 0; i < 4; ++i) s[8 + i] = rd(key + (kbits == 256 ? 16 : 0) + 4 * i);
	s[12] = ctr; s[13] = ctr >> 32; s[14] = iv ? rd(iv) : 0; s[15] = iv ? rd(iv + 4) : 0;
	memcpy(w, s, sizeof w);
	auto rot = [](uint32_t v, int n) { return v << n | v >> (32 - n); };
	auto qr = [&](int a, int b, int c, int d) {
		w[a] += w[b]; w[d] = rot(w[d] ^ w[a], 16); w[c] += w[d]; w[b] = rot(w[b] ^ w[c], 12);
		w[a] += w[b]; w[d] = rot(w[d] ^ w[a], 8);  w[c] += w[d]; w[b] = rot(w[b] ^ w[c], 7);
	};
	for(int r = 0; r < 8; ++r) for(int i = 0; i < 4; ++i) r % 2 == 0 ? qr(i, 4 + i, 8 + i, 12 + i) : qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
	for(int i = 0; i < 16; ++i) { const uint32_t v = w[i] + s[i]; for(int j = 0; j < 4; ++j) out[4 * i + j] = v >> (8 * j); }
}

int main(int argc, char** argv) {
	rng = hx::Rng(hx::seed() * 6151 + atoi(hx::arg(argc, argv, "--part", "0")));
	const int N = atoi(hx::arg(argc, argv, "--rounds", "1000"));
	uint64_t blocks = 0, carries = 0;
	{	// published vector (all zero 256-bit key and iv, 8 rounds), for the reference itself
		static const uint8_t tv[16] = {0x3e, 0x00, 0xef, 0x2f, 0x89, 0x5f, 0x40, 0xd6, 0x7f, 0x5b, 0xb8, 0xe8, 0x1f, 0x09, 0xa5, 0xa1};
		uint8_t k[32] = {}, iv[8] = {}, o[64]; block(k, 256, iv, 0, o);
		if(memcmp(o, tv, 16)) { printf("reference is wrong\n"); return 3; }
	}
	for(int i = 0; i < N; ++i) {
		uint8_t key[32], iv[8];
		for(auto& x : key) x = rng.chance(10) ? (rng.chance(50) ? 0 : 255) : rng();
		for(auto& x : iv) x = rng();
		if(rng.chance(5)) memset(key, rng.chance(50) ? 0 : 255, 32);
		const int kbits = rng.chance(70) ? 256 : 128;
		const bool with_iv = rng.chance(40);
		uint64_t pos = 0;
		switch(rng.below(8)) {
			case 0: pos = rng.below(100); break;
			case 1: pos = (uint64_t(1) << 32) - rng.below(70); break;
			case 2: pos = (uint64_t(1 + rng.below(1000)) << 32) - rng.below(70); break;
			case 3: pos = ~uint64_t(0) - rng.below(70); break;			// the counter itself wraps
			case 4: pos = rng.bits(34); break;
			case 5: pos = (uint64_t(1) << rng.below(64)) - rng.below(3); break;
			default: pos = rng.bits(1 + rng.below(64));
		}
		const uint32_t n = rng.chance(10) ? 0 : rng.chance(50) ? 1 + rng.below(4) : 1 + rng.below(130);
		hx::at(fmt("pos=%llx n=%u kbits=%d iv=%d", (unsigned long long)pos, n, kbits, with_iv));
		std::unique_ptr<uint8_t[]> out(new uint8_t[n * 64 + 1]), kb(new uint8_t[kbits / 8]);
		memcpy(kb.get(), key, kbits / 8);
		memset(out.get(), 0xA5, n * 64 + 1);
		chacha8_ctx ctx; memset(&ctx, 0xEE, sizeof ctx);
		chacha8_keysetup(&ctx, kb.get(), kbits, with_iv ? iv : nullptr);
		chacha8_ctx before = ctx;
		chacha8_get_keystream(&ctx, pos, n, out.get());
		if(memcmp(&before, &ctx, sizeof ctx)) hx::violation("ctx", "the key context changed");
		if(out[n * 64] != 0xA5) hx::violation("over", fmt("writes beyond %u blocks", n));
		for(uint32_t b = 0; b < n; ++b) {
			uint8_t e[64]; block(key, kbits, with_iv ? iv : nullptr, pos + b, e);
			blocks++; if(b && uint32_t(pos + b) == 0) carries++;
			if(memcmp(e, out.get() + 64 * b, 64)) { hx::violation("stream", fmt("block %u of %u from position %llx with a %d bit key%s differs from ChaCha8", b, n, (unsigned long long)pos, kbits, with_iv ? " and iv" : "")); break; }
		}
		if(n > 1) {				// any split gives the same
			std::unique_ptr<uint8_t[]> o2(new uint8_t[n * 64]);
			for(uint32_t a = 0; a < n;) { const uint32_t m = 1 + rng.below(n - a); chacha8_get_keystream(&ctx, pos + a, m, o2.get() + 64 * a); a += m; }
			if(memcmp(o2.get(), out.get(), n * 64)) hx::violation("split", fmt("position %llx, %u blocks: a split request gives a different stream", (unsigned long long)pos, n));
		}
		hx::kase(fmt("%llx:%u:%d:%d", (unsigned long long)pos, n, kbits, with_iv));
	}
	hx::observe("keystream_blocks", blocks); hx::observe("counter_carries", carries);
	hx::done();
}
