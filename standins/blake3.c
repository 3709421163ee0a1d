#include "blake3.h"
#include <string.h>
static const uint32_t IV[8] = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A,
                               0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
enum { CHUNK_START = 1, CHUNK_END = 2, PARENT = 4, ROOT = 8 };
static inline uint32_t rotr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static uint32_t ld(const uint8_t* p) {
    return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24;
}
#define G(a, b, c, d, x, y)                                                              \
    do {                                                                                 \
        v[a] = v[a] + v[b] + (x); v[d] = rotr(v[d] ^ v[a], 16);                          \
        v[c] = v[c] + v[d];       v[b] = rotr(v[b] ^ v[c], 12);                          \
        v[a] = v[a] + v[b] + (y); v[d] = rotr(v[d] ^ v[a], 8);                           \
        v[c] = v[c] + v[d];       v[b] = rotr(v[b] ^ v[c], 7);                           \
    } while (0)
static const uint8_t SCHED[7][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
    {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8},
    {3, 4, 10, 12, 13, 2, 7, 14, 6, 5, 9, 0, 11, 15, 8, 1},
    {10, 7, 12, 9, 14, 3, 13, 15, 4, 0, 11, 2, 5, 8, 1, 6},
    {12, 13, 9, 11, 15, 10, 14, 8, 7, 2, 5, 3, 0, 1, 6, 4},
    {9, 14, 11, 5, 8, 12, 15, 1, 13, 3, 0, 10, 2, 6, 4, 7},
    {11, 15, 5, 0, 1, 9, 8, 6, 14, 10, 2, 12, 3, 4, 7, 13}};
static void compress(const uint32_t cv[8], const uint8_t block[64], uint32_t len, uint64_t ctr,
                     uint32_t flags, uint32_t out[16]) {
    uint32_t m[16], v[16];
    for (int i = 0; i < 16; i++) m[i] = ld(block + 4 * i);
    for (int i = 0; i < 8; i++) v[i] = cv[i];
    for (int i = 0; i < 4; i++) v[8 + i] = IV[i];
    v[12] = (uint32_t)ctr; v[13] = (uint32_t)(ctr >> 32); v[14] = len; v[15] = flags;
    for (int r = 0; r < 7; r++) {
        const uint8_t* s = SCHED[r];
        G(0, 4, 8, 12, m[s[0]], m[s[1]]);   G(1, 5, 9, 13, m[s[2]], m[s[3]]);
        G(2, 6, 10, 14, m[s[4]], m[s[5]]);  G(3, 7, 11, 15, m[s[6]], m[s[7]]);
        G(0, 5, 10, 15, m[s[8]], m[s[9]]);  G(1, 6, 11, 12, m[s[10]], m[s[11]]);
        G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; i++) { out[i] = v[i] ^ v[i + 8]; out[i + 8] = v[i + 8] ^ cv[i]; }
}
void blake3_hasher_init(blake3_hasher* s) { memset(s, 0, sizeof(*s)); memcpy(s->cv, IV, 32); }
static void words_to_block(const uint32_t* w, uint8_t* b) {
    for (int i = 0; i < 16; i++) { b[4*i] = w[i]; b[4*i+1] = w[i] >> 8; b[4*i+2] = w[i] >> 16; b[4*i+3] = w[i] >> 24; }
}
static void push_cv(blake3_hasher* s, const uint32_t* cv, uint64_t total_chunks) {
    uint32_t cur[8]; memcpy(cur, cv, 32);
    while ((total_chunks & 1) == 0) {
        uint32_t w[16], o[16]; uint8_t b[64];
        s->stack_len--;
        memcpy(w, s->stack + 8 * s->stack_len, 32); memcpy(w + 8, cur, 32);
        words_to_block(w, b);
        compress(IV, b, 64, 0, PARENT, o);
        memcpy(cur, o, 32);
        total_chunks >>= 1;
    }
    memcpy(s->stack + 8 * s->stack_len, cur, 32);
    s->stack_len++;
}
void blake3_hasher_update(blake3_hasher* s, const void* input, size_t len) {
    const uint8_t* p = (const uint8_t*)input;
    while (len) {
        if (s->buf_len == 64) {
            uint32_t o[16];
            const uint32_t fl = (s->blocks_compressed == 0 ? CHUNK_START : 0);
            if (s->blocks_compressed == 15) {
                compress(s->cv, s->buf, 64, s->chunk_counter, fl | CHUNK_END, o);
                s->chunk_counter++;
                push_cv(s, o, s->chunk_counter);
                memcpy(s->cv, IV, 32);
                s->blocks_compressed = 0;
            } else {
                compress(s->cv, s->buf, 64, s->chunk_counter, fl, o);
                memcpy(s->cv, o, 32);
                s->blocks_compressed++;
            }
            s->buf_len = 0;
        }
        size_t n = 64 - s->buf_len;
        if (n > len) n = len;
        memcpy(s->buf + s->buf_len, p, n);
        s->buf_len += n; p += n; len -= n;
    }
}
void blake3_hasher_finalize(const blake3_hasher* s, uint8_t* out, size_t out_len) {
    uint8_t b[64] = {0}; uint32_t cv[8], o[16];
    uint32_t blen = s->buf_len, flags = (s->blocks_compressed == 0 ? CHUNK_START : 0) | CHUNK_END;
    uint64_t ctr = s->chunk_counter;
    memcpy(b, s->buf, s->buf_len); memcpy(cv, s->cv, 32);
    int n = s->stack_len;
    while (n > 0) {
        uint32_t w[16];
        compress(cv, b, blen, ctr, flags, o);
        n--;
        memcpy(w, s->stack + 8 * n, 32); memcpy(w + 8, o, 32);
        words_to_block(w, b);
        memcpy(cv, IV, 32); blen = 64; flags = PARENT; ctr = 0;
    }
    for (uint64_t c = 0; out_len; c++) {
        uint8_t ob[64];
        compress(cv, b, blen, c, flags | ROOT, o);
        words_to_block(o, ob);
        size_t k = out_len < 64 ? out_len : 64;
        memcpy(out, ob, k); out += k; out_len -= k;
    }
}
