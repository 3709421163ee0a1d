/* Stand-in for libsodium: randombytes_buf only.  VERIF_RAND=<u64> makes it
 * deterministic (for replays); otherwise the kernel's generator. */
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <sys/random.h>
static inline void randombytes_buf(void* buf, size_t n) {
    static const char* e = getenv("VERIF_RAND");
    uint8_t* p = (uint8_t*)buf;
    if (e) {
        static uint64_t s = strtoull(e, nullptr, 10) * 0x9E3779B97F4A7C15ull + 1;
        for (size_t i = 0; i < n; ++i) {
            s += 0x9E3779B97F4A7C15ull;
            uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            p[i] = uint8_t(z >> 56);
        }
    } else {
        size_t got = 0;
        while (got < n) { ssize_t r = getrandom(p + got, n - got, 0); if (r > 0) got += r; }
    }
    if (const char* f = getenv("VERIF_RANDLOG")) {      /* everything ever handed out, for the oracle */
        if (FILE* o = fopen(f, "ab")) { fwrite(buf, 1, n, o); fclose(o); }
    }
}
static inline int sodium_init(void) { return 0; }
