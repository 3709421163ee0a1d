/* Stand-in for the empty lib/BLAKE3 submodule: an independent, portable BLAKE3
 * (default hash mode only) with the API subset the plotter uses. */
#ifndef VERIF_BLAKE3_H
#define VERIF_BLAKE3_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define BLAKE3_OUT_LEN 32
typedef struct {
    uint32_t cv[8];
    uint64_t chunk_counter;
    uint8_t  buf[64];
    uint8_t  buf_len;
    uint8_t  blocks_compressed;
    uint32_t stack[54 * 8];
    uint8_t  stack_len;
} blake3_hasher;
void blake3_hasher_init(blake3_hasher* self);
void blake3_hasher_update(blake3_hasher* self, const void* input, size_t len);
void blake3_hasher_finalize(const blake3_hasher* self, uint8_t* out, size_t out_len);
#ifdef __cplusplus
}
#endif
#endif
