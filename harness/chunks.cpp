// Linked next to the plotter: lets a run choose the I/O chunk sizes (public tunables of
// chia/settings.h) through the environment.
#include <cstdlib>
#include <cstddef>
extern size_t g_read_chunk_size __attribute__((weak));
extern size_t g_write_chunk_size __attribute__((weak));
__attribute__((constructor)) static void verif_chunks() {
	if(const char* s = getenv("VERIF_READ_CHUNK")) if(&g_read_chunk_size) g_read_chunk_size = strtoull(s, 0, 10);
	if(const char* s = getenv("VERIF_WRITE_CHUNK")) if(&g_write_chunk_size) g_write_chunk_size = strtoull(s, 0, 10);
}
