// h_copy SRC DST CHUNK: one call of the real final_copy(); status 0 = reported success, 7 = reported an error
#include <chia/copy.h>
#include <cstdlib>
#include <exception>
int main(int, char** argv) {
	g_read_chunk_size = strtoull(argv[3], 0, 10);
	try { final_copy(argv[1], argv[2]); } catch(const std::exception& ex) { fprintf(stderr, "%s\n", ex.what()); return 7; }
	return 0;
}
