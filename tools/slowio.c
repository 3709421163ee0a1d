// LD_PRELOAD: random short delays around the file calls of the real program, none of its synchronisation is touched
// (usable together with ThreadSanitizer). VERIF_SLOWIO=<seed>
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
#include <sched.h>
long syscall(long, ...);
// VERIF_EXIT_NAP=<ms>: the last step of exit() (after the destructors of the program) takes that long while its other threads go on
__attribute__((destructor)) static void bye(void) { const char* s = getenv("VERIF_EXIT_NAP"); if(s) { struct timespec t = {atol(s) / 1000, atol(s) % 1000 * 1000000}; syscall(230, 1, 0, &t, 0); } }
static uint64_t seed;
static __thread uint64_t st;
static void pause_(void) {
	if(!seed) { const char* s = getenv("VERIF_SLOWIO"); seed = s ? strtoull(s, 0, 10) * 2 + 1 : 1; }
	if(!st) st = seed * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)&st;
	st ^= st << 13; st ^= st >> 7; st ^= st << 17;
	switch(st % 16) {
		case 0: { struct timespec t = {0, (long)(st >> 20) % 400000}; syscall(230, 1, 0, &t, 0); } break;		// clock_nanosleep
		case 1: case 2: syscall(24); break;																	// sched_yield
		default:;
	}
}
long syscall(long, ...);
#define W(ret, name, args, call) ret name args { static ret (*f) args; if(!f) f = (ret (*) args)dlsym(RTLD_NEXT, #name); pause_(); return f call; }
W(size_t, fread, (void* p, size_t s, size_t n, FILE* f_), (p, s, n, f_))
W(size_t, fwrite, (const void* p, size_t s, size_t n, FILE* f_), (p, s, n, f_))
W(int, fseek, (FILE* f_, long o, int w), (f_, o, w))
W(int, fflush, (FILE* f_), (f_))
W(FILE*, fopen, (const char* a, const char* b), (a, b))
W(int, fclose, (FILE* f_), (f_))
