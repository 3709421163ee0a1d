/* LD_PRELOAD: sleeps longer than 2 s (the plotter's five minute retry pause) take 30 ms (VERIF_NAP milliseconds); shorter ones are untouched.
 * With VERIF_TIME the calendar time stands still, so that two runs choose the same file names. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
static struct timespec nap(void) {
	const char* s = getenv("VERIF_NAP");
	const long ms = s ? atol(s) : 30;
	struct timespec t = {ms / 1000, ms % 1000 * 1000000};
	return t;
}
static void note(void) { const char* s = getenv("VERIF_SLEEP_LOG"); if(s) { FILE* f = fopen(s, "a"); if(f) { fputs("sleep\n", f); fclose(f); } } }
int nanosleep(const struct timespec* t, struct timespec* rem) {
	static int (*r)(const struct timespec*, struct timespec*);
	if(!r) r = dlsym(RTLD_NEXT, "nanosleep");
	if(t && t->tv_sec >= 2) { const struct timespec n = nap(); note(); return r(&n, 0); }
	return r(t, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
	static int (*r)(clockid_t, int, const struct timespec*, struct timespec*);
	if(!r) r = dlsym(RTLD_NEXT, "clock_nanosleep");
	if(!(flags & TIMER_ABSTIME) && t && t->tv_sec >= 2) { const struct timespec n = nap(); note(); return r(c, 0, &n, 0); }
	return r(c, flags, t, rem);
}
time_t time(time_t* t) {
	const char* s = getenv("VERIF_TIME");
	struct timespec n;
	time_t v;
	if(s) v = atoll(s); else { clock_gettime(CLOCK_REALTIME, &n); v = n.tv_sec; }
	if(t) *t = v;
	return v;
}
