/* LD_PRELOAD schedule perturbation.  Seeded random yields / sleeps around the pthread
 * synchronisation calls of the program under test: it only delays threads at points where
 * the scheduler could have delayed them anyway, so every interleaving produced is a legal one.
 *   VERIF_PERTURB=<seed>       enable
 *   VERIF_PERTURB_MODE=0..9    0 uniform light, 1 uniform heavy, 2 slow threads (a random third of
 *                              the threads is slow), 3 delay before broadcasts, 4 delay after unlock,
 *                              5 delay thread start + wakeups, 6 rare long delays before broadcasts,
 *                              7 spurious wakeups, 8 delay while holding a mutex,
 *                              9 long delays after a notification (state changes between it and the next step)
 * At exit it appends "mode seed ops delays threads fingerprint" to VERIF_PERTURB_LOG; the fingerprint
 * hashes the global order in which threads passed the synchronisation points. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

static int (*r_lock)(pthread_mutex_t*);
static int (*r_unlock)(pthread_mutex_t*);
static int (*r_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*r_bcast)(pthread_cond_t*);
static int (*r_signal)(pthread_cond_t*);
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int on = 0, mode = 0;
static uint64_t seed = 0;
static uint64_t n_ops, n_delays;
static uint32_t n_threads;
static uint64_t fingerprint;
static __thread uint64_t rng;
static __thread int slow;
static __thread uint32_t my_id;

static struct timespec t_start;
static double budget = 4.0;		/* seconds of full perturbation; afterwards only a small fraction of the delays */
static int spent(void) {
	struct timespec t; clock_gettime(CLOCK_MONOTONIC_COARSE, &t);
	return (t.tv_sec - t_start.tv_sec) + (t.tv_nsec - t_start.tv_nsec) * 1e-9 > budget;
}

static void init(void) {
	static int done = 0;
	if(done) return;
	done = 1;
	r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
	r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	r_wait = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
	r_bcast = dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
	r_signal = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
	r_create = dlsym(RTLD_NEXT, "pthread_create");
	const char* s = getenv("VERIF_PERTURB");
	if(s) { on = 1; seed = strtoull(s, 0, 10); }
	s = getenv("VERIF_PERTURB_BUDGET");
	if(s) budget = atof(s);
	clock_gettime(CLOCK_MONOTONIC_COARSE, &t_start);
	s = getenv("VERIF_PERTURB_MODE");
	if(s) mode = atoi(s);
}
__attribute__((constructor)) static void ctor(void) { init(); }
__attribute__((destructor)) static void dtor(void) {
	const char* s = getenv("VERIF_PERTURB_LOG");
	if(on && s) {
		FILE* f = fopen(s, "a");
		if(f) { fprintf(f, "%d %llu %llu %llu %u %016llx\n", mode, (unsigned long long)seed, (unsigned long long)n_ops, (unsigned long long)n_delays, n_threads, (unsigned long long)fingerprint); fclose(f); }
	}
}
static uint64_t rnd(void) {
	if(!rng) {
		uint32_t id = __atomic_add_fetch(&n_threads, 1, __ATOMIC_RELAXED);
		my_id = id;
		rng = (seed + 1) * 0x9E3779B97F4A7C15ull + id * 0xD6E8FEB86659FD93ull + 1;
		rng ^= rng >> 29; rng *= 0xbf58476d1ce4e5b9ull; rng ^= rng >> 32; rng |= 1;
		slow = (rng >> 20) % 3 == 0;
	}
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng;
}
static void nap(uint64_t us) {
	if(spent() && rng % 32) return;
	struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
	__atomic_add_fetch(&n_delays, 1, __ATOMIC_RELAXED);
	nanosleep(&ts, 0);
}
enum { P_LOCK, P_UNLOCK, P_WAIT, P_WAKE, P_BCAST, P_START, P_HELD, P_SENT };
static void point(int p) {
	if(!on) return;
	uint64_t r = rnd();
	uint64_t n = __atomic_add_fetch(&n_ops, 1, __ATOMIC_RELAXED);
	uint64_t h = (n * 1024 + my_id) * 0x9E3779B97F4A7C15ull + p; h ^= h >> 31; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
	__atomic_xor_fetch(&fingerprint, h, __ATOMIC_RELAXED);
	unsigned pct = r % 1000; uint64_t v = r >> 32;
	switch(mode) {
		case 0: if(pct < 50) sched_yield(); else if(pct < 60) nap(v % 60); break;
		case 1: if(pct < 200) sched_yield(); else if(pct < 260) nap(v % 120); break;
		case 2: if(slow) { if(pct < 300) nap(v % 200); } break;
		case 3: if(p == P_BCAST && pct < 250) nap(v % 600); break;
		case 4: if(p == P_UNLOCK && pct < 120) nap(v % 400); break;
		case 5: if(p == P_START) nap(v % 3000); else if(p == P_WAKE && pct < 200) nap(v % 500); break;
		case 6: if(p == P_BCAST && pct < 30) nap(v % 20000); break;
		case 9: if(p == P_SENT) { if(pct < 60) nap(v % 8000); else if(pct < 200) nap(v % 500); } break;
		case 8: if(p == P_HELD && pct < 60) nap(v % 300); break;
	}
}
int pthread_mutex_lock(pthread_mutex_t* m) { init(); point(P_LOCK); int r = r_lock(m); if(mode == 8) point(P_HELD); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { init(); int r = r_unlock(m); point(P_UNLOCK); return r; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	init();
	if(on && mode == 7 && rnd() % 100 < 15) {	/* POSIX allows a wait to return without a signal */
		r_unlock(m); point(P_WAIT); sched_yield(); r_lock(m); __atomic_add_fetch(&n_delays, 1, __ATOMIC_RELAXED); return 0;
	}
	int r = r_wait(c, m); point(P_WAKE); return r;
}
int pthread_cond_broadcast(pthread_cond_t* c) { init(); point(P_BCAST); int r = r_bcast(c); if(mode == 9) point(P_SENT); return r; }
int pthread_cond_signal(pthread_cond_t* c) { init(); point(P_BCAST); int r = r_signal(c); if(mode == 9) point(P_SENT); return r; }
struct start { void* (*f)(void*); void* a; };
static void* tramp(void* p) { struct start s = *(struct start*)p; free(p); point(P_START); return s.f(s.a); }
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
	init();
	struct start* s = malloc(sizeof *s); s->f = f; s->a = a;
	int r = r_create(t, at, tramp, s);
	if(r) free(s);
	return r;
}
