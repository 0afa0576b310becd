// Schedule perturbation: the pthread primitives are interposed by the harness
// executable; seeded per-thread noise (yields, short and long stalls, threads
// that are slow throughout) explores interleavings the OS scheduler rarely
// produces. It only delays threads and
// lets condition variables wake up spuriously (which POSIX allows), so it never makes a correct program fail.
#pragma once
#include <atomic>
#include <cstdint>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
namespace sched {
inline std::atomic<uint64_t> g_seed{0};       // 0 = off
inline std::atomic<uint32_t> g_level{0};
inline std::atomic<uint32_t> g_ord{0};
inline std::atomic<int64_t> g_budget{0};      // microseconds of delay left, summed over threads
struct TL { uint64_t seed = 0, s = 0; bool slow = false; };
inline thread_local TL tl __attribute__((tls_model("initial-exec")));
inline void off() { g_seed = 0; }
inline void budget(int64_t us) { g_budget = us; }
inline void on(uint64_t seed, uint32_t level, int64_t us = 400000) { g_ord = 0; g_budget = us; g_level = level; g_seed = level ? (seed | 1) : 0; }
inline void nap(long us) { if((g_budget -= us + 60) < 0) return; timespec t{0, us * 1000}; nanosleep(&t, nullptr); }
inline void point(int kind) {
	const uint64_t sd = g_seed.load(std::memory_order_relaxed);
	if(!sd) return;
	if(tl.seed != sd) { tl.seed = sd; tl.s = sd * 0x9E3779B97F4A7C15ull + (uint64_t)(++g_ord) * 0xD1B54A32D192ED03ull; tl.slow = ((tl.s >> 20) % 4) == 0; }
	tl.s ^= tl.s << 13; tl.s ^= tl.s >> 7; tl.s ^= tl.s << 17;
	const uint32_t r = (uint32_t)(tl.s >> 32), lv = g_level.load(std::memory_order_relaxed);
	if(tl.slow && lv >= 2) { if(r % 4 == 0) nap(20 + r / 4 % 400); return; }
	switch(r % 32) {
		case 0: case 1: case 2: sched_yield(); break;
		case 3: nap(1 + (r >> 8) % 60); break;
		case 4: if(lv >= 2) nap(50 + (r >> 8) % 500); break;
		case 5: if(lv >= 2 && (r >> 8) % 8 == 0) nap(1000 + (r >> 12) % 3000); break;
		default: break;
	}
	(void)kind;
}
inline bool spurious() { if(!g_seed.load(std::memory_order_relaxed) || tl.seed != g_seed.load(std::memory_order_relaxed) || g_budget < 0) return false; tl.s ^= tl.s << 13; tl.s ^= tl.s >> 7; tl.s ^= tl.s << 17; return (tl.s >> 40) % 6 == 0; }
}
#ifdef SCHED_INTERPOSE
extern "C" {
typedef int (*fn_mutex)(pthread_mutex_t*);
typedef int (*fn_wait)(pthread_cond_t*, pthread_mutex_t*);
typedef int (*fn_cond)(pthread_cond_t*);
#define VP_REAL(type, name) static type real = (type)dlsym(RTLD_NEXT, name)
int pthread_mutex_lock(pthread_mutex_t* m) { VP_REAL(fn_mutex, "pthread_mutex_lock"); sched::point(0); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { VP_REAL(fn_mutex, "pthread_mutex_unlock"); int r = real(m); sched::point(1); return r; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static fn_wait real = (fn_wait)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); 
	if(sched::spurious()) { pthread_mutex_unlock(m); sched::point(4); pthread_mutex_lock(m); return 0; }		// waking up for no reason is allowed at any time
	return real(c, m); }
int pthread_cond_broadcast(pthread_cond_t* c) { static fn_cond real = (fn_cond)dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"); sched::point(2); int r = real(c); sched::point(3); return r; }
int pthread_cond_signal(pthread_cond_t* c) { static fn_cond real = (fn_cond)dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"); sched::point(2); int r = real(c); sched::point(3); return r; }
}
#endif
