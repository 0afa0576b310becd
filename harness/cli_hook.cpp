// Linked into the program under test (chia_plot): its random source (logged, reproducible), fault injection, short sleeps.
#include "../engine/fault.hpp"
#include <dirent.h>
#include <string>
#include <dlfcn.h>
#include <time.h>
#include <sys/stat.h>
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_odr_violation=0"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:report_signal_unsafe=0"; }
static uint64_t g_seed, g_ctr; static bool g_has_seed; static std::atomic<int> g_long{0};
static uint64_t sm(uint64_t& s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void log_line(const std::string& s) {
	const char* p = getenv("VP_RANDLOG"); if(!p) return;
	const int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0644); if(fd >= 0) { (void)!write(fd, s.data(), s.size()); close(fd); }
}
extern "C" void randombytes_buf(void* buf, size_t size) {
	uint8_t* b = (uint8_t*)buf;
	if(g_has_seed) { uint64_t s = g_seed + 0x1000003 * ++g_ctr; for(size_t i = 0; i < size; ++i) b[i] = sm(s) >> 24; }
	else { FILE* f = fopen("/dev/urandom", "rb"); if(!f || fread(b, 1, size, f) != size) abort(); fclose(f); }
	std::string l = "R "; char t[3]; for(size_t i = 0; i < size; ++i) { snprintf(t, 3, "%02x", b[i]); l += t; }
	// what is at the destination when a plot begins
	if(const char* d = getenv("VP_WATCH")) if(DIR* h = opendir(d)) { while(dirent* e = readdir(h)) { std::string n = e->d_name; if(n.size() > 5 && n.substr(n.size() - 5) == ".plot") l += " " + n; } closedir(h); }
	log_line(l + "\n");
	if(fault::g && fault::g->log[0]) { const int fd = open(fault::g->log, O_WRONLY | O_CREAT | O_APPEND, 0644); if(fd >= 0) { (void)!write(fd, "begin\n", 6); close(fd); } }
}
// the program waits minutes before it repeats a failed copy
static bool long_sleep(double s) {
	if(s < 5) return false;
	log_line("S " + std::to_string((long)s) + "\n");
	const char* m = getenv("VP_MAXSLEEP"); if(m && ++g_long >= atoi(m)) _exit(77);
	timespec t{0, 20000000}; vp_raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); return true;
}
extern "C" int nanosleep(const timespec* r, timespec* rem) {
	if(r && long_sleep(r->tv_sec)) return 0;
	const long x = vp_raw(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0); if(x < 0) { errno = -x; return -1; } return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* r, timespec* rem) {
	if(r) { double s = r->tv_sec; if(flags & TIMER_ABSTIME) { timespec n; clock_gettime(c, &n); s -= n.tv_sec; } if(long_sleep(s)) return 0; }
	return -vp_raw(SYS_clock_nanosleep, c, flags, (long)r, (long)rem, 0, 0);
}
extern "C" unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
	typedef int (*fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static const fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
	if(fault::g) fault::g->threads++;
	return real(t, a, f, x);
}
#endif
__attribute__((constructor)) static void vp_init() {
	if(const char* s = getenv("VP_RAND")) { g_has_seed = true; g_seed = strtoull(s, nullptr, 10); }
	if(const char* p = getenv("VP_FAULT")) {
		const int fd = open(p, O_RDWR); if(fd < 0) _exit(78);
		void* m = mmap(nullptr, sizeof(fault::Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
		if(m == MAP_FAILED || !fault::arm((fault::Shared*)m)) _exit(78);
	}
}
