// System-call fault injection below libc: a seccomp filter traps file
// operations, the SIGSYS handler re-issues them from a stub that the filter
// lets through, and fails, shortens or dies at the chosen one. Only calls that
// concern paths below a given directory are counted or changed.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <time.h>
#include <string>

extern "C" long vp_raw(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char vp_raw_ip[];
#ifdef FAULT_IMPL
asm(".text\n.globl vp_raw\n.type vp_raw,@function\nvp_raw:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\n"
    ".globl vp_raw_ip\nvp_raw_ip:\nret\n.size vp_raw,.-vp_raw\n");
#endif

namespace fault {
enum Op { READ = 1, WRITE = 2, OPEN = 4, CLOSE = 8, RENAME = 16, UNLINK = 32, SEEK = 64, SYNC = 128, TRUNC = 256, ANY = 511 };
enum Act { NONE = 0, ERR = 1, SHORT = 2, EOFR = 3, DIE_BEFORE = 4, DIE_AFTER = 5, DIE_MID = 6, DELAY = 7, HALF = 8 };		// HALF: the operation is cut short, the next one fails
struct Shared {
	std::atomic<uint64_t> count;      // matching operations so far
	std::atomic<uint64_t> fired;      // operations that were changed
	uint64_t nth, times;              // operations nth .. nth+times-1 are changed
	uint32_t ops, act; int32_t err;
	uint32_t mode;                    // OPEN: 0 any, 1 for reading, 2 for writing
	char volume[512];                 // a directory that acts as a file system of its own: renaming in or out gives EXDEV
	char prefix[512]; char contain[128]; char what[600];   // what: first operation changed
	std::atomic<uint32_t> armed;
	// observation: files created below prefix are listed in log, bytes written below each of dirs (except plot files) and threads started are counted
	char log[512]; char dirs[2][512]; std::atomic<uint64_t> bytes[2]; std::atomic<int64_t> now[2], peak[2]; std::atomic<uint64_t> threads;
};
inline Shared* g = nullptr;
inline Shared* shared_mem() { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p == MAP_FAILED ? nullptr : (Shared*)p; }

inline bool path_match(const char* p) {
	const size_t n = strlen(g->prefix);
	if(strncmp(p, g->prefix, n)) return false;
	return !g->contain[0] || strstr(p + n, g->contain);
}
inline bool fd_path(int fd, char* out, size_t cap) {
	char l[40]; char* q = l; memcpy(q, "/proc/self/fd/", 14); q += 14;
	if(fd < 0) return false;
	char t[12]; int n = 0; do { t[n++] = '0' + fd % 10; fd /= 10; } while(fd); while(n) *q++ = t[--n]; *q = 0;
	long r = vp_raw(SYS_readlink, (long)l, (long)out, cap - 1, 0, 0, 0); if(r <= 0) return false; out[r] = 0; return true;
}
inline void tidy(char* p) {	// "//" and "/./" become "/"
	char* q = p; while(*p) { *q++ = *p; if(*p == '/') { while(p[1] == '/' || (p[1] == '.' && p[2] == '/')) p += p[1] == '/' ? 1 : 2; } ++p; } *q = 0;
}
inline void abs_path_raw(const char* p, char* out, size_t cap) {
	if(p[0] == '/') { strncpy(out, p, cap - 1); out[cap - 1] = 0; return; }
	long r = vp_raw(SYS_getcwd, (long)out, cap - 1, 0, 0, 0, 0); size_t n = r > 0 ? strlen(out) : 0; if(n + 2 < cap) { out[n++] = '/'; strncpy(out + n, p, cap - n - 1); out[cap - 1] = 0; }
}
inline void abs_path(const char* p, char* out, size_t cap) { abs_path_raw(p, out, cap); tidy(out); }
inline void die() { vp_raw(SYS_kill, vp_raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0); for(;;) vp_raw(SYS_pause, 0, 0, 0, 0, 0, 0); }

// a close that reports an error: data written before may not have reached the disk
inline void lose(int fd) {
	const long fl = vp_raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0); if(fl < 0 || (fl & O_ACCMODE) == O_RDONLY) return;
	const long n = vp_raw(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0); if(n > 0) vp_raw(SYS_ftruncate, fd, n - 1 - n / 3, 0, 0, 0, 0);
}
inline void handler(int, siginfo_t* si, void* ucv) {
	ucontext_t* uc = (ucontext_t*)ucv; greg_t* r = uc->uc_mcontext.gregs;
	const long nr = si->si_syscall; long a = r[REG_RDI], b = r[REG_RSI], c = r[REG_RDX], d = r[REG_R10], e = r[REG_R8], f = r[REG_R9];
	const int saved = errno;
	uint32_t op = 0; char path[640]; path[0] = 0; char path2[640]; path2[0] = 0; int fd = -1; long* len = nullptr;
	switch(nr) {
		case SYS_read: case SYS_pread64: op = READ; fd = a; len = &c; break;
		case SYS_readv: case SYS_preadv: op = READ; fd = a; break;
		case SYS_write: case SYS_pwrite64: op = WRITE; fd = a; len = &c; break;
		case SYS_writev: case SYS_pwritev: op = WRITE; fd = a; break;
		case SYS_sendfile: op = WRITE; fd = a; len = &d; break;
		case SYS_copy_file_range: op = WRITE; fd = c; len = &e; break;
		case SYS_open: op = OPEN; abs_path((const char*)a, path, sizeof path); break;
		case SYS_openat: op = OPEN; abs_path((const char*)b, path, sizeof path); break;
		case SYS_creat: op = OPEN; abs_path((const char*)a, path, sizeof path); break;
		case SYS_close: op = CLOSE; fd = a; break;
		case SYS_lseek: op = SEEK; fd = a; break;
		case SYS_fsync: case SYS_fdatasync: op = SYNC; fd = a; break;
		case SYS_ftruncate: case SYS_fallocate: op = TRUNC; fd = a; break;
		case SYS_rename: op = RENAME; abs_path((const char*)a, path, sizeof path); abs_path((const char*)b, path2, sizeof path2); break;
		case SYS_renameat: case SYS_renameat2: op = RENAME; abs_path((const char*)b, path, sizeof path); abs_path((const char*)d, path2, sizeof path2); break;
		case SYS_link: op = RENAME; abs_path((const char*)a, path, sizeof path); abs_path((const char*)b, path2, sizeof path2); break;
		case SYS_unlink: op = UNLINK; abs_path((const char*)a, path, sizeof path); break;
		case SYS_unlinkat: op = UNLINK; abs_path((const char*)b, path, sizeof path); break;
	}
	if(g && g->log[0] && (op == OPEN || op == WRITE || op == RENAME || op == UNLINK)) {
		if(fd >= 0 && !fd_path(fd, path, sizeof path)) path[0] = 0;
		if(op == WRITE) { for(int i = 0; i < 2; ++i) if(g->dirs[i][0] && len && !strncmp(path, g->dirs[i], strlen(g->dirs[i])) && !strstr(path, ".plot")) { g->bytes[i] += *len; const int64_t n = g->now[i] += *len; int64_t p = g->peak[i]; while(n > p && !g->peak[i].compare_exchange_weak(p, n)) {} } }
		else if(op == UNLINK) { for(int i = 0; i < 2; ++i) if(g->dirs[i][0] && !strncmp(path, g->dirs[i], strlen(g->dirs[i])) && !strstr(path, ".plot")) { struct stat st; if(vp_raw(SYS_newfstatat, AT_FDCWD, (long)path, (long)&st, 0, 0, 0) == 0) g->now[i] -= st.st_size; } }
		else { const long fl = nr == SYS_open ? b : nr == SYS_openat ? c : nr == SYS_creat ? O_CREAT : op == RENAME ? O_CREAT : 0; const char* p = op == RENAME ? path2 : path;
			if((fl & O_CREAT) && !strncmp(p, g->prefix, strlen(g->prefix))) { const long o = vp_raw(SYS_openat, AT_FDCWD, (long)g->log, O_WRONLY | O_CREAT | O_APPEND, 0644, 0, 0); if(o >= 0) { char line[660]; size_t n = strlen(p); memcpy(line, p, n); line[n++] = '\n'; vp_raw(SYS_write, o, (long)line, n, 0, 0, 0); vp_raw(SYS_close, o, 0, 0, 0, 0, 0); } } }
	}
	bool hit = false; uint64_t hit_no = 0;
	if(g && g->armed.load() && (g->ops & op)) {
		if(fd >= 0 && !fd_path(fd, path, sizeof path)) path[0] = 0;
		bool m = (path[0] && path_match(path)) || (path2[0] && path_match(path2));
		if(m && fd >= 0 && g->mode) { long fl = vp_raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0); m = ((fl & O_ACCMODE) != O_RDONLY) == (g->mode == 2); }
		if(m && op == OPEN && g->mode) { long fl = nr == SYS_open ? b : nr == SYS_openat ? c : O_WRONLY; bool wr = (fl & O_ACCMODE) != O_RDONLY; m = wr == (g->mode == 2); }
		if(m && g->act == EOFR && op == READ) { long q = vp_raw(nr, a, b, c, d, e, f); if(q <= 0) { r[REG_RAX] = q; errno = saved; return; } const uint64_t k = g->count++; bool h = k >= g->nth && k - g->nth < g->times; if(h && g->fired++ == 0) strncpy(g->what, path, sizeof(g->what) - 1); if(h && nr != SYS_pread64 && nr != SYS_preadv) vp_raw(SYS_lseek, fd, -q, SEEK_CUR, 0, 0, 0); r[REG_RAX] = h ? 0 : q; errno = saved; return; }
		if(m) { const uint64_t k = g->count++; hit = k >= g->nth && k - g->nth < g->times; hit_no = k - g->nth; if(hit && g->fired++ == 0) { strncpy(g->what, path, sizeof(g->what) - 1); } }
	}
	long res;
	const bool xdev = op == RENAME && g && g->armed.load() && g->volume[0] && !strncmp(path, g->volume, strlen(g->volume)) != !strncmp(path2, g->volume, strlen(g->volume));
	auto real = [&]() -> long { return xdev ? -EXDEV : vp_raw(nr, a, b, c, d, e, f); };
	if(!hit || g->act == NONE) res = real();
	else switch(g->act) {
		case ERR: if(op == CLOSE) { lose(fd); real(); } res = -g->err; break;
		case HALF: if(hit_no == 0 && len && *len > 1) { *len = *len / 2; res = real(); } else { if(op == CLOSE) { lose(fd); real(); } res = -g->err; } break;
		case SHORT: if(len && *len > 1) *len = *len / 2; res = real(); break;
		case EOFR: res = op == READ ? 0 : -g->err; break;
		case DIE_BEFORE: die(); res = 0; break;
		case DIE_AFTER: real(); die(); res = 0; break;
		case DIE_MID: if(len && *len > 1) *len = *len / 2; real(); die(); res = 0; break;
		case DELAY: { timespec t{0, 300000000}; vp_raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); res = real(); break; }
		default: res = real();
	}
	r[REG_RAX] = res; errno = saved;
}
inline bool install() {
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART; if(sigaction(SIGSYS, &sa, nullptr)) return false;
	static const int nrs[] = {SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_sendfile, SYS_copy_file_range, SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_lseek, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_fallocate, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_unlink, SYS_unlinkat};
	const int n = sizeof(nrs) / sizeof(*nrs); sock_filter p[80]; int k = 0; const uint64_t ip = (uint64_t)vp_raw_ip;
	p[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
	for(int i = 0; i < n; ++i) p[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)nrs[i], (uint8_t)(n - i), 0);
	p[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	p[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
	p[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
	p[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
	p[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
	p[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	p[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	sock_fprog fp = {(unsigned short)k, p};
	if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
	return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp, 0, 0) == 0;
}
// call in the process under test; sh comes from shared_mem() in the parent
inline bool arm(Shared* sh) { g = sh; if(!install()) return false; sh->armed = 1; return true; }
inline void setup(Shared* sh, const std::string& prefix, const std::string& contain, uint32_t ops, uint64_t nth, uint64_t times, uint32_t act, int err, uint32_t mode = 0) {
	sh->armed = 0; sh->count = 0; sh->fired = 0; sh->what[0] = 0; sh->nth = nth; sh->times = times; sh->ops = ops; sh->act = act; sh->err = err; sh->mode = mode; sh->volume[0] = 0; memset(sh->prefix, 0, sizeof sh->prefix); memset(sh->contain, 0, sizeof sh->contain);
	strncpy(sh->prefix, prefix.c_str(), sizeof(sh->prefix) - 1); strncpy(sh->contain, contain.c_str(), sizeof(sh->contain) - 1);
}
inline const char* op_name(uint32_t o) { return o == READ ? "read" : o == WRITE ? "write" : o == OPEN ? "open" : o == CLOSE ? "close" : o == RENAME ? "rename" : o == UNLINK ? "unlink" : o == SEEK ? "seek" : o == SYNC ? "sync" : o == TRUNC ? "truncate" : "any operation"; }
inline const char* act_name(uint32_t a) { static const char* n[] = {"counts", "fails", "is cut short", "hits end of file", "kills before", "kills after", "kills in the middle of", "delays", "is cut short, the next one fails,"}; return n[a]; }
}
