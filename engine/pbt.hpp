// Small property-based testing engine.
//
//  * A case is a pure function of a choice sequence (Hypothesis style): all
//    random decisions go through Src, so every failure replays and shrinks.
//  * Cases run in forked workers; the choice sequence is recorded in shared
//    memory, so crashes, aborts (sanitizers, std::terminate) and deadlocks
//    are attributed to a case and shrink like any other failure.
//  * A hang is "no CPU time consumed by any thread of the worker for a while",
//    never a plain wall-clock limit.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Failure { std::string msg; };   // property violated
struct Discard { std::string why; };   // case not applicable / environment trouble

inline uint64_t splitmix(uint64_t& s) {
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a ^ (b * 0xD6E8FEB86659FD93ull); splitmix(s); return splitmix(s); }

// Cheap RNG for bulk data derived from one drawn seed.
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed ^ 0xA5A5A5A55A5A5A5Aull) {}
	uint64_t next() { return splitmix(s); }
	uint64_t below(uint64_t n) { return n ? (uint64_t)(((__uint128_t)next() * n) >> 64) : 0; }
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
	bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

static constexpr size_t MAX_CHOICES = 1 << 15;

struct Slot {
	std::atomic<uint64_t> case_idx;
	std::atomic<uint64_t> done;          // finished cases
	std::atomic<uint32_t> active;
	std::atomic<uint32_t> num_rec;
	std::atomic<uint32_t> failed;
	std::atomic<uint32_t> discarded;
	char msg[4096];
	char desc[8192];
	uint64_t rec[MAX_CHOICES];
};

class Src {
public:
	Src(Slot* slot, uint64_t seed) : slot(slot), rng(seed) { slot->num_rec = 0; }
	Src(Slot* slot, const std::vector<uint64_t>& replay) : slot(slot), rng(0), rep(&replay) { slot->num_rec = 0; }

	// uniform in [0, max]; 0 is the simplest value
	uint64_t draw(uint64_t max) {
		uint64_t v;
		if(rep) {
			v = pos < rep->size() ? (*rep)[pos] : 0;
			pos++;
			if(max != UINT64_MAX && v > max) v = max;
		} else {
			v = max == UINT64_MAX ? rng.next() : rng.below(max + 1);
		}
		uint32_t n = slot->num_rec.load(std::memory_order_relaxed);
		if(n < MAX_CHOICES) { slot->rec[n] = v; slot->num_rec.store(n + 1, std::memory_order_relaxed); }
		return v;
	}
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
	bool coin() { return draw(1); }
	bool chance(uint32_t num, uint32_t den) { return den - 1 - draw(den - 1) < num; } // 0 => false when num<den
	uint64_t seed() { return draw(UINT64_MAX); }
	template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
	template<typename T> T pick(const std::vector<T>& l) { return l[draw(l.size() - 1)]; }
	// value of at most n bits, biased to boundaries
	uint64_t bits(int n) {
		const uint64_t m = n >= 64 ? UINT64_MAX : ((uint64_t(1) << n) - 1);
		if(n == 0) return 0;
		switch(draw(5)) {
			case 0: return draw(std::min<uint64_t>(m, 3));
			case 1: return m - draw(std::min<uint64_t>(m, 3));
			case 2: { uint64_t b = uint64_t(1) << draw(n - 1); return std::min(m, b); }
			case 3: { uint64_t b = uint64_t(1) << draw(n - 1); return std::min(m, b - 1); }
			default: return draw(m);
		}
	}
	// size in [lo,hi], log-uniform-ish
	uint64_t size(uint64_t lo, uint64_t hi) {
		uint64_t span = hi - lo;
		int nb = 0; while(nb < 63 && (span >> nb)) nb++;
		uint64_t b = draw(nb);
		uint64_t m = b >= 64 ? UINT64_MAX : ((uint64_t(1) << b) - 1);
		return lo + std::min(span, draw(std::min(m, span)));
	}
private:
	Slot* slot;
	Rng rng;
	const std::vector<uint64_t>* rep = nullptr;
	size_t pos = 0;
};

struct Ctx {
	Src& s;
	std::ostringstream desc;
	std::vector<std::string> labels;
	bool nontrivial = false;
	bool replaying = false;
	std::string dir;         // private scratch directory with trailing slash
	Slot* slot = nullptr;
	Ctx(Src& s) : s(s) {}
	void label(const std::string& l) { labels.push_back(l); }
	// make the description visible to the parent even if we crash later
	void publish() { std::string d = desc.str(); strncpy(slot->desc, d.c_str(), sizeof(slot->desc) - 1); }
};

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }
#define PBT_CHECK(cond, msg) do { if(!(cond)) { std::ostringstream _o; _o << msg; \
	::pbt::fail(std::string(#cond) + " violated: " + _o.str()); } } while(0)

static const char* const NONTERM = "does not terminate: the case is still running long after every other case has finished";
struct Suite {
	std::string name;
	std::function<void(Ctx&)> fn;
	bool schedule = false;      // outcome may depend on the schedule
	bool own_hang = false;      // the suite watches for hangs itself
	int max_workers = 0;        // 0 = default
	int hang_s = 20;
	int limit_s = 0;            // >0: a single case that is still running after this many seconds is a failure (livelock)
};
inline std::vector<Suite>& suites() { static std::vector<Suite> v; return v; }
struct Reg { Reg(Suite s) { suites().push_back(std::move(s)); } };

inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string& scratch_root() { static std::string s; return s; }

inline void rm_rf(const std::string& path) {
	if(path.size() < 8 || path.find("/vp-") == std::string::npos) return;   // only ever below our own scratch
	DIR* d = opendir(path.c_str());
	if(d) {
		while(dirent* e = readdir(d)) {
			std::string n = e->d_name;
			if(n == "." || n == "..") continue;
			std::string p = path + "/" + n;
			struct stat st;
			if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p); else unlink(p.c_str());
		}
		closedir(d);
	}
	rmdir(path.c_str());
}

// CPU ticks of all processes in the group; asleep = no thread of the group is runnable or in disk wait
struct GroupState { int64_t ticks = 0; bool asleep = true; bool any = false; };
inline GroupState group_state(pid_t pgid, pid_t only = 0) {
	GroupState g;
	DIR* d = opendir("/proc"); if(!d) { g.asleep = false; return g; }
	auto slurp = [](const std::string& p, char* buf, size_t cap) -> char* {
		FILE* f = fopen(p.c_str(), "r"); if(!f) return nullptr;
		size_t n = fread(buf, 1, cap - 1, f); fclose(f); buf[n] = 0;
		return strrchr(buf, ')');
	};
	while(dirent* e = readdir(d)) {
		if(e->d_name[0] < '1' || e->d_name[0] > '9') continue;
		char buf[2048]; const std::string base = std::string("/proc/") + e->d_name;
		char* q = slurp(base + "/stat", buf, sizeof buf); if(!q) continue;
		char stc; int ppid, pgrp; unsigned long ut = 0, st = 0;
		if(sscanf(q + 2, "%c %d %d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &stc, &ppid, &pgrp, &ut, &st) != 5 || (only ? atoi(e->d_name) != only : pgrp != pgid)) continue;
		g.any = true; g.ticks += ut + st;
		if(stc == 'Z') continue;
		DIR* t = opendir((base + "/task").c_str()); if(!t) continue;
		while(dirent* k = readdir(t)) {
			if(k->d_name[0] == '.') continue;
			char b2[1024]; char* r = slurp(base + "/task/" + k->d_name + "/stat", b2, sizeof b2);
			if(r && r[2] != 'S' && r[2] != 'Z') { g.asleep = false; break; }
		}
		closedir(t);
	}
	closedir(d);
	return g;
}
// Watches one process group for "asleep without using any CPU".
struct HangWatch {
	pid_t pid; bool single; int64_t last = -2; double since = 0;
	explicit HangWatch(pid_t p, bool single_process = false) : pid(p), single(single_process), since(now_s()) {}
	void reset() { last = -2; since = now_s(); }
	// seconds without progress
	double idle() {
		GroupState g = group_state(pid, single ? pid : 0);
		if(!g.any || g.ticks != last || !g.asleep) { last = g.any ? g.ticks : -2; since = now_s(); }
		return now_s() - since;
	}
};

enum Outcome { OK, FAIL, DISC, INCONCLUSIVE };
struct Result { Outcome out = OK; std::string msg, desc; std::vector<uint64_t> rec; };

struct Stats {
	uint64_t evals = 0, discarded = 0;
	std::set<uint64_t> nontrivial;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
};

extern void (*on_case_begin)(Ctx&);
extern void (*on_case_end)();

inline void run_case(const Suite& su, Slot* slot, Src& src, Ctx& ctx, int tag) {
	ctx.slot = slot;
	slot->desc[0] = 0; slot->msg[0] = 0;
	slot->failed = 0;
	const double t0 = now_s();
	char d[64]; snprintf(d, sizeof d, "/c%d-%d/", (int)getpid(), tag);
	ctx.dir = scratch_root() + d;
	mkdir(ctx.dir.c_str(), 0777);
	try {
		if(on_case_begin) on_case_begin(ctx);
		su.fn(ctx);
		if(on_case_end) on_case_end();
	} catch(Failure& f) {
		if(on_case_end) on_case_end();
		ctx.publish(); strncpy(slot->msg, f.msg.c_str(), sizeof(slot->msg) - 1); slot->failed = 1;
	} catch(Discard&) {
		if(on_case_end) on_case_end();
		slot->discarded++; slot->failed = 2;
	} catch(const std::exception& e) {
		if(on_case_end) on_case_end();
		std::string m = std::string("unexpected exception: ") + e.what();
		ctx.publish(); strncpy(slot->msg, m.c_str(), sizeof(slot->msg) - 1); slot->failed = 1;
	}
	if(const char* tr = getenv("VP_TRACE")) { FILE* f = fopen(tr, "a"); if(f) { fprintf(f, "%.2f %s %s\n", now_s() - t0, su.name.c_str(), ctx.desc.str().c_str()); fclose(f); } }
	rm_rf(ctx.dir.substr(0, ctx.dir.size() - 1));
}

inline Slot* new_slots(size_t n) {
	void* p = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) { perror("mmap"); exit(3); }
	return (Slot*)p;
}

inline std::string esc(const std::string& s) {
	std::string o;
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += c; }
		else if(c == '\n') o += "\\n";
		else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}
inline std::string tail_of(const std::string& path, size_t max = 1500) {
	FILE* f = fopen(path.c_str(), "rb"); if(!f) return "";
	std::string all; char b[4096]; size_t n;
	while((n = fread(b, 1, sizeof b, f)) > 0) { all.append(b, n); if(all.size() > (1 << 20)) break; }
	fclose(f);
	size_t k = all.find("ERROR:"); if(k == std::string::npos) k = all.find("WARNING: ThreadSanitizer");
	if(k == std::string::npos) k = all.find("terminate called");
	if(k == std::string::npos) k = all.size() > max ? all.size() - max : 0;
	return all.substr(k, max);
}

inline void child_setup(const std::string& errfile) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	setpgid(0, 0);
	int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n);
	int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if(e >= 0) { dup2(e, 2); close(e); }
	rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
inline void kill_group(pid_t p) { kill(-p, SIGKILL); kill(p, SIGKILL); }

inline std::string describe_status(int st, const std::string& errfile) {
	std::ostringstream o;
	if(WIFSIGNALED(st)) o << "process terminated by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
	else o << "process exited with status " << WEXITSTATUS(st);
	std::string t = tail_of(errfile);
	if(!t.empty()) o << ": " << t;
	return o.str();
}

// the sanitizer itself could not work here (memory map, memory limit): says nothing about the code
inline bool sanitizer_trouble(const std::string& m) {
	for(const char* x : {"FATAL: ThreadSanitizer", "FATAL: AddressSanitizer", "Sanitizer failed to allocate", "Sanitizer: CHECK failed", "Sanitizer: out of memory", "ThreadSanitizer: unsupported", "Shadow memory range interleaves"}) if(m.find(x) != std::string::npos) return true;
	return false;
}

// Runs the given choice sequences in forked children, in parallel.
inline std::vector<Result> run_batch(const Suite& su, const std::vector<std::vector<uint64_t>>& seqs, int par) {
	static Slot* slots = nullptr; static size_t cap = 0;
	const size_t n = seqs.size();
	if(cap < n) { slots = new_slots(n); cap = n; }
	std::vector<Result> res(n);
	std::vector<pid_t> pid(n, 0);
	std::vector<HangWatch> hw(n, HangWatch(0));
	std::vector<double> t0(n, 0);
	size_t next = 0, running = 0, finished = 0;
	auto errf = [&](size_t i) { return scratch_root() + "/err-b" + std::to_string(i); };
	double lastchk = now_s();
	while(finished < n) {
		while(next < n && running < (size_t)par) {
			size_t i = next++;
			memset((void*)slots[i].msg, 0, 1); slots[i].desc[0] = 0; slots[i].failed = 0; slots[i].num_rec = 0;
			pid_t p = fork();
			if(p == 0) {
				child_setup(errf(i));
				Src src(&slots[i], seqs[i]);
				Ctx ctx(src); ctx.replaying = true;
				run_case(su, &slots[i], src, ctx, 0);
				_exit(slots[i].failed == 1 ? 42 : slots[i].failed == 2 ? 43 : 0);
			}
			if(p < 0) { res[i].out = INCONCLUSIVE; finished++; continue; }
			pid[i] = p; hw[i] = HangWatch(p); t0[i] = now_s(); running++;
		}
		bool any = false;
		for(size_t i = 0; i < n; ++i) if(pid[i] > 0) {
			int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
			bool fin = false; Result& R = res[i];
			if(r == pid[i]) {
				fin = true;
				if(WIFEXITED(st) && WEXITSTATUS(st) == 0) R.out = OK;
				else if(WIFEXITED(st) && WEXITSTATUS(st) == 43) R.out = DISC;
				else if(WIFEXITED(st) && WEXITSTATUS(st) == 42) { R.out = FAIL; R.msg = slots[i].msg; }
				else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) R.out = INCONCLUSIVE;
				else { R.out = FAIL; R.msg = describe_status(st, errf(i)); }
			} else if(now_s() - lastchk > 0.5) {
				any = true;
				if(!su.own_hang && hw[i].idle() > su.hang_s) {
					R.out = FAIL; R.msg = "deadlock: every thread of the process is blocked and none made progress";
					fin = true; kill_group(pid[i]); waitpid(pid[i], &st, 0);
				} else if(su.limit_s && now_s() - t0[i] > su.limit_s) {
					R.out = FAIL; R.msg = NONTERM; fin = true; kill_group(pid[i]); waitpid(pid[i], &st, 0);
				} else if(now_s() - t0[i] > 240) {
					R.out = INCONCLUSIVE; fin = true; kill_group(pid[i]); waitpid(pid[i], &st, 0);
				}
			}
			if(fin) {
				kill(-pid[i], SIGKILL);
				R.desc = slots[i].desc;
				R.rec.assign(slots[i].rec, slots[i].rec + slots[i].num_rec.load());
				char d[64]; snprintf(d, sizeof d, "/c%d-%d", (int)pid[i], 0); rm_rf(scratch_root() + d);
				pid[i] = 0; running--; finished++;
			}
		}
		if(any) lastchk = now_s();
		if(finished < n) usleep(2000);
	}
	return res;
}

// Shrinks seq; returns the smallest failing result found.
inline Result shrink(const Suite& su, Result cur, double budget, int par, int repeat) {
	const double end = now_s() + budget;
	auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
		if(a.size() != b.size()) return a.size() < b.size();
		return a < b;
	};
	auto attempt = [&](std::vector<std::vector<uint64_t>> cands) -> bool {
		std::vector<std::vector<uint64_t>> run;
		for(auto& c : cands) { while(!c.empty() && c.back() == 0) c.pop_back(); if(smaller(c, cur.rec)) for(int r = 0; r < repeat; ++r) run.push_back(c); }
		for(size_t b = 0; b < run.size() && now_s() < end; b += par) {
			std::vector<std::vector<uint64_t>> part(run.begin() + b, run.begin() + std::min(run.size(), b + par));
			auto rs = run_batch(su, part, par);
			for(size_t i = 0; i < rs.size(); ++i) if(rs[i].out == FAIL) {
				auto rec = rs[i].rec; while(!rec.empty() && rec.back() == 0) rec.pop_back();
				auto& best = smaller(rec, part[i]) ? rec : part[i];
				if(smaller(best, cur.rec)) { cur.msg = rs[i].msg; cur.desc = rs[i].desc; cur.rec = best; return true; }
			}
		}
		return false;
	};
	{ while(!cur.rec.empty() && cur.rec.back() == 0) cur.rec.pop_back(); }
	bool progress = true;
	while(progress && now_s() < end) {
		progress = false;
		// delete chunks
		for(size_t len = std::max<size_t>(cur.rec.size() / 2, 1); len >= 1 && now_s() < end; len /= 2) {
			bool again = true;
			while(again && now_s() < end) {
				again = false;
				std::vector<std::vector<uint64_t>> c;
				for(size_t i = 0; i + len <= cur.rec.size() && c.size() < 64; i += len) {
					auto v = cur.rec; v.erase(v.begin() + i, v.begin() + i + len); c.push_back(v);
				}
				if(attempt(c)) { again = progress = true; }
			}
			if(len == 1) break;
		}
		// zero / lower single values
		for(size_t i = 0; i < cur.rec.size() && i < 256 && now_s() < end; ++i) {
			if(!cur.rec[i]) continue;
			std::vector<std::vector<uint64_t>> c;
			const uint64_t x = cur.rec[i];
			for(uint64_t nv : {uint64_t(0), uint64_t(1), x / 2, x - x / 4, x - 1}) if(nv < x) { auto v = cur.rec; v[i] = nv; c.push_back(v); }
			if(attempt(c)) { progress = true; if(i < cur.rec.size() && cur.rec[i]) --i; }
		}
	}
	return cur;
}

inline int default_workers() { long n = sysconf(_SC_NPROCESSORS_ONLN); return n < 1 ? 1 : n > 8 ? 8 : (int)n; }

struct Options {
	std::string suite, replay, out, replay_out;
	uint64_t seed = 1, cases = 100;
	double maxtime = 60, shrinktime = 25;
	int workers = 0;
};

inline int run_suite(const Suite& su, const Options& op) {
	int W = op.workers ? op.workers : su.max_workers ? std::min(su.max_workers, default_workers()) : default_workers();
	Slot* slots = new_slots(W);
	auto* shared = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	shared[0] = 0;
	uint64_t h = 1469598103934665603ull; for(char c : su.name) h = (h ^ (unsigned char)c) * 1099511628211ull;
	const uint64_t base = mix(op.seed, h);
	const double t_begin = now_s(), t_end = t_begin + op.maxtime;
	std::vector<pid_t> pid(W);
	std::vector<HangWatch> hw(W, HangWatch(0));
	std::vector<uint64_t> last_case(W, UINT64_MAX);
	std::vector<double> case_t0(W, now_s());
	auto errf = [&](int w) { return scratch_root() + "/err-w" + std::to_string(w); };
	auto statf = [&](int w) { return scratch_root() + "/stat-w" + std::to_string(w); };
	auto spawn = [&](int w) {
		slots[w].active = 0; slots[w].failed = 0;
		pid_t p = fork();
		if(p == 0) {
			child_setup(errf(w));
			Stats st;
			while(now_s() < t_end) {
				uint64_t i = shared[0]++;
				if(i >= op.cases) break;
				slots[w].case_idx = i; slots[w].active = 1;
				Src src(&slots[w], mix(base, i));
				Ctx ctx(src);
				const double tc = now_s(); rusage ru0; getrusage(RUSAGE_SELF, &ru0);
				run_case(su, &slots[w], src, ctx, (int)i);
				if(getenv("VP_TIMES")) {
					rusage ru; getrusage(RUSAGE_SELF, &ru);
					auto sec = [](const rusage& r) { return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) * 1e-6; };
					FILE* tf = fopen(getenv("VP_TIMES"), "a"); if(tf) { fprintf(tf, "%.2f cpu %.2f %s\n", now_s() - tc, sec(ru) - sec(ru0), ctx.desc.str().c_str()); fclose(tf); }
				}
				if(slots[w].failed == 1) _exit(42);
				slots[w].active = 0;
				if(slots[w].failed == 2) { st.discarded++; continue; }
				st.evals++; slots[w].done++;
				if(ctx.nontrivial) {
					uint64_t hh = 7; for(uint32_t k = 0; k < slots[w].num_rec; ++k) hh = mix(hh, slots[w].rec[k]);
					st.nontrivial.insert(hh);
				}
				std::set<std::string> ls(ctx.labels.begin(), ctx.labels.end());
				for(auto& l : ls) st.labels[l]++;
				if(st.samples.size() < 3) st.samples.push_back(ctx.desc.str());
			}
			FILE* f = fopen(statf(w).c_str(), "a");
			if(f) {
				fprintf(f, "E %" PRIu64 " %" PRIu64 "\n", st.evals, st.discarded);
				for(auto x : st.nontrivial) fprintf(f, "N %" PRIx64 "\n", x);
				for(auto& l : st.labels) fprintf(f, "L %" PRIu64 " %s\n", l.second, l.first.c_str());
				for(auto& s : st.samples) fprintf(f, "S %s\n", esc(s).c_str());
				fclose(f);
			}
			_exit(0);
		}
		pid[w] = p; hw[w] = HangWatch(p);
	};
	for(int w = 0; w < W; ++w) { unlink(statf(w).c_str()); }
	for(int w = 0; w < W; ++w) spawn(w);
	std::vector<Result> found; int inconclusive = 0; int respawn = 0;
	auto stop_all = [&]() { for(int w = 0; w < W; ++w) if(pid[w] > 0) { kill_group(pid[w]); waitpid(pid[w], nullptr, 0); pid[w] = 0; } };
	int alive = W; double lastchk = now_s();
	Result confirmed; bool have = false; int flaky_seen = 0; std::string flaky_note;
	while(alive > 0 && !have) {
		bool chk = now_s() - lastchk > 0.5;
		for(int w = 0; w < W && !have; ++w) if(pid[w] > 0) {
			int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
			Result R; bool ended = false, failed = false;
			if(r == pid[w]) {
				ended = true; kill(-pid[w], SIGKILL);
				if(WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
				else if(WIFEXITED(st) && WEXITSTATUS(st) == 42) { failed = true; R.msg = slots[w].msg; }
				else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { inconclusive++; if(respawn++ < 16) { spawn(w); continue; } }
				else { failed = true; R.msg = describe_status(st, errf(w)); }
			} else if(chk) {
				if(slots[w].case_idx != last_case[w] || !slots[w].active) { last_case[w] = slots[w].case_idx; hw[w].reset(); case_t0[w] = now_s(); }
				else if(!su.own_hang && hw[w].idle() > su.hang_s) {
					failed = ended = true; R.msg = "deadlock: every thread of the process is blocked and none made progress";
					kill_group(pid[w]); waitpid(pid[w], &st, 0);
				} else if(su.limit_s && now_s() - case_t0[w] > su.limit_s) {
					failed = ended = true; R.msg = NONTERM; kill_group(pid[w]); waitpid(pid[w], &st, 0);
				} else if(now_s() - case_t0[w] > 240 || now_s() > t_end + 60 + su.limit_s) {
					ended = true; inconclusive++; kill_group(pid[w]); waitpid(pid[w], &st, 0);
				}
			}
			if(!ended) continue;
			pid[w] = 0; alive--;
			if(failed && sanitizer_trouble(R.msg)) { failed = false; inconclusive++; if(respawn++ < 16) { spawn(w); alive++; } }
			if(failed) {
				R.out = FAIL; R.desc = slots[w].desc;
				R.rec.assign(slots[w].rec, slots[w].rec + slots[w].num_rec.load());
				// confirm by replaying
				for(int v = 0; v < W; ++v) if(pid[v] > 0) kill(-pid[v], SIGSTOP);
				int tries = su.schedule ? 24 : 3, hits = 0;
				Result best = R;
				for(int b = 0; b < tries && !hits; b += 8) {
					int m = std::min(8, tries - b);
					if(!su.schedule) m = 1, b -= 7;   // one at a time
					std::vector<std::vector<uint64_t>> seqs(m, R.rec);
					for(auto& x : run_batch(su, seqs, std::min(W, m))) if(x.out == FAIL) { hits++; best.msg = x.msg; if(!x.desc.empty()) best.desc = x.desc; }
				}
				if(hits) { confirmed = best; confirmed.rec = R.rec; have = true; }
				else {
					flaky_seen++;
					flaky_note = R.msg;
					// a wrong result seen once under some schedule is a violation; a hang or a lack of resources could be the machine's
					auto has = [&](const char* x) { return R.msg.find(x) != std::string::npos; };
					const bool machine = has("deadlock") || R.msg == NONTERM || has("hang") || has("bad_alloc") || has("Resource temporarily") || has("Cannot allocate") || has("No space left") || has("Too many open");
					if(su.schedule && (!machine || flaky_seen >= 2)) { confirmed = R; have = true; }
					else {
						for(int v = 0; v < W; ++v) if(pid[v] > 0) { kill(-pid[v], SIGCONT); hw[v].reset(); case_t0[v] = now_s(); }
						spawn(w); alive++;
					}
				}
			}
		}
		if(chk) lastchk = now_s();
		usleep(2000);
	}
	stop_all();
	uint64_t evals_sum = 0, disc_sum = 0; for(int w = 0; w < W; ++w) evals_sum += slots[w].done, disc_sum += slots[w].discarded;
	if(have) {
		const bool slow_fail = confirmed.msg == NONTERM || confirmed.msg.compare(0, 9, "deadlock:") == 0;
		Result sh = slow_fail ? confirmed : shrink(su, confirmed, op.shrinktime, W, su.schedule ? 4 : 1);
		if(!op.replay_out.empty()) {
			FILE* f = fopen(op.replay_out.c_str(), "w");
			if(f) {
				fprintf(f, "suite %s\nseed %" PRIu64 "\nchoices %zu", su.name.c_str(), op.seed, sh.rec.size());
				for(auto v : sh.rec) fprintf(f, " %" PRIu64, v);
				fprintf(f, "\nmessage %s\ncase %s\noriginal_message %s\noriginal_case %s\n", esc(sh.msg).c_str(), esc(sh.desc).c_str(),
					esc(confirmed.msg).c_str(), esc(confirmed.desc).c_str());
				fclose(f);
			}
		}
		confirmed = sh;
	}
	// merge statistics
	std::set<std::string> nt; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; uint64_t evals = 0, disc = 0;
	for(int w = 0; w < W; ++w) {
		FILE* f = fopen(statf(w).c_str(), "r"); if(!f) continue;
		char* line = nullptr; size_t cap = 0; ssize_t n;
		while((n = getline(&line, &cap, f)) > 0) {
			std::string s(line, n); if(!s.empty() && s.back() == '\n') s.pop_back();
			if(s[0] == 'E') { uint64_t a, b; sscanf(s.c_str(), "E %" SCNu64 " %" SCNu64, &a, &b); evals += a; disc += b; }
			else if(s[0] == 'N') nt.insert(s.substr(2));
			else if(s[0] == 'L') { size_t p = s.find(' ', 2); labels[s.substr(p + 1)] += strtoull(s.c_str() + 2, nullptr, 10); }
			else if(s[0] == 'S' && samples.size() < 4) samples.push_back(s.substr(2));
		}
		free(line); fclose(f);
	}
	FILE* f = op.out.empty() ? stdout : fopen(op.out.c_str(), "w");
	if(f) {
		fprintf(f, "{\"suite\":\"%s\",\"evaluations\":%" PRIu64 ",\"discarded\":%" PRIu64 ",\"distinct_nontrivial\":%zu,\"inconclusive\":%d,\"unreproduced\":%d,\"wall_s\":%.2f,\"requested\":%" PRIu64 ",\"failed\":%s",
			su.name.c_str(), std::max(evals, have ? evals_sum : evals), disc, nt.size(), inconclusive, have ? 0 : flaky_seen, now_s() - t_begin, op.cases, have ? "true" : "false");
		fprintf(f, ",\"labels\":{"); bool first = true;
		for(auto& l : labels) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", esc(l.first).c_str(), l.second); first = false; }
		fprintf(f, "},\"samples\":["); first = true;
		for(auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", s.c_str()); first = false; }
		fprintf(f, "],\"flaky_note\":\"%s\"", esc(flaky_note).c_str());
		if(have) fprintf(f, ",\"message\":\"%s\",\"case\":\"%s\"", esc(confirmed.msg).c_str(), esc(confirmed.desc).c_str());
		fprintf(f, "}\n");
		if(f != stdout) fclose(f);
	}
	return have ? 1 : 0;
}

inline int main_(int argc, char** argv) {
	Options op;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--suite") op.suite = nx(); else if(a == "--cases") op.cases = strtoull(nx().c_str(), 0, 10);
		else if(a == "--seed") op.seed = strtoull(nx().c_str(), 0, 10); else if(a == "--maxtime") op.maxtime = atof(nx().c_str());
		else if(a == "--shrinktime") op.shrinktime = atof(nx().c_str());
		else if(a == "--workers") op.workers = atoi(nx().c_str()); else if(a == "--out") op.out = nx();
		else if(a == "--replay") op.replay = nx(); else if(a == "--replay-out") op.replay_out = nx();
		else if(a == "--list") { for(auto& s : suites()) printf("%s\n", s.name.c_str()); return 0; }
		else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
	}
	{
		const char* base = getenv("VP_SCRATCH");
		std::string b = base ? base : access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
		std::string t = b + "/vp-XXXXXX"; std::vector<char> v(t.begin(), t.end()); v.push_back(0);
		if(!mkdtemp(v.data())) { perror("mkdtemp"); return 3; }
		scratch_root() = v.data();
	}
	const pid_t me = getpid();
	int rc = 3;
	if(!op.replay.empty()) {
		FILE* f = fopen(op.replay.c_str(), "r"); if(!f) { perror("replay"); return 3; }
		char* line = nullptr; size_t cap = 0; std::string name; std::vector<uint64_t> seq;
		while(getline(&line, &cap, f) > 0) {
			if(!strncmp(line, "suite ", 6)) { name = line + 6; name.erase(name.find_last_not_of("\n") + 1); }
			if(!strncmp(line, "choices ", 8)) { std::istringstream is(line + 8); size_t n; is >> n; for(size_t i = 0; i < n; ++i) { uint64_t v; is >> v; seq.push_back(v); } }
		}
		fclose(f); free(line);
		rc = 3;
		for(auto& su : suites()) if(su.name == name) {
			int hits = 0, tries = su.schedule ? 24 : 3; Result last;
			for(int i = 0; i < tries && !hits; i += 8) for(auto& r : run_batch(su, std::vector<std::vector<uint64_t>>(su.schedule ? 8 : 1, seq), 8)) if(r.out == FAIL) { hits++; last = r; }
			if(hits) printf("replay FAILS: %s\ncase: %s\n", last.msg.c_str(), last.desc.c_str()); else printf("replay passes\n");
			rc = hits ? 1 : 0;
		}
	} else {
		for(auto& su : suites()) if(su.name == op.suite) rc = run_suite(su, op);
		if(rc == 3) fprintf(stderr, "no such suite %s\n", op.suite.c_str());
	}
	if(getpid() == me) rm_rf(scratch_root());
	return rc;
}

} // namespace pbt

#define PBT_MAIN \
	extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=1"; } \
	extern "C" const char* __tsan_default_options() { return "halt_on_error=1:report_signal_unsafe=0"; } \
	void (*pbt::on_case_begin)(pbt::Ctx&) = nullptr; void (*pbt::on_case_end)() = nullptr; \
	int main(int argc, char** argv) { return pbt::main_(argc, argv); }
