// C16: moving a finished plot, under failing calls, crashes and retries.
#include "common.hpp"
#include "../engine/fault.hpp"
#include <chia/copy.h>

static std::string slurp(const std::string& p, bool& ok) { FILE* f = fopen(p.c_str(), "rb"); ok = f; std::string s; if(!f) return s; char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if(!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) throw pbt::Discard{"cannot prepare"}; }
static std::string gen_data(pbt::Src& s, size_t n) { Rng r(s.seed()); std::string d(n, 0); for(auto& ch : d) ch = r.next(); return d; }
struct Res { std::atomic<int> state; char what[300]; };    // 0 running, 1 success, 2 exception

static void move_plot(Ctx& c) {
	pbt::Src& s = c.s; static fault::Shared* sh = fault::shared_mem(); static Res* res = (Res*)mmap(nullptr, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	const size_t chunk = s.pick<size_t>({64, 1, 16, 256, 1000, 4096}), buf = chunk * 16;
	size_t n; switch(s.draw(4)) { case 0: n = s.range(0, 300); break; case 1: n = buf * s.range(0, 4) + s.range(0, 2) - (s.coin() ? 1 : 0); if((ssize_t)n < 0) n = 0; break; case 2: n = 4096 * s.range(0, 8) + s.range(0, 3); break; default: n = s.range(0, 100000); }
	std::string data = gen_data(s, n); const bool xdev = s.chance(3, 4), nodst = s.chance(1, 20), same = s.chance(1, 25), samedir = s.chance(1, 12);
	std::string A = c.dir + "a/", B = c.dir + "b/"; mkdir(A.c_str(), 0755); if(!nodst) mkdir(B.c_str(), 0755);
	std::string name = s.pick<std::string>({"plot-k32-x.plot", "p", "with space.plot", std::string(200, 'n')}), src = A + name, dst = same ? src : samedir ? A + "other.plot" : B + name;
	std::map<std::string, std::string> by; if(s.coin()) by[A + "keep"] = gen_data(s, 50); if(s.coin() && !nodst) by[B + "keep.plot"] = gen_data(s, 60); if(s.coin()) by[A + name + ".x"] = "z";
	std::string stale, old; bool has_stale = !same && !nodst && s.chance(1, 4), has_old = !same && !nodst && !samedir && s.chance(1, 12);
	if(has_stale) { stale = gen_data(s, s.pick<size_t>({n / 2, n + 5000, 0})); spit(dst + ".tmp", stale); } if(has_old) { old = gen_data(s, 77); spit(dst, old); }
	for(auto& b : by) spit(b.first, b.second); spit(src, data);
	c.desc << "size=" << n << " chunk=" << chunk << (xdev ? " other file system" : "") << (nodst ? " no directory" : "") << (same ? " same path" : samedir ? " same directory" : "") << (has_stale ? " stale .tmp of " + std::to_string(stale.size()) : "") << (has_old ? " destination exists" : "");
	ChunkSizes cs(chunk, 4096); auto is = [&](const std::string& p, const std::string& d) { bool ok; std::string x = slurp(p, ok); return ok && x == d; }; auto there = [&](const std::string& p) { return !access(p.c_str(), F_OK); };
	const int tries = s.range(1, 3); bool interesting = false;
	for(int t = 0; t <= tries; ++t) {
		uint32_t op = 0, act = 0; uint64_t nth = 0, times = 1; int err = 0;
		if(t < tries) {
			op = s.pick<uint32_t>({fault::WRITE, fault::READ, fault::RENAME, fault::CLOSE, fault::OPEN, fault::UNLINK, fault::ANY, fault::SYNC, fault::ANY}); act = s.pick<uint32_t>({fault::ERR, fault::ERR, fault::HALF, fault::SHORT, fault::DIE_BEFORE, fault::DIE_AFTER, fault::DIE_MID, fault::NONE});
			nth = s.chance(1, 3) ? s.range(0, 2) : s.range(0, std::min<uint64_t>(30, 6 + n / 2048)); times = s.pick<uint64_t>({1, 1, 1, 2, 1000000}); err = s.pick<int>({EIO, ENOSPC, EACCES, EINVAL, EDQUOT}); if(act == fault::HALF) times++;
			c.desc << "; attempt " << t + 1 << ": " << fault::op_name(op) << " #" << nth << (times > 1000 ? "+" : times > 1 ? "-" + std::to_string(nth + 1) : "") << " " << fault::act_name(act) << " " << (act == fault::ERR ? strerror(err) : "");
		} else { if(nodst) mkdir(B.c_str(), 0755); c.desc << "; then without faults"; }
		c.publish(); fault::setup(sh, c.dir, "", op ? op : fault::ANY, nth, op ? times : 0, act, err); if(xdev) strncpy(sh->volume, B.c_str(), sizeof(sh->volume) - 1); res->state = 0; res->what[0] = 0;
		fflush(stdout); pid_t p = fork();
		if(!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); if(!fault::arm(sh)) _exit(9); try { final_copy(src, dst); res->state = 1; } catch(const std::exception& e) { strncpy(res->what, e.what(), sizeof(res->what) - 1); res->state = 2; } sh->armed = 0; _exit(0); }
		int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR); if(WIFEXITED(st) && WEXITSTATUS(st) == 9) throw pbt::Discard{"no seccomp"};
		const bool fired = sh->fired > 0, died = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && fired && act >= fault::DIE_BEFORE && act <= fault::DIE_MID; const std::string what = std::string(" (") + (fired ? sh->what : "no fault") + ")";
		if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !died) throw pbt::Discard{"child killed"};
		PBT_CHECK(died || (WIFEXITED(st) && res->state != 0), "moving the plot ends the process" << what);
		if(fired) { interesting = true; c.label(std::string(fault::op_name(op)) + " " + fault::act_name(act)); }
		// safety, always
		const bool at_src = is(src, data), at_dst = is(dst, data), at_tmp = is(dst + ".tmp", data);
		PBT_CHECK(at_src || at_dst || at_tmp, "no complete copy of the plot is left" << what);
		PBT_CHECK(!there(dst) || at_dst || (has_old && is(dst, old)), "the destination name is held by an incomplete copy" << what);
		for(auto& b : by) PBT_CHECK(is(b.first, b.second), "another file was changed: " << b.first);
		if(res->state == 1 && !died) {
			PBT_CHECK(at_dst, "success reported but the destination does not hold the plot" << what); if(!same && !(fired && (op & fault::UNLINK))) PBT_CHECK(!there(src), "success reported but the source is still there" << what);
			break;
		}
		if(res->state == 2) { PBT_CHECK(t < tries, "moving the plot still fails after the fault is gone: " << res->what); PBT_CHECK(fired || nodst, "moving the plot fails without a fault: " << res->what); c.label("reported and retried"); }
		if(died) { c.label("died"); if(at_dst && !at_src) break; if(!there(src)) { if(at_tmp) { c.label("only the .tmp is left"); } break; } }
	}
	c.nontrivial = interesting && n > 0;
}
// a plot of more than 4 GiB, across file systems
static void move_big(Ctx& c) {
	pbt::Src& s = c.s; static fault::Shared* sh = fault::shared_mem(); std::string A = c.dir + "a/", B = c.dir + "b/"; mkdir(A.c_str(), 0755); mkdir(B.c_str(), 0755);
	const uint64_t n = (1ull << 32) + s.range(0, 1 << 21); c.desc << "size=" << n << " other file system"; c.publish(); std::string src = A + "p.plot", dst = B + "p.plot";
	std::vector<uint64_t> at; Rng r(s.seed()); for(int i = 0; i < 40; ++i) at.push_back(r.below(n - 64)); for(uint64_t x : {0ull, (1ull << 31) - 32, (1ull << 32) - 32, (unsigned long long)n - 64}) at.push_back(x);
	auto mark = [](uint64_t x) { std::string m(64, 0); for(int i = 0; i < 64; ++i) m[i] = (char)(x * 2654435761u >> (i % 24)) | 1; return m; };
	std::sort(at.begin(), at.end()); { std::vector<uint64_t> v; for(auto x : at) if(v.empty() || x >= v.back() + 64) v.push_back(x); at = v; }
	{ int fd = open(src.c_str(), O_RDWR | O_CREAT, 0644); if(fd < 0 || ftruncate(fd, n)) throw pbt::Discard{"no sparse file"}; for(auto x : at) if(pwrite(fd, mark(x).data(), 64, x) != 64) throw pbt::Discard{"no space"}; close(fd); }
	fault::setup(sh, c.dir, "", fault::ANY, 0, 0, 0, 0); strncpy(sh->volume, B.c_str(), sizeof(sh->volume) - 1);
	Child ch = isolated(c.dir, [&]() { if(!fault::arm(sh)) _exit(9); final_copy(src, dst); });
	if(ch.kind == Child::EXIT && ch.code == 9) throw pbt::Discard{"no seccomp"}; if(ch.what.find("No space") != std::string::npos) throw pbt::Discard{"no space"};
	PBT_CHECK(ch.ok(), "moving the plot fails: " << ch.str()); struct stat st; PBT_CHECK(!stat(dst.c_str(), &st) && (uint64_t)st.st_size == n, "the destination has " << st.st_size << " bytes instead of " << n); PBT_CHECK(access(src.c_str(), F_OK), "the source is still there");
	int fd = open(dst.c_str(), O_RDONLY); std::vector<char> b(1 << 20), z(1 << 20, 0); size_t j = 0; uint64_t o = 0; ssize_t k;
	while((k = read(fd, b.data(), b.size())) > 0) { std::vector<char> want(z.begin(), z.begin() + k); for(size_t q = j ? j - 1 : 0; q < at.size() && at[q] < o + k; ++q) { std::string m = mark(at[q]); for(int i = 0; i < 64; ++i) if(at[q] + i >= o && at[q] + i < o + k) want[at[q] + i - o] = m[i]; if(at[q] + 64 <= o + k) j = q + 1; } if(memcmp(b.data(), want.data(), k)) { close(fd); pbt::fail("the copy differs near offset " + std::to_string(o)); } o += k; }
	close(fd); PBT_CHECK(o == n, "read " << o); c.nontrivial = true;
}
static pbt::Reg r1({"move", move_plot}), r2({"move_big", move_big, false, false, 1});
PBT_MAIN
