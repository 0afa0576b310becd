#pragma once
#include "../engine/pbt.hpp"
#include "../engine/sched.hpp"
#include <mutex>
#include <thread>
#include <condition_variable>
#include <iostream>
#include <numeric>
#include "../ref/ref.hpp"
#include <chia/settings.h>
#include <chia/chia.h>

using pbt::Ctx;
using pbt::Rng;

inline std::string hex(const uint8_t* p, size_t n) { std::string s; char b[3]; for(size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }

// Restores the library's tunables around a case
struct ChunkSizes {
	size_t r = g_read_chunk_size, w = g_write_chunk_size;
	ChunkSizes(size_t rd, size_t wr) { g_read_chunk_size = rd; g_write_chunk_size = wr; }
	~ChunkSizes() { g_read_chunk_size = r; g_write_chunk_size = w; }
};
inline std::vector<std::string> list_dir(const std::string& d) {
	std::vector<std::string> v; DIR* h = opendir(d.c_str());
	if(h) { while(dirent* e = readdir(h)) { std::string n = e->d_name; if(n != "." && n != "..") v.push_back(n); } closedir(h); }
	std::sort(v.begin(), v.end()); return v;
}
inline std::string join(const std::vector<std::string>& v) { std::string s; for(auto& x : v) s += (s.empty() ? "" : ",") + x; return s; }

// Runs fn in a forked child (same process group). The child's exceptions, aborts and hangs become data.
struct Child { enum Kind { OK, EXC, SIG, EXIT, HANG } kind = OK; int code = 0; std::string what;
	bool ok() const { return kind == OK; }
	std::string str() const { static const char* n[] = {"completed", "exception", "signal", "exit", "hang"}; return std::string(n[kind]) + (kind == SIG || kind == EXIT ? " " + std::to_string(code) : "") + (what.empty() ? "" : ": " + what); } };
inline Child isolated(const std::string& scratch, const std::function<void()>& fn, double hang_s = 0) {
	const std::string ef = scratch + "child.err", mf = scratch + "child.msg";
	unlink(mf.c_str());
	pid_t p = fork();
	if(p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if(e >= 0) { dup2(e, 2); close(e); }
		int code = 0; std::string m;
		try { fn(); }
		catch(pbt::Failure& f) { code = 12; m = f.msg; }
		catch(const std::exception& x) { code = 11; m = x.what(); }
		if(code) { FILE* f = fopen(mf.c_str(), "w"); if(f) { fwrite(m.data(), 1, m.size(), f); fclose(f); } }
		_exit(code);
	}
	Child c; int st = 0; pbt::HangWatch hw(p, true); double last = pbt::now_s();
	if(p < 0) pbt::fail("fork failed");
	while(true) {
		pid_t r = waitpid(p, &st, hang_s > 0 ? WNOHANG : 0);
		if(r == p) break;
		if(r < 0 && errno != EINTR) break;
		if(pbt::now_s() - last > 0.25) { last = pbt::now_s(); if(hw.idle() > hang_s) { kill(p, SIGKILL); waitpid(p, &st, 0); c.kind = Child::HANG; return c; } }
		usleep(1000);
	}
	auto msg = [&]() { FILE* f = fopen(mf.c_str(), "r"); char b[1000]; size_t n = f ? fread(b, 1, sizeof b, f) : 0; if(f) fclose(f); return std::string(b, n); };
	if(WIFSIGNALED(st)) { if(WTERMSIG(st) == SIGKILL) throw pbt::Discard{"child killed"}; c.kind = Child::SIG; c.code = WTERMSIG(st); c.what = pbt::tail_of(ef, 600); }
	else if(WEXITSTATUS(st) == 0) c.kind = Child::OK;
	else if(WEXITSTATUS(st) == 12) pbt::fail(msg());
	else if(WEXITSTATUS(st) == 11) { c.kind = Child::EXC; c.what = msg(); }
	else { c.kind = Child::EXIT; c.code = WEXITSTATUS(st); c.what = pbt::tail_of(ef, 600); }
	return c;
}
