// Drives the real chia_plot program (built from src/chia_plot.cpp with stand-ins for the missing submodules).
#include "common.hpp"
#include "../engine/fault.hpp"
#include "../stubs/cli/bls.hpp"
#include "../stubs/cli/libbech32.h"
#include <memory>
#include <regex>
#include <optional>
#include <sys/wait.h>

typedef std::vector<uint8_t> Bytes;
static std::string hexs(const Bytes& b) { return hex(b.data(), b.size()); }
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); std::string s; char b[65536]; size_t n; while(f && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); if(f) fclose(f); return s; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if(!f) pbt::fail("harness: cannot write " + p); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static Bytes unhex(const std::string& s) { Bytes b; for(size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(strtol(s.substr(i, 2).c_str(), nullptr, 16)); return b; }
static Bytes sha(const Bytes& b) { Bytes h(32); vp::sha256(h.data(), b.data(), b.size()); return h; }

// ---- directory trees
typedef std::map<std::string, std::string> Tree;
static void snap(const std::string& root, const std::string& rel, Tree& t) {
	DIR* d = opendir((root + rel).c_str()); if(!d) return;
	while(dirent* e = readdir(d)) {
		const std::string n = e->d_name; if(n == "." || n == "..") continue;
		const std::string p = rel + n; struct stat st; if(lstat((root + p).c_str(), &st)) continue;
		if(S_ISDIR(st.st_mode)) { t[p + "/"] = "dir"; snap(root, p + "/", t); }
		else if(S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = readlink((root + p).c_str(), b, sizeof b); t[p] = "link " + std::string(b, k > 0 ? k : 0); }
		else if(n.size() > 5 && n.substr(n.size() - 5) == ".plot" && st.st_size > 100000) t[p] = "plot " + std::to_string(st.st_size);
		else t[p] = "file " + slurp(root + p);
	}
	closedir(d);
}
static Tree tree(const std::string& root) { Tree t; snap(root, "", t); return t; }
static std::string brief(const std::string& v) { return v.size() > 40 ? v.substr(0, 40) + "..(" + std::to_string(v.size()) + ")" : v; }
// nothing that was there before is changed or gone; returns what is new
static std::vector<std::string> check_kept(const Tree& a, const Tree& b) {
	std::vector<std::string> fresh;
	for(auto& e : a) { auto i = b.find(e.first); if(i == b.end()) pbt::fail("'" + e.first + "' existed before the run and is gone"); if(i->second != e.second) pbt::fail("'" + e.first + "' existed before the run and was changed: " + brief(e.second) + " -> " + brief(i->second)); }
	for(auto& e : b) if(!a.count(e.first)) fresh.push_back(e.first);
	return fresh;
}

// ---- running the program
struct Rand { std::vector<std::string> hexes; std::vector<std::set<std::string>> present; int sleeps = 0; };
static Rand read_rand(const std::string& f) { Rand r; std::istringstream is(slurp(f)); std::string l; while(std::getline(is, l)) { std::istringstream ls(l); std::string k; ls >> k; if(k == "S") r.sleeps++; if(k == "R") { std::string h, n; ls >> h; r.hexes.push_back(h); std::set<std::string> s; while(ls >> n) s.insert(n); r.present.push_back(s); } } return r; }
struct Run {
	bool k34 = false; std::vector<std::string> args; std::string dir, cwd, watch; uint64_t rnd = 1; fault::Shared* sh = nullptr; uint64_t nofile = 0; int maxsleep = 12;
	pid_t pid = -1; std::unique_ptr<pbt::HangWatch> hw; double last = 0;
	bool exited = false, hang = false; int status = 0;
	std::string out() const { return slurp(dir + "run.out"); }
	std::string err() const { return slurp(dir + "run.err"); }
	Rand rand() const { return read_rand(dir + "run.rnd"); }
	void start() {
		const char* bin = getenv(k34 ? "VP_BIN_CHIA_PLOT34" : "VP_BIN_CHIA_PLOT32"); if(!bin) pbt::fail("harness: program missing");
		for(auto n : {"run.out", "run.err", "run.rnd"}) unlink((dir + n).c_str());
		if(cwd.empty()) cwd = dir;
		pid = fork(); if(pid < 0) throw pbt::Discard{"fork"};
		if(pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			int o = open((dir + "run.out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open((dir + "run.err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(o, 1); dup2(e, 2);
			int z = open("/dev/null", O_RDONLY); dup2(z, 0); for(int i = 3; i < 64; ++i) close(i);
			setenv("VP_RAND", std::to_string(rnd).c_str(), 1); setenv("VP_RANDLOG", (dir + "run.rnd").c_str(), 1); setenv("VP_MAXSLEEP", std::to_string(maxsleep).c_str(), 1);
			if(!watch.empty()) setenv("VP_WATCH", watch.c_str(), 1);
			if(sh) setenv("VP_FAULT", (dir + "run.flt").c_str(), 1);
			if(nofile) { rlimit l = {nofile, nofile}; setrlimit(RLIMIT_NOFILE, &l); }
			if(chdir(cwd.c_str())) _exit(79);
			std::vector<char*> av; av.push_back((char*)"chia_plot"); for(auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
			execv(bin, av.data()); _exit(79);
		}
		hw.reset(new pbt::HangWatch(pid, true)); last = pbt::now_s();
	}
	// true once the program has ended
	bool poll() {
		if(exited) return true;
		if(waitpid(pid, &status, WNOHANG) == pid) { exited = true; return true; }
		if(pbt::now_s() - last > 0.3) { last = pbt::now_s(); if(hw->idle() > 40) { hang = true; stop(); return true; } }
		usleep(2000); return false;
	}
	void stop() { if(!exited) { kill(pid, SIGKILL); waitpid(pid, &status, 0); exited = true; } }
	void finish() { while(!poll()) {} if(WIFEXITED(status) && (WEXITSTATUS(status) == 78 || WEXITSTATUS(status) == 79)) throw pbt::Discard{"cannot start"}; }
	~Run() { if(pid > 0) stop(); }
	bool ok() const { return exited && !hang && WIFEXITED(status) && WEXITSTATUS(status) == 0; }
	bool killed() const { return exited && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL; }
	bool retrying() const { return exited && WIFEXITED(status) && WEXITSTATUS(status) == 77; }
	std::string str() const { std::string s = hang ? "hangs" : WIFSIGNALED(status) ? "ends with signal " + std::to_string(WTERMSIG(status)) : "exits with " + std::to_string(WEXITSTATUS(status)); std::string e = err(), o = out(); return s + ", stderr: " + (e.size() > 300 ? e.substr(e.size() - 300) : e) + ", stdout ends: " + (o.size() > 300 ? o.substr(o.size() - 300) : o); }
	std::string line() const { std::string s = k34 ? "chia_plot_k34" : "chia_plot"; for(auto& a : args) s += " " + (a.size() > 40 && a.find('/') == std::string::npos ? a.substr(0, 8) + ".." : a); return s; }
};
static fault::Shared* fault_file(const std::string& dir) {
	const std::string p = dir + "run.flt"; int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if(fd < 0 || ftruncate(fd, sizeof(fault::Shared))) pbt::fail("harness: fault file");
	void* m = mmap(nullptr, sizeof(fault::Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if(m == MAP_FAILED) pbt::fail("harness: mmap"); return (fault::Shared*)m;
}

// ---- keys
struct Keys {
	bool contract = false; bls::G1Element pool, farmer; Bytes puzzle; std::string addr;
	std::string pool_hex, farmer_hex;
};
static bls::G1Element gen_g1(Rng& r, int style) { bls::G1Element e; for(auto& v : e.v) v = style == 1 ? 0 : style == 2 ? ~uint64_t(0) : r.next(); return e; }
static std::string encode_addr(const std::string& hrp, const Bytes& h, uint32_t konst = 0x2bc830a3) {
	std::vector<unsigned char> dp; uint32_t acc = 0; int n = 0; for(auto b : h) { acc = acc << 8 | b; n += 8; while(n >= 5) { dp.push_back(acc >> (n - 5) & 31); n -= 5; } } if(n) dp.push_back(acc << (5 - n) & 31);
	return bech32::encode_as(hrp, dp, konst);
}
static Keys gen_keys(pbt::Src& s) {
	Keys k; Rng r(s.seed()); k.contract = s.coin(); k.farmer = gen_g1(r, s.pick({0, 0, 0, 0, 1, 2})); k.pool = gen_g1(r, s.pick({0, 0, 0, 0, 1, 2}));
	k.puzzle.resize(32); int st = s.draw(7); for(auto& b : k.puzzle) b = st == 6 ? 0 : st == 7 ? 0xff : r.next();
	k.addr = encode_addr(s.pick<const char*>({"xch", "txch", "xcc", "mmx", "a1b"}), k.puzzle);
	if(s.draw(5) == 5) for(auto& c : k.addr) c = toupper(c);
	k.pool_hex = hexs(k.pool.Serialize()); k.farmer_hex = hexs(k.farmer.Serialize());
	if(s.draw(5) == 5) for(auto& c : k.farmer_hex) c = toupper(c);
	return k;
}
static Bytes expect_id(const Keys& k, const bls::PrivateKey& master, int port, bool unique) {
	bls::AugSchemeMPL M; bls::PrivateKey sk = master; for(uint32_t i : {12381u, (uint32_t)port, 3u, 0u}) sk = M.DeriveChildSk(sk, i);
	const bls::G1Element local = sk.GetG1Element(); bls::G1Element plot = local + k.farmer; auto add = [](Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); };
	if(k.contract) { Bytes b = (local + k.farmer).Serialize(); add(b, local.Serialize()); add(b, k.farmer.Serialize()); plot = plot + M.KeyGen(sha(b)).GetG1Element(); }
	Bytes b = k.contract ? k.puzzle : k.pool.Serialize(); add(b, plot.Serialize());
	if(unique || port == 11337) { b = sha(b); for(int i = 0; i < 4; ++i) b.push_back((uint32_t)port >> (8 * i)); }
	return sha(b);
}
// which options a user can spell in two ways
static void opt(pbt::Src& s, std::vector<std::string>& a, const char* sh, const char* lg, const std::string& v) {
	switch(s.draw(2)) { case 0: a.push_back(sh); a.push_back(v); break; case 1: a.push_back(std::string(lg) + "=" + v); break; default: a.push_back(lg); a.push_back(v); }
}
static void key_args(pbt::Src& s, std::vector<std::string>& a, const Keys& k) {
	if(k.contract) opt(s, a, "-c", "--contract", k.addr); else opt(s, a, "-p", "--poolkey", k.pool_hex);
	opt(s, a, "-f", "--farmerkey", k.farmer_hex);
}
static const char* NAME_RE = "(plot(?:-mmx)?-k([0-9]+)-([0-9]{4}-[0-9]{2}-[0-9]{2}-[0-9]{2}-[0-9]{2})-([0-9a-f]{64}))";
// the name of the plot being made, as soon as it shows (on the console or in the working directories)
static std::optional<std::smatch> find_name(std::string& hold, const Run& r, const std::vector<std::string>& dirs) {
	static const std::regex re(NAME_RE); std::smatch m;
	hold = r.out(); const auto nl = hold.rfind('\n'); if(nl == std::string::npos) hold.clear(); else hold.resize(nl);
	if(std::regex_search(hold, m, re)) return m;
	for(auto& d : dirs) for(auto& n : list_dir(d)) { hold = n; if(std::regex_search(hold, m, re)) return m; }
	return {};
}
static std::string stamp(time_t t) { char b[64]; tm x; localtime_r(&t, &x); strftime(b, sizeof b, "%Y-%m-%d-%H-%M", &x); return b; }

// known findings of small k are not what these suites are about
static bool overfull(const std::string& id_hex, int k) { Bytes id = unhex(id_hex); ref::RefPlot R(k, id.data()); for(int t = 2; t <= 7; ++t) if(R.used[t] > (uint64_t(1) << k)) return true; return false; }
static void discard_overfull(const Run& r, int k) {
	if(r.err().find("bucket index out of range") == std::string::npos) return;
	static const std::regex re(NAME_RE); std::string o = r.out(); std::sregex_iterator i(o.begin(), o.end(), re), e; std::set<std::string> ids; for(; i != e; ++i) ids.insert((*i)[4]);
	for(auto& x : ids) if(overfull(x, k)) throw pbt::Discard{"known finding: a table keeps more than 2^k entries"};
}

// ---- C21: id, memo, name
struct Made { std::string dir, name; };
static void derive(Ctx& c) {
	Run r; r.dir = c.dir; r.k34 = c.s.coin(); r.rnd = c.s.seed(); Keys k = gen_keys(c.s);
	const int kk = c.s.pick({16, 17, 20, 25, 31, 32}) ; const int port = c.s.pick({8444, 9699, 11337, 11337, 0, 1, 65535, 8445, 443, 58444}); const bool uniq = c.s.coin(), fixed = c.s.draw(3) == 3; Bytes id(32); Rng g(c.s.seed()); for(auto& b : id) b = g.next();
	const std::string t = c.dir + "t/"; mkdir(t.c_str(), 0777);
	opt(c.s, r.args, "-k", "--size", std::to_string(kk)); if(port != 8444 || c.s.coin()) opt(c.s, r.args, "-x", "--port", std::to_string(port)); if(uniq) r.args.push_back(c.s.coin() ? "-Z" : "--unique");
	key_args(c.s, r.args, k); if(fixed) opt(c.s, r.args, "-i", "--id", hexs(id)); opt(c.s, r.args, "-t", "--tmpdir", t); r.args.push_back("-u"); r.args.push_back("16"); r.args.push_back("-r"); r.args.push_back("1");
	c.desc << r.line() << (k.contract ? " contract" : " pool key") << " rand=" << r.rnd; c.publish();
	const time_t t0 = time(nullptr); r.start(); std::string hold; std::optional<std::smatch> m;
	bool end = false; while(!(m = find_name(hold, r, {t})) && !end) end = r.poll();
	if(!m) m = find_name(hold, r, {t});
	r.stop(); const time_t t1 = time(nullptr);
	PBT_CHECK(m, "no plot was begun: " << r.str());
	const Rand rr = r.rand(); std::string rh; for(auto& h : rr.hexes) rh += h;
	PBT_CHECK(rh.size() >= 64, "the master key is made from " << rh.size() / 2 << " random bytes");
	if(rh.size() != 64) throw pbt::Discard{"random bytes drawn in another way"};
	const bls::PrivateKey master = bls::AugSchemeMPL().KeyGen(unhex(rh));
	const Bytes want = fixed ? id : expect_id(k, master, port, uniq);
	PBT_CHECK((*m)[4] == hexs(want), "plot id is " << (*m)[4] << ", the keys give " << hexs(want));
	PBT_CHECK((*m)[2] == std::to_string(kk), "name says k=" << (*m)[2]);
	const std::string full = (*m)[1]; PBT_CHECK((full.compare(0, 8, "plot-mmx") == 0) == (port == 11337), "name " << full << " for port " << port);
	PBT_CHECK((*m)[3] == stamp(t0) || (*m)[3] == stamp(t1) , "date in the name is " << (*m)[3]);
	c.nontrivial = !fixed; c.label(k.contract ? "contract" : "pool key"); c.label("port " + std::to_string(port)); if(uniq) c.label("unique"); if(fixed) c.label("fixed id");
}
static void derive_plot(Ctx& c) {
	Run r; r.dir = c.dir; r.k34 = c.s.coin(); r.rnd = c.s.seed(); Keys k = gen_keys(c.s);
	const int kk = c.s.pick({16, 16, 16, 17}); const int port = c.s.pick({8444, 9699, 11337, 0, 65535}); const bool uniq = c.s.coin(), fixed = c.s.draw(3) == 3; Bytes id(32); Rng g(c.s.seed()); for(auto& b : id) b = g.next(); const int n = fixed ? 1 : c.s.pick({1, 1, 2, 3});
	const std::string t = c.dir + "t/", d = c.dir + "d/"; mkdir(t.c_str(), 0777); mkdir(d.c_str(), 0777); const bool move = c.s.coin();
	r.args = {"-k", std::to_string(kk), "-x", std::to_string(port), "-t", t, "-u", c.s.pick<const char*>({"16", "32"}), "-r", c.s.pick<const char*>({"4", "1", "2", "8"})}; if(move) { r.args.push_back("-d"); r.args.push_back(d); } if(uniq) r.args.push_back("-Z"); if(n > 1) { r.args.push_back("-n"); r.args.push_back(std::to_string(n)); } key_args(c.s, r.args, k); if(fixed) { r.args.push_back("-i"); r.args.push_back(hexs(id)); }
	c.desc << r.line() << (k.contract ? " contract" : " pool key") << " rand=" << r.rnd; c.publish();
	r.start(); r.finish(); discard_overfull(r, kk);
	PBT_CHECK(r.ok(), "the run fails: it " << r.str());
	const auto files = list_dir(move ? d : t); PBT_CHECK((int)files.size() == n, "after a run of " << n << " plots the directory has: " << join(files)); std::set<std::string> secrets; std::string rh; for(auto& h : r.rand().hexes) rh += h; PBT_CHECK((int)rh.size() >= 64 * n, n << " master keys are made from " << rh.size() / 2 << " random bytes");
	for(auto& name : files) {
	static const std::regex re(std::string("^") + NAME_RE + "\\.plot$"); std::smatch m; PBT_CHECK(std::regex_match(name, m, re), "odd name " << name);
	ref::Plot p; try { p.parse((move ? d : t) + name); } catch(ref::Bad& e) { pbt::fail(std::string("plot cannot be read: ") + e.what()); }
	PBT_CHECK(p.k == kk, "k in the header is " << p.k); PBT_CHECK(hex(p.id.data(), 32) == m[4], "id in the header and in the name differ");
	const Bytes lead = k.contract ? k.puzzle : k.pool.Serialize(), fk = k.farmer.Serialize();
	PBT_CHECK(p.memo.size() == lead.size() + 48 + 32, "memo has " << p.memo.size() << " bytes");
	PBT_CHECK(std::equal(lead.begin(), lead.end(), p.memo.begin()), "memo does not start with the pool key or puzzle hash"); PBT_CHECK(std::equal(fk.begin(), fk.end(), p.memo.begin() + lead.size()), "memo does not have the farmer key");
	const bls::PrivateKey master = bls::PrivateKey::FromByteVector(Bytes(p.memo.end() - 32, p.memo.end()));
	const Bytes want = fixed ? id : expect_id(k, master, port, uniq);
	PBT_CHECK(m[4] == hexs(want), "plot id is " << m[4] << ", the keys and the master secret in the memo give " << hexs(want));
	const std::string secret = hexs(master.Serialize()); PBT_CHECK(secrets.insert(secret).second, "two plots of a run have the same master secret");
	if((int)rh.size() == 64 * n) { bool known = false; for(int i = 0; i < n; ++i) known |= hexs(bls::AugSchemeMPL().KeyGen(unhex(rh.substr(64 * i, 64))).Serialize()) == secret; PBT_CHECK(known, "the secret in the memo is not the master secret"); }
	if(!p.tail_unreadable && c.s.coin()) { try { ref::verify_all(p); } catch(ref::Bad& e) { pbt::fail(std::string("proofs do not verify for the id: ") + e.what()); } }
	}
	c.nontrivial = true; if(n > 1) c.label("several plots"); c.label(k.contract ? "contract" : "pool key"); c.label("port " + std::to_string(port)); if(fixed) c.label("fixed id");
}

// ---- C20: command lines
static bool is_hex(const std::string& s) { for(unsigned char ch : s) if(!isxdigit(ch)) return false; return s.size() % 2 == 0; }
static int log_of(int n) { if(n < 16) return n; int l = 0; while((n >> (l + 1)) > 0) ++l; return l; }
static std::string mangle_hex(pbt::Src& s, const std::string& h) {
	std::string x = h;
	switch(s.draw(9)) {
		case 0: return x.substr(0, x.size() - 2); case 1: return x + "00"; case 2: return x.substr(1); case 3: return x + "0"; case 4: return "0x" + x; case 5: return x.substr(0, x.size() / 2);
		case 6: x[s.draw(x.size() - 1)] = s.pick({'g', 'x', ' ', '-', 'O', 'z', '+', '.'}); return x; case 7: return "0x" + x.substr(2); case 8: { size_t i = s.draw(x.size() / 2 - 1) * 2; x[i] = s.pick({' ', '+', '-'}); return x; } default: return "abc";
	}
}
static void options(Ctx& c) {
	Run r; r.dir = c.dir; r.k34 = c.s.coin(); r.rnd = c.s.seed(); const int KTOP = r.k34 ? 34 : 32; Keys key = gen_keys(c.s); std::string why;
	auto refuse = [&](const std::string& w) { why += (why.empty() ? "" : "; ") + w; };
	const std::string root = c.dir + "w/"; mkdir(root.c_str(), 0777);
	std::vector<std::string> names = {"a", "b", "c", "d"}; for(auto& n : names) mkdir((root + n).c_str(), 0777);
	for(uint64_t i = 0, n = c.s.draw(3); i < n; ++i) spit(root + c.s.pick(names) + "/" + c.s.pick<const char*>({"x.plot", "notes", ".hidden", "plot-k32-old.plot.tmp"}), std::string(c.s.draw(300), 'z'));
	spit(root + "file", "x");
	// one to three things are off in most cases
	const int nbad = c.s.pick({0, 0, 1, 1, 1, 1, 1, 2, 3}); std::set<int> bad; for(int i = 0; i < nbad; ++i) bad.insert(c.s.draw(14));
	int k = c.s.pick({16, 17, 24, 31, 32, 32, 32}); if(r.k34 && c.s.draw(2) == 2) k = c.s.pick({33, 34});
	if(bad.count(0)) k = c.s.pick({15, KTOP + 1, 0, -1, -32, 1, 8, 35, 50, 64, 100, 255, 256 + 32, 1000000});
	if(k < 16 || k > KTOP) refuse("k=" + std::to_string(k));
	if(c.s.draw(3) || k != 32) opt(c.s, r.args, "-k", "--size", std::to_string(k)); else k = 32;
	int th = c.s.pick({1, 2, 4, 7, 16, 64, 200, 1023, 1024}); bool have_th = c.s.draw(3); if(bad.count(1)) { th = c.s.pick({0, -1, 1025, 5000, -1024, 1 << 20}); have_th = true; }
	if(!have_th) th = 4; if(th < 1 || th > 1024) refuse("threads=" + std::to_string(th)); if(have_th) opt(c.s, r.args, "-r", "--threads", std::to_string(th));
	{ int K = c.s.range(1, 8); bool have_K = c.s.draw(3) == 3; if(bad.count(14)) { K = c.s.pick({0, -1, -4, -1000000}); have_K = true; refuse("P2 thread multiplier " + std::to_string(K)); } if(have_K) opt(c.s, r.args, "-K", "--rmulti2", std::to_string(K)); }
	auto buckets = [&](int lim) { int l = c.s.range(4, std::min(c.s.draw(7) == 7 ? 13 : 9, lim)); switch(c.s.draw(2)) { case 0: return 1 << l; case 1: return l; default: return std::min((1 << l) + (int)c.s.draw((1 << l) - 1), 1 << 13); } };
	auto bad_buckets = [&]() { return c.s.pick({0, 1, 2, 3, -1, -16, 131072, 131073, 262144, 1 << 30}); };
	int u = buckets((k + 6) / 2), v = 0; bool have_u = c.s.draw(3), have_v = c.s.coin(); if(have_v) v = buckets(std::max(4, k / 2)); if(bad.count(2)) { u = bad_buckets(); have_u = true; } if(bad.count(3)) { v = bad_buckets(); have_v = true; }
	if(bad.count(12)) { have_u = true; u = c.s.pick({8, 9, 10, 12, 16, 15, 512, 1024, 4096, 65536}); }
	if(!have_u) u = 256; if(have_u) opt(c.s, r.args, "-u", "--buckets", std::to_string(u)); if(have_v) opt(c.s, r.args, "-v", "--buckets3", std::to_string(v));
	const int lu = log_of(u), lv = have_v && v > 0 ? log_of(v) : lu;
	if(lu < 4 || lu > 16) refuse("buckets"); if(lv < 4 || lv > 16) refuse("buckets3");
	else if(k >= 16 && (2 * lu > k + 6 || 2 * lv > k)) refuse("more buckets than the key has room for");
	// directories
	auto path = [&](const std::string& n) { return root + n + (c.s.draw(7) == 7 ? "//" : "/"); };
	std::string t = path(c.s.pick(names)), t2 = path(c.s.pick(names)), d = path(c.s.pick(names)), st = path(c.s.pick(names)); bool h2 = c.s.coin(), hd = c.s.coin(), hs = c.s.draw(3) == 3, G = c.s.draw(3) == 3, ht = true;
	auto spoil = [&](std::string& p) { switch(c.s.draw(3)) { case 0: p = root + "a"; break; case 1: p = root + "missing/"; break; case 2: p = root + "file/"; break; default: p = root + "a/sub/"; } refuse("directory " + p); };
	if(hs && G) { if(bad.count(4)) refuse("stagedir and tmptoggle"); else G = false; } else if(bad.count(4)) { hs = G = true; refuse("stagedir and tmptoggle"); }
	if(bad.count(5)) { ht = false; refuse("no tmpdir"); } if(bad.count(6)) { switch(c.s.draw(3)) { case 0: if(ht) spoil(t); break; case 1: h2 = true; spoil(t2); break; case 2: hd = true; spoil(d); break; default: if(!G) { hs = true; spoil(st); } } }
	if(ht) opt(c.s, r.args, "-t", "--tmpdir", t); if(h2) opt(c.s, r.args, "-2", "--tmpdir2", t2); if(hd) opt(c.s, r.args, "-d", "--finaldir", d); if(hs) opt(c.s, r.args, "-s", "--stagedir", st); if(G) r.args.push_back("-G"); if(c.s.draw(3) == 3) r.args.push_back("-w"); if(c.s.draw(3) == 3) r.args.push_back("-D");
	// keys
	bool hp = !key.contract, hc = key.contract, hf = true, hi = c.s.draw(3) == 3; std::string pk = key.pool_hex, ca = key.addr, fk = key.farmer_hex; Bytes id(32); Rng g(c.s.seed()); for(auto& b : id) b = g.next(); std::string ids = hexs(id);
	bool late = false;	// may also be noticed later (a point that is not on the curve), as long as it is refused
	if(bad.count(7)) { if(c.s.coin()) { hp = hc = false; refuse("no pool key and no contract"); } else { hp = hc = true; refuse("pool key and contract"); } }
	if(bad.count(8)) { hf = false; refuse("no farmer key"); }
	auto spoil_key = [&](std::string& h, const char* w) { if(c.s.draw(3) == 3) { Bytes b = unhex(h); b[32 + c.s.draw(15)] ^= 1 << c.s.draw(7); h = hexs(b); refuse(std::string(w) + " is not a point"); late = true; } else { const std::string o = h; h = mangle_hex(c.s, h); if(unhex(h).size() != 48 || !is_hex(h)) refuse(std::string("malformed ") + w); else if(h != o) { refuse(std::string(w) + " is not a point"); late = true; } } };
	if(bad.count(9) && hf) spoil_key(fk, "farmer key");
	if(bad.count(10)) { if(hp) spoil_key(pk, "pool key"); else if(hc) { std::string o = ca; switch(c.s.draw(6)) {
			case 0: ca[ca.size() - 1 - c.s.draw(20)] ^= 1; break; case 1: ca = encode_addr("xch", key.puzzle, 1); break; case 2: { Bytes h = key.puzzle; h.pop_back(); ca = encode_addr("xch", h); break; } case 3: { Bytes h = key.puzzle; h.push_back(0); ca = encode_addr("xch", h); break; }
			case 4: ca = ca.substr(0, ca.size() - 1); break; case 5: ca = "xch1"; break; default: ca = encode_addr("xch", Bytes(20, 7)); }
			bool good = false; try { auto q = bech32::decode(ca); good = q.encoding == bech32::Bech32m && q.dp.size() == 52; } catch(std::exception&) {} if(!good) refuse("malformed contract address"); else if(ca != o) throw pbt::Discard{"another valid address"}; } }
	if(bad.count(11)) { hi = true; ids = mangle_hex(c.s, ids); if(unhex(ids).size() != 32 || !is_hex(ids)) refuse("malformed id"); }
	if(hp) opt(c.s, r.args, "-p", "--poolkey", pk); if(hc) opt(c.s, r.args, "-c", "--contract", ca); if(hf) opt(c.s, r.args, "-f", "--farmerkey", fk); if(hi) opt(c.s, r.args, "-i", "--id", ids);
	if(bad.count(13)) { r.nofile = c.s.pick({24, 30, 40, 60}); if((1 << std::max(lu, lv)) + 2 * th + 32 > (int)r.nofile + 2) { refuse("open file limit"); } else r.nofile = 0; }
	if(why.empty()) { rlimit l; if(getrlimit(RLIMIT_NOFILE, &l) == 0 && l.rlim_max != RLIM_INFINITY && (uint64_t)(1 << std::max(lu, lv)) + 2 * th + 60 > l.rlim_max) throw pbt::Discard{"this machine does not allow that many open files"}; }
	const bool zero = !late && c.s.coin(); if(zero || c.s.coin()) opt(c.s, r.args, "-n", "--count", zero ? "0" : "1");
	// order does not matter
	if(c.s.coin()) { std::vector<std::vector<std::string>> groups; for(size_t i = 0; i < r.args.size();) { std::vector<std::string> gr = {r.args[i++]}; while(i < r.args.size() && r.args[i][0] != '-') gr.push_back(r.args[i++]); if(i < r.args.size() && r.args[i].size() > 1 && isdigit(r.args[i][1]) && (gr[0].find('=') == std::string::npos) && r.args[i] != "-2" && gr.size() == 1 && gr[0] != "-G" && gr[0] != "-w" && gr[0] != "-D") gr.push_back(r.args[i++]); groups.push_back(gr); } Rng q(c.s.seed()); for(size_t i = groups.size(); i > 1; --i) std::swap(groups[i - 1], groups[q.below(i)]); r.args.clear(); for(auto& gr : groups) for(auto& a : gr) r.args.push_back(a); }
	c.desc << r.line() << " expected: " << (why.empty() ? "accepted" : "refused for " + why); c.publish();
	const Tree before = tree(root); r.cwd = root; r.start(); std::string hold; std::optional<std::smatch> m; const std::vector<std::string> dirs = {t};
	bool end = false; while(!end && !(m = why.empty() && !zero ? find_name(hold, r, dirs) : std::nullopt)) { end = r.poll(); if(!why.empty() && !r.rand().hexes.empty() && !late) { r.stop(); pbt::fail("the command line should be refused (" + why + ") but a plot is begun"); } }
	if(!m && why.empty() && !zero) m = find_name(hold, r, dirs);
	if(WIFEXITED(r.status) && r.exited && (WEXITSTATUS(r.status) == 78 || WEXITSTATUS(r.status) == 79)) throw pbt::Discard{"cannot start"};
	if(why.empty()) {
		if(zero) { PBT_CHECK(r.ok(), "valid command line is not accepted: the program " << r.str()); PBT_CHECK(tree(root) == before, "a run of no plots changed a directory"); }
		else {
			PBT_CHECK(m, "valid command line is not accepted: the program " << r.str());
			PBT_CHECK((*m)[2] == std::to_string(k), "k is " << (*m)[2]); if(hi) { std::string low = ids; for(auto& ch : low) ch = tolower(ch); PBT_CHECK((*m)[4] == low, "id is " << (*m)[4]); }
			// what the program says it does
			usleep(1000); const std::string o = r.out(); std::smatch q; auto said = [&](const char* re, long want) { if(std::regex_search(o, q, std::regex(re))) PBT_CHECK(atol(q[1].str().c_str()) == want, "the program says '" << q[0].str() << "', the command line gives " << want); };
			said("Number of Threads: *(-?[0-9]+)", th); said("Buckets P1: *2\\^([0-9]+)", lu); said("Buckets P3\\+P4: *2\\^([0-9]+)", lv);
		}
		r.stop(); c.label("accepted");
	} else {
		r.finish(); PBT_CHECK(!r.ok(), "the command line should be refused (" << why << ") but the program reports success"); PBT_CHECK(!r.hang, "the program hangs");
		PBT_CHECK(!(WIFSIGNALED(r.status) && WTERMSIG(r.status) != SIGABRT), "the command line should be refused (" << why << ") but the program " << r.str());
		PBT_CHECK(!r.out().empty() || !r.err().empty(), "refused without a message");
		const Tree after = tree(root); auto fresh = check_kept(before, after); PBT_CHECK(fresh.empty(), "refused (" << why << "), but left behind: " << join(fresh).substr(0, 300));
		c.label("refused");
	}
	c.nontrivial = true; for(int b : bad) c.label("defect " + std::to_string(b));
}

// ---- C19, C22: runs
struct Layout {
	std::string root; std::string t, t2, d, s; bool h2, hd, hs, G, D, w; int n;
	// directories as they resolve
	bool plain() const { for(auto& p : {t, t2, d, s}) if(p.find("/lb") != std::string::npos) return false; return true; }	// the stand-in for a second file system goes by name
	std::string key(const std::string& p) const { char b[4096]; return realpath(p.c_str(), b) ? b : p; }
};
static Layout gen_layout(pbt::Src& s, const std::string& root, int n) {
	Layout L; L.root = root; L.n = n; mkdir(root.c_str(), 0777);
	static const std::vector<std::string> base = {"a", "b", "c", "d", "a/in", "c/in"}; for(auto& b : base) mkdir((root + b).c_str(), 0777);
	if(symlink("b", (root + "lb").c_str())) {}
	auto pick = [&]() { std::string p = base[s.draw(base.size() - 1)]; if(s.draw(9) == 9) p = "lb"; switch(s.draw(7)) { case 6: return root + p + "//"; case 7: return root + "./" + p + "/"; default: return root + p + "/"; } };
	L.t = pick(); L.h2 = s.coin(); L.t2 = L.h2 ? pick() : L.t; L.hd = s.draw(3); L.d = L.hd ? pick() : L.t; L.G = s.draw(3) == 3; L.hs = !L.G && s.draw(2) == 2; L.s = L.hs ? pick() : L.t; L.D = s.draw(3) == 3; L.w = s.draw(3) == 3;
	return L;
}
static void layout_args(pbt::Src& s, const Layout& L, std::vector<std::string>& a) {
	opt(s, a, "-t", "--tmpdir", L.t); if(L.h2) opt(s, a, "-2", "--tmpdir2", L.t2); if(L.hd) opt(s, a, "-d", "--finaldir", L.d); if(L.hs) opt(s, a, "-s", "--stagedir", L.s);
	if(L.G) a.push_back(s.coin() ? "-G" : "--tmptoggle"); if(L.D) a.push_back(s.coin() ? "-D" : "--directout"); if(L.w) a.push_back(s.coin() ? "-w" : "--waitforcopy");
	if(L.n != 1 || s.coin()) opt(s, a, "-n", "--count", std::to_string(L.n));
}
static void bystanders(pbt::Src& s, const Layout& L) {
	static const std::vector<std::string> names = {"plot-k16-2021-01-01-00-00-0000000000000000000000000000000000000000000000000000000000000000.plot", "plot-k16-2021-01-01-00-00-00.plot.tmp", "x.p1.t1.tmp", "plot.p2.table7.tmp", "p3s1.t2.sort_bucket_0.tmp", "readme.txt", ".hidden", "movie.mkv", "plot", "sub"};
	for(uint64_t i = 0, n = s.draw(8); i < n; ++i) {
		const std::string d = s.pick({std::string("a/"), std::string("b/"), std::string("c/"), std::string("d/"), std::string("a/in/"), std::string("c/in/"), std::string("")}), nm = names[s.draw(names.size() - 1)];
		if(access((L.root + d + nm).c_str(), F_OK) == 0) continue;
		switch(s.draw(5)) { case 4: mkdir((L.root + d + nm).c_str(), 0777); break; case 5: if(symlink("nowhere", (L.root + d + nm).c_str())) {} break; default: spit(L.root + d + nm, std::string(s.draw(2000), 'b')); if(s.draw(3) == 3) chmod((L.root + d + nm).c_str(), 0444); }
	}
}
// the plot files a run may have made: complete, and where they belong
static std::string check_plot(const std::string& path, int k, bool deep) {
	ref::Plot p; try { p.parse(path); } catch(ref::Bad& e) { pbt::fail("'" + path.substr(path.rfind('/') + 1) + "' is not a complete plot: " + e.what()); }
	PBT_CHECK(p.k == k, "k in the header is " << p.k); const std::string name = path.substr(path.rfind('/') + 1), id = hex(p.id.data(), 32); PBT_CHECK(name.find(id) != std::string::npos, "the file is named " << name << " but holds the plot " << id);
	PBT_CHECK(p.f7.size() > 20000 || p.tail_unreadable, "plot has only " << p.f7.size() << " proofs");
	if(deep && !p.tail_unreadable) { try { ref::verify_all(p); } catch(ref::Bad& e) { pbt::fail(std::string("invalid proof: ") + e.what()); } }
	return id;
}
static bool is_plot_name(const std::string& p) { static const std::regex re(std::string(NAME_RE) + "\\.plot$"); const std::string n = p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1); return std::regex_match(n, re); }
static bool allowed_dir(const Layout& L, const std::string& file) {
	const std::string d = L.key(file.substr(0, file.rfind('/') + 1)); if(d == L.key(L.d)) return true;
	// alternating directories without a separate destination: the plots stay in the temporary directories
	if(L.G && L.key(L.d) == L.key(L.s)) return d == L.key(L.t) || d == L.key(L.t2);
	if(L.G && L.d == L.s) return d == L.key(L.t) || d == L.key(L.t2);
	return false;
}
static void base_run(Ctx& c, Run& r, const Keys& k) { r.dir = c.dir; r.k34 = c.s.draw(3) == 3; r.rnd = c.s.seed(); r.args = {"-k", "16", "-u", c.s.pick<const char*>({"16", "16", "32", "4"}), "-r", c.s.pick<const char*>({"4", "2", "1", "3", "8"})}; if(c.s.draw(7) == 7) { r.args.push_back("-v"); r.args.push_back(c.s.pick<const char*>({"32", "64"})); } if(c.s.draw(7) == 7) { r.args.push_back("-K"); r.args.push_back("2"); } key_args(c.s, r.args, k); }

static void leftovers(Ctx& c) {
	Run r; Keys k = gen_keys(c.s); base_run(c, r, k); Layout L = gen_layout(c.s, c.dir + "w/", c.s.pick({1, 1, 1, 1, 2, 2, 3})); layout_args(c.s, L, r.args); bystanders(c.s, L);
	fault::Shared* sh = nullptr; const bool vol = c.s.draw(2) == 2 && L.plain(); if(vol) { sh = fault_file(c.dir); fault::setup(sh, L.root, "", 0, 0, 0, fault::NONE, 0); const std::string v = L.key(L.d) + "/"; strncpy(sh->volume, v.c_str(), sizeof(sh->volume) - 1); r.sh = sh; }
	c.desc << r.line() << (vol ? " (final directory on another file system)" : "") << " rand=" << r.rnd; c.publish();
	const Tree before = tree(L.root); r.cwd = L.root; r.start(); r.finish(); if(sh) munmap(sh, sizeof *sh); discard_overfull(r, 16);
	PBT_CHECK(r.ok(), "the run fails: it " << r.str());
	auto fresh = check_kept(before, tree(L.root)); int plots = 0;
	for(auto& f : fresh) { PBT_CHECK(is_plot_name(f), "the run left '" << f << "' behind"); PBT_CHECK(allowed_dir(L, L.root + f), "the run left '" << f << "' outside the final directory"); plots++; }
	c.nontrivial = plots > 0 && (before.size() > 7 || L.hd || L.hs || L.h2); c.label("plots " + std::to_string(plots)); if(L.G) c.label("tmptoggle"); if(L.D) c.label("directout"); if(L.hs) c.label("stagedir"); if(vol) c.label("copied");
}
static void delivery(Ctx& c) {
	Run r; Keys k = gen_keys(c.s); base_run(c, r, k); Layout L = gen_layout(c.s, c.dir + "w/", c.s.pick({1, 2, 2, 3, 3, 4})); layout_args(c.s, L, r.args);
	// slow or failing copies, the final directory on another file system
	fault::Shared* sh = nullptr; int f = c.s.draw(5); if(f >= 1 && (!L.plain() || getenv("VP_SAN"))) f = 0; const bool vol = f >= 2; if(f >= 1) {
		sh = fault_file(c.dir); const std::string v = L.key(L.d) + "/";
		if(f == 1 || f == 2) fault::setup(sh, v, "", 0, 0, 0, fault::NONE, 0);
		else if(f == 3) fault::setup(sh, v, ".plot", fault::WRITE | fault::RENAME, c.s.draw(3), c.s.draw(2), fault::DELAY, 0);
		else fault::setup(sh, v, ".plot", c.s.pick<uint32_t>({fault::RENAME, fault::OPEN, fault::WRITE}), c.s.draw(2), 1 + c.s.draw(2), fault::ERR, c.s.pick({EIO, ENOSPC, EACCES}));
		if(vol) strncpy(sh->volume, v.c_str(), sizeof(sh->volume) - 1); r.sh = sh; }
	auto below = [&](const std::string& p) { return (L.key(p) + "/").compare(0, L.key(L.d).size() + 1, L.key(L.d) + "/") == 0; };
	const bool copies = L.d != L.s && !L.D; if(f >= 4 && (!copies || below(L.s) || below(L.t) || below(L.t2))) { f = 2; sh->ops = 0; }	// faults only where the program retries
	r.watch = L.d;
	c.desc << r.line() << (vol ? " (final directory on another file system)" : "") << (f == 3 ? " (slow copy)" : f > 3 ? " (copy fails " + std::to_string(sh->times) + " times: " + fault::op_name(sh->ops) + ")" : "") << " rand=" << r.rnd; c.publish();
	const Tree before = tree(L.root); r.cwd = L.root; r.start(); r.finish(); const uint64_t fired = sh ? sh->fired.load() : 0; if(sh) munmap(sh, sizeof *sh); discard_overfull(r, 16);
	if(r.hang && f > 3) throw pbt::Discard{"waiting to repeat the copy"};
	PBT_CHECK(r.ok(), "the run fails: it " << r.str());
	std::set<std::string> ids; int n = 0; const Tree after = tree(L.root);
	for(auto& e : after) if(!before.count(e.first) && is_plot_name(e.first)) { PBT_CHECK(allowed_dir(L, L.root + e.first), "plot '" << e.first << "' is not in the final directory"); ids.insert(check_plot(L.root + e.first, 16, c.s.draw(3) == 3)); n++; }
	PBT_CHECK(n == L.n, n << " plots in the final directory, " << L.n << " were asked for"); PBT_CHECK((int)ids.size() == n, "the plots are not distinct");
	// -w: the copy of a plot ends before the next plot is begun
	const Rand rr = r.rand(); if(L.w && copies && !L.G) for(size_t i = 1; i < rr.present.size() && rr.hexes[i].size() == 64; ++i) { int have = 0; for(auto& p : rr.present[i]) if(!before.count(p)) have++; PBT_CHECK(have >= (int)i, "with -w, plot " << i + 1 << " was begun while only " << have << " of " << i << " plots had been delivered"); c.label("-w observed"); }
	c.nontrivial = L.n > 1 || fired; c.label("plots " + std::to_string(L.n)); if(f == 3) c.label("slow copy"); if(f > 3 && fired) c.label("failing copy"); if(L.G) c.label("tmptoggle"); if(L.D) c.label("directout"); if(L.w) c.label("waitforcopy"); if(vol) c.label("other file system");
}
static void interrupt(Ctx& c) {
	Run r; Keys k = gen_keys(c.s); base_run(c, r, k); Layout L = gen_layout(c.s, c.dir + "w/", c.s.pick({-1, 6, 8, 2, 3})); layout_args(c.s, L, r.args);
	const int sig = c.s.pick({SIGINT, SIGTERM}); const int at = 1 + c.s.draw(1); const double wait = c.s.draw(600) / 1000.0; const bool twice = c.s.draw(3) == 3;
	fault::Shared* sh = nullptr; int f = L.plain() ? c.s.draw(5) : 0; auto below = [&](const std::string& p) { return (L.key(p) + "/").compare(0, L.key(L.d).size() + 1, L.key(L.d) + "/") == 0; };
	if(f > 3 && (L.d == L.s || L.D || below(L.s) || below(L.t) || below(L.t2))) f = 3;	// faults only where the program retries
	if(f) { sh = fault_file(c.dir); const std::string v = L.key(L.d) + "/"; const bool bad = f > 3; const uint32_t bop = c.s.pick<uint32_t>({fault::RENAME, fault::OPEN, fault::WRITE}); const int bn = c.s.draw(2), be = c.s.pick({EIO, ENOSPC, EACCES}); fault::setup(sh, v, ".plot", bad ? bop : fault::WRITE | fault::RENAME, 0, bad ? 1 + bn : 2, bad ? fault::ERR : f == 2 ? fault::DELAY : fault::NONE, bad ? be : 0); strncpy(sh->volume, v.c_str(), sizeof(sh->volume) - 1); r.sh = sh; }
	c.desc << r.line() << " signal " << sig << " " << wait << " s into plot " << at << (twice ? ", again 1.3 s later" : "") << (f ? " (final directory on another file system)" : "") << (f == 2 ? " (slow copy)" : f > 3 ? " (copy fails " + std::to_string(sh->times) + " times: " + fault::op_name(sh->ops) + ")" : "") << " rand=" << r.rnd; c.publish();
	const Tree before = tree(L.root); r.cwd = L.root; r.start(); bool end = false;
	while(!end && (int)r.rand().hexes.size() < at) end = r.poll();
	for(double t = pbt::now_s(); !end && pbt::now_s() - t < wait;) end = r.poll();
	int b0 = 0; bool sent = false; if(!end) { b0 = r.rand().hexes.size(); sent = kill(r.pid, sig) == 0; }
	const double t0 = pbt::now_s(); bool again = false; while(!end) { end = r.poll(); if(twice && !again && pbt::now_s() - t0 > 1.3) { again = true; if(!end) kill(r.pid, sig); } if(!end && (int)r.rand().hexes.size() > b0 + 2) { r.stop(); pbt::fail("after the interrupt during plot " + std::to_string(b0) + " the program goes on making plots"); } }
	const uint64_t fired = sh && f > 3 ? sh->fired.load() : 0; if(sh) munmap(sh, sizeof *sh); discard_overfull(r, 16); if(r.hang && f > 3) throw pbt::Discard{"waiting to repeat the copy"}; if(!sent) throw pbt::Discard{"ended before the signal"};
	if(twice && !r.ok() && WIFEXITED(r.status) && WEXITSTATUS(r.status) == 252) throw pbt::Discard{"the second signal came within a second of the first"};
	PBT_CHECK(r.ok(), "after an interrupt the run ends badly: it " << r.str());
	int n = 0; for(auto& e : tree(L.root)) if(!before.count(e.first)) { PBT_CHECK(is_plot_name(e.first), "the interrupted run left '" << e.first << "' behind"); PBT_CHECK(allowed_dir(L, L.root + e.first), "plot '" << e.first << "' is not in the final directory"); check_plot(L.root + e.first, 16, false); n++; }
	const int begun = r.rand().hexes.size(); PBT_CHECK(n == begun, begun << " plots were begun but " << n << " delivered"); PBT_CHECK(n >= b0 && n <= b0 + 1, "interrupted during plot " << b0 << ", but " << n << " plots were made"); if(L.n > 0) PBT_CHECK(n <= L.n, n << " plots made, " << L.n << " asked for");
	c.nontrivial = L.n < 0 || L.n > n; c.label("signal " + std::to_string(sig)); if(f) c.label("other file system"); if(fired) c.label("failing copy"); if(twice) c.label("twice");
}

// ---- C18: a final name means a complete plot
struct Golden { ref::Plot p; };
static const char* IDS[] = {"022fb42c08c12de3a6af053880199806532e79515f94e83461612101f9412f9e", "a2a5c1d2e3f40516273849506172839405162738495061728394051627384950", "5a5a5a5a00000000ffffffff0123456789abcdef0123456789abcdef01234567"};
static const ref::RefPlot& golden(int i) { static std::unique_ptr<ref::RefPlot> g[3]; if(!g[i]) g[i].reset(new ref::RefPlot(16, unhex(IDS[i]).data())); return *g[i]; }
static void final_name(Ctx& c) {
	Run r; Keys k = gen_keys(c.s); base_run(c, r, k); const int g = c.s.draw(2); r.args.push_back("-i"); r.args.push_back(IDS[g]);
	const std::string root = c.dir + "w/"; mkdir(root.c_str(), 0777); for(auto n : {"t", "t2", "d", "s"}) mkdir((root + n).c_str(), 0777);
	r.args.push_back("-t"); r.args.push_back(root + "t/"); if(c.s.coin()) { r.args.push_back("-2"); r.args.push_back(root + "t2/"); } const bool tail = c.s.draw(3) == 3, hd = c.s.draw(2), D = c.s.draw(3) == 3 && !tail; if(hd) { r.args.push_back("-d"); r.args.push_back(root + "d/"); } if(D) r.args.push_back("-D"); const bool hs = c.s.draw(2) == 2 && !tail; if(hs) { r.args.push_back("-s"); r.args.push_back(root + "s/"); }
	fault::Shared* sh = fault_file(c.dir); r.sh = sh;
	static const std::vector<const char*> focus = {"", ".plot", ".plot", ".plot", "d/", ".p1.", ".p2.", "p3s", "sort_bucket", "table"};
	uint32_t op = c.s.pick<uint32_t>({fault::ANY, fault::WRITE, fault::WRITE, fault::READ, fault::CLOSE, fault::RENAME, fault::OPEN, fault::UNLINK, fault::WRITE | fault::RENAME | fault::CLOSE | fault::UNLINK});
	uint32_t act = c.s.pick<uint32_t>({fault::DIE_BEFORE, fault::DIE_AFTER, fault::DIE_MID, fault::ERR, fault::ERR, fault::ERR, fault::SHORT, fault::EOFR});
	const char* foc = focus[c.s.draw(focus.size() - 1)]; const bool nofoc = op == fault::RENAME || op == fault::UNLINK; bool pers = c.s.draw(3) == 3; const int err = c.s.pick({EIO, ENOSPC, EACCES, EDQUOT});
	if(tail) {	// the writes and closes of the plot file while it is made, most of all the first and the last ones
		op = c.s.pick<uint32_t>({fault::WRITE, fault::WRITE, fault::CLOSE}); act = c.s.pick<uint32_t>({fault::ERR, fault::HALF, fault::ERR, fault::DIE_BEFORE}); if(act == fault::HALF && op == fault::CLOSE) act = fault::ERR;
		static std::map<std::pair<int, uint32_t>, uint64_t> totals; uint64_t& n = totals[{g, op}];
		if(!n) { fault::setup(sh, root + "t/", ".plot.tmp", op, 0, 0, fault::NONE, 0); Run q; q.k34 = r.k34; q.args = r.args; q.dir = r.dir; q.rnd = r.rnd; q.nofile = r.nofile; q.sh = sh; q.cwd = root; q.start(); q.finish(); PBT_CHECK(q.ok(), "the run fails without a fault: it " << q.str()); n = std::max<uint64_t>(sh->count, 1); for(auto& d : {"t/", "t2/", "d/", "s/"}) for(auto& f : list_dir(root + d)) unlink((root + d + f).c_str()); }
		const uint64_t at = c.s.size(0, n - 1); if(act == fault::HALF) pers = false;
		fault::setup(sh, root + "t/", ".plot.tmp", op, c.s.draw(4) ? n - 1 - at : at, pers ? 1000000 : act == fault::HALF ? 2 : 1, act, err);
	} else
	fault::setup(sh, root, nofoc && c.s.coin() ? "" : foc, op, c.s.size(0, op == fault::RENAME ? 4 : 3000), pers ? 1000000 : 1, act, err);
	const bool vol = c.s.coin(); if(vol) strncpy(sh->volume, (root + "d/").c_str(), sizeof(sh->volume) - 1);
	c.desc << r.line() << (vol ? " (final directory on another file system)" : "") << "; " << fault::op_name(op) << " number " << sh->nth << (pers ? " and all later ones" : "") << " on *" << sh->contain << "* " << fault::act_name(act) << " error " << sh->err; c.publish();
	r.cwd = root; r.start(); r.finish(); const uint64_t fired = sh->fired; const std::string what = sh->what; munmap(sh, sizeof *sh);
	c.desc << " [" << what.substr(what.rfind('/') == std::string::npos ? 0 : what.rfind('/') + 1) << "]";
	int n = 0; std::string where; std::set<std::string> wheres; const ref::RefPlot& R = golden(g);
	for(auto& d : {"t/", "t2/", "d/", "s/"}) for(auto& f : list_dir(root + d)) if(is_plot_name(f)) {
		n++; where = d; wheres.insert(d); ref::Plot p; try { p.parse(root + d + f); } catch(ref::Bad& e) { pbt::fail(std::string("a file with the final name is not a complete plot: ") + d + f + ": " + e.what() + " (the program " + r.str() + ")"); }
		PBT_CHECK(p.k == 16 && hex(p.id.data(), 32) == IDS[g], "a file with the final name has a wrong header"); const Bytes fk = k.farmer.Serialize(); PBT_CHECK(p.memo.size() == (k.contract ? 112 : 128) && std::equal(fk.begin(), fk.end(), p.memo.end() - 80), "a file with the final name has a wrong memo");
		std::vector<std::pair<uint64_t, uint64_t>> got; try { got = ref::stored_proofs(p); } catch(ref::Bad& e) { pbt::fail(std::string("a file with the final name is corrupt: ") + e.what()); } PBT_CHECK(got == R.proofs, "a file with the final name misses proofs or has wrong ones");
	}
	// a source that cannot be removed after the copy may stay
	if(r.ok()) { const bool stays = fired && (op & fault::UNLINK) && n == 2; PBT_CHECK(n == 1 || stays, "the run reports success but there are " << n << " finished plots"); PBT_CHECK(wheres.count(hd ? "d/" : "t/"), "the run reports success but the plot is in " << where); }
	if(r.hang && !fired) pbt::fail("the run hangs");
	if(!fired) PBT_CHECK(r.ok(), "the run fails without a fault: it " << r.str());
	c.nontrivial = fired > 0; c.label(std::string(fault::act_name(act)) + (fired ? "" : " (not reached)")); if(fired) c.label(r.ok() ? "still succeeded" : r.retrying() ? "keeps retrying" : "run ended"); if(n) c.label("final name present");
}
// ---- C27: several plotters at work in the same directories
static void neighbours(Ctx& c) {
	const int np = c.s.pick({2, 2, 2, 3}); const bool same = c.s.coin(); std::vector<Run> rs(np); std::vector<Layout> Ls; Keys k = gen_keys(c.s); const std::string root = c.dir + "w/"; int total = 0;
	const int victim = c.s.draw(3) == 3 ? (int)c.s.draw(np - 1) : -1; const double when = c.s.draw(1500) / 1000.0;
	for(int i = 0; i < np; ++i) {
		Run& r = rs[i]; base_run(c, r, k); r.dir = c.dir + "r" + std::to_string(i) + "/"; mkdir(r.dir.c_str(), 0777); r.cwd = root;
		const int n = c.s.pick({1, 1, 1, 2}); Layout L = gen_layout(c.s, root, n); if(same && i) { L = Ls[0]; L.n = n; } Ls.push_back(L); layout_args(c.s, L, r.args); c.desc << (i ? " || " : "") << r.line() << " rand=" << r.rnd;
		for(int j = 0; j < i; ++j) if(rs[j].rnd == r.rnd) throw pbt::Discard{"the same random numbers"};
	}
	bystanders(c.s, Ls[0]); std::vector<int> gap; for(int i = 0; i < np; ++i) gap.push_back(c.s.pick({0, 0, 50, 300}));
	if(victim >= 0) c.desc << "; number " << victim + 1 << " is killed after " << when << " s"; c.publish();
	const Tree before = tree(root); for(int i = 0; i < np; ++i) { rs[i].start(); if(gap[i]) usleep(gap[i] * 1000); } const double t0 = pbt::now_s(); bool killed = false;
	for(bool all = false; !all;) { all = true; for(int i = 0; i < np; ++i) { if(i == victim && killed) continue; if(!rs[i].poll()) all = false; if(i == victim && !rs[i].exited && pbt::now_s() - t0 > when) { rs[i].stop(); killed = true; } } }
	for(int i = 0; i < np; ++i) if(!(i == victim && killed)) { Run& r = rs[i]; if(WIFEXITED(r.status) && (WEXITSTATUS(r.status) == 78 || WEXITSTATUS(r.status) == 79)) throw pbt::Discard{"cannot start"}; discard_overfull(r, 16); PBT_CHECK(r.ok(), "with another plotter at work, run " << i + 1 << " fails: it " << r.str()); total += Ls[i].n; }
	std::vector<int> made(np); std::set<std::string> ids; const bool deep = c.s.draw(2) == 2; std::vector<std::string> outs; for(auto& r : rs) outs.push_back(r.out());
	for(auto& f : check_kept(before, tree(root))) {
		int who = -1; if(is_plot_name(f)) { const std::string id = f.substr(f.size() - 69, 64); for(int i = 0; i < np; ++i) if(outs[i].find(id) != std::string::npos) who = i; }
		if(who < 0 || (who == victim && killed)) { PBT_CHECK(killed, "the runs left '" << f << "' behind"); continue; }
		PBT_CHECK(allowed_dir(Ls[who], root + f), "plot '" << f << "' is not in its final directory"); ids.insert(check_plot(root + f, 16, deep)); made[who]++;
	}
	for(int i = 0; i < np; ++i) if(!(i == victim && killed)) PBT_CHECK(made[i] == Ls[i].n, "with another plotter at work, run " << i + 1 << " delivered " << made[i] << " plots of " << Ls[i].n);
	PBT_CHECK((int)ids.size() == total, "the plots are not distinct"); c.nontrivial = true; c.label(std::to_string(np) + " at a time"); if(same) c.label("same directories"); if(killed) c.label("one killed");
}
// ---- C20: valid options do what they say
struct Seen { std::vector<std::string> made; uint64_t bytes[2] = {0, 0}, threads = 0; int64_t peak[2] = {0, 0}; std::string out; };
static void effects(Ctx& c) {
	Keys k = gen_keys(c.s); const bool k34 = c.s.draw(3) == 3; const uint64_t rnd = c.s.seed(); const std::string root = c.dir + "w/"; mkdir(root.c_str(), 0777); for(auto n : {"t", "t2", "d", "s", "z"}) mkdir((root + n).c_str(), 0777);
	const int lu = c.s.pick({4, 5, 6, 4, 5, 7}), lv0 = c.s.pick({4, 5, 6, 4, 5, 7}); const bool hv = c.s.coin(); const int lv = hv ? lv0 : lu; const bool h2 = c.s.draw(3) > 0, hd = c.s.coin(), G = h2 && c.s.draw(3) == 3, hs = !G && c.s.coin(), D = hd && c.s.coin(); const int n = G ? 2 : 1; const int th = c.s.pick({1, 2, 3, 4, 6, 8}), K = c.s.pick({1, 1, 2, 3, 5}); const bool hK = K > 1 || c.s.coin();
	auto num = [&](int l) { switch(c.s.draw(2)) { case 0: return 1 << l; case 1: return l; default: return (1 << l) + (int)c.s.draw((1 << l) - 1); } };
	std::vector<std::string> rest; key_args(c.s, rest, k); opt(c.s, rest, "-k", "--size", "16"); opt(c.s, rest, "-u", "--buckets", std::to_string(num(lu))); if(hv) opt(c.s, rest, "-v", "--buckets3", std::to_string(num(lv)));
	opt(c.s, rest, "-t", "--tmpdir", root + "t/"); if(h2) opt(c.s, rest, "-2", "--tmpdir2", root + "t2/"); if(hd) opt(c.s, rest, "-d", "--finaldir", root + "d/"); if(hs) opt(c.s, rest, "-s", "--stagedir", root + "s/"); if(D) rest.push_back(c.s.coin() ? "-D" : "--directout"); if(G) rest.push_back(c.s.coin() ? "-G" : "--tmptoggle"); if(n > 1) { rest.push_back("-n"); rest.push_back("2"); }
	auto run = [&](int th, int K, bool hK, Seen& e) {
		Run r; r.dir = c.dir; r.k34 = k34; r.rnd = rnd; r.args = rest; opt(c.s, r.args, "-r", "--threads", std::to_string(th)); if(hK) opt(c.s, r.args, "-K", "--rmulti2", std::to_string(K));
		fault::Shared* sh = fault_file(c.dir); fault::setup(sh, root, "", 0, 0, 0, fault::NONE, 0); strcpy(sh->log, (c.dir + "run.files").c_str()); strcpy(sh->dirs[0], (root + "t/").c_str()); strcpy(sh->dirs[1], (root + "t2/").c_str()); unlink(sh->log); r.sh = sh;
		c.desc << (c.desc.str().empty() ? "" : " then ") << r.line() << " rand=" << r.rnd; c.publish(); r.cwd = root; r.start(); r.finish(); for(int i = 0; i < 2; ++i) { e.bytes[i] = sh->bytes[i]; e.peak[i] = sh->peak[i]; } e.threads = sh->threads; munmap(sh, sizeof *sh); discard_overfull(r, 16);
		PBT_CHECK(r.ok(), "the run fails: it " << r.str()); std::istringstream is(slurp(c.dir + "run.files")); std::string l; bool begun = false; while(std::getline(is, l)) { if(l == "begin") begun = true; else if(begun) e.made.push_back(l.substr(root.size())); } e.out = r.out();
		for(auto d : {"t/", "t2/", "d/", "s/"}) for(auto& f : list_dir(root + d)) unlink((root + d + f).c_str());
	};
	Seen a; run(th, K, hK, a); PBT_CHECK(!a.made.empty(), "harness: no file was seen");
	// where
	const std::string first = D ? "d/" : hs ? "s/" : "t/"; bool plot = false;
	for(auto& f : a.made) { const std::string d = f.substr(0, f.find('/') + 1); const bool is_plot = f.find(".plot") != std::string::npos;
		PBT_CHECK(d == "t/" || (h2 && d == "t2/") || (hd && d == "d/") || (hs && !D && d == "s/"), "the run made '" << f << "', a directory it was not given");
		if(!is_plot) PBT_CHECK(d == "t/" || d == "t2/", "the temporary file '" << f << "' is not in a temporary directory");
		else if(!plot) { plot = true; PBT_CHECK(d == first, "the plot is written in " << d << ", the options say " << first); } }
	PBT_CHECK(plot, "harness: no plot file was seen");
	if(h2) { const double share = double(a.bytes[1]) / std::max<uint64_t>(1, a.bytes[0] + a.bytes[1]); if(G) PBT_CHECK(share > 0.4 && share < 0.6, "with -G, the second temporary directory gets " << share << " of the temporary data of two plots"); else PBT_CHECK(share > 0.68 && share < 0.88, "the second temporary directory gets " << share << " of the temporary data, documented are about 75 %"); }
	if(h2 && n == 1) { const double u = (1 << 16) / 4.0; PBT_CHECK(a.peak[1] < 135 * u, "the second temporary directory held " << a.peak[1] / u << " GiB at k=32 scale, documented are 110"); PBT_CHECK(a.peak[0] < 260 * u, "the first temporary directory held " << a.peak[0] / u << " GiB at k=32 scale, documented are 220"); if(getenv("VP_DEBUG")) c.label("peak " + std::to_string(int(a.peak[0] / u)) + "/" + std::to_string(int(a.peak[1] / u))); }
	// buckets: sets of files that differ in a number only
	std::vector<std::string> order; std::map<std::string, std::set<std::string>> groups; static const std::regex num_re("[0-9]+(?=[^0-9]*$)");
	for(auto& f : a.made) if(f.find(".plot") == std::string::npos) { const std::string g = std::regex_replace(f, num_re, "#"); if(!groups.count(g)) order.push_back(g); groups[g].insert(f); }
	std::vector<std::pair<std::string, size_t>> big; for(auto& g : order) if(groups[g].size() >= 16) big.push_back({g, groups[g].size()});
	if(!big.empty() && n == 1) {
		for(size_t i = 0; i < big.size(); ++i) PBT_CHECK(big[i].second == size_t(1) << lu || big[i].second == size_t(1) << lv, "there are " << big[i].second << " files " << big[i].first << ", the options ask for " << (1 << lu) << " and " << (1 << lv) << " buckets");
		PBT_CHECK(big.front().second == size_t(1) << lu, big.front().second << " buckets in the first phase (" << big.front().first << "), the options ask for " << (1 << lu)); PBT_CHECK(big.back().second == size_t(1) << lv, big.back().second << " buckets in the last phase (" << big.back().first << "), the options ask for " << (1 << lv));
		size_t i = 0; while(i < big.size() && big[i].second == size_t(1) << lu) ++i; while(i < big.size() && big[i].second == size_t(1) << lv) ++i; PBT_CHECK(i == big.size(), "the number of buckets changes back in " << big[i].first); c.label("buckets seen");
	}
	// threads: more of them are used if more are asked for
	if(a.threads && n == 1 && c.s.coin()) {
		const bool multi = c.s.coin(); const int more = 1 + c.s.draw(3); Seen b; run(multi ? th : th + more, multi ? K + more : K, multi || hK, b);
		PBT_CHECK(b.threads >= a.threads + 5 * more, (multi ? "the P2 thread multiplier" : "the number of threads") << " has no effect: " << a.threads << " threads were started, and " << b.threads << " with " << more << " more"); c.label(multi ? "-K observed" : "-r observed");
	}
	c.nontrivial = true; if(lu != lv) c.label("-u and -v differ"); if(D) c.label("directout"); if(hs) c.label("stagedir"); if(G) c.label("tmptoggle"); if(h2) c.label("tmpdir2"); if(getenv("VP_DEBUG") && h2) c.label("share " + std::to_string(int(100.0 * a.bytes[1] / (a.bytes[0] + a.bytes[1]))) + (G ? " G" : ""));
}
static pbt::Suite cli(const char* n, void (*f)(Ctx&), bool sched, int hang = 90) { pbt::Suite s{n, f, sched}; s.hang_s = hang; return s; }
static pbt::Reg r1(cli("derive", derive, false)), r2(cli("derive_plot", derive_plot, true)), r3(cli("options", options, false)), r4(cli("leftovers", leftovers, true)), r5(cli("delivery", delivery, true)), r6(cli("interrupt", interrupt, true)), r7(cli("final_name", final_name, true)), r8(cli("neighbours", neighbours, true)), r9(cli("effects", effects, true));
PBT_MAIN
