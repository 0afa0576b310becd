// End-to-end plots through phase1..4, checked against the reference plotter/verifier.
#define SCHED_INTERPOSE
#include "common.hpp"
#include "phases.hpp"
#include "heap.hpp"

struct Config {
	int threads, lb1, lb3, multi; size_t rchunk, wchunk; uint64_t sseed; uint32_t slevel; bool dir2, plotdir;
	std::string str() const { std::ostringstream o; o << "threads=" << threads << " log_buckets=" << lb1 << "/" << lb3 << " multi=" << multi << " rchunk=" << rchunk << " wchunk=" << wchunk << " sched=" << slevel << (dir2 ? " tmpdir2" : "") << (plotdir ? " plotdir" : ""); return o.str(); }
};
static bool g_big = false, g_mid = false;
static Config gen_config(pbt::Src& s, int k) {
	Config c;
	c.threads = s.pick({4, 1, 2, 3, 5, 8, 7, 16, 13, 24, 40});
	c.lb1 = s.pick({4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 5, 6});
	c.lb3 = s.pick({4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 5, 6});
	if(s.draw(39) == 39) { c.lb1 = g_big ? s.pick({8, 9}) : 7; } else if(s.draw(39) == 39) { c.lb3 = g_big ? 8 : 7; }
	if(s.draw(5) == 5) c.lb1 = s.range(1, 3); if(s.draw(5) == 5) c.lb3 = s.range(1, 3);		// few buckets: blocks as large as at k=32
	c.lb1 = std::min(c.lb1, (k + 6) / 2); c.lb3 = std::min(c.lb3, k / 2);
	c.multi = s.pick({1, 2, 3});
	c.rchunk = s.pick<size_t>({65536, 65536, 1000, 4096, 317, 20000});
	c.wchunk = s.pick<size_t>({4096, 4096, 64, 1, 1000, 333});
	c.slevel = s.pick({0, 0, 0, 1, 2}); c.sseed = s.seed();
	c.dir2 = s.coin(); c.plotdir = s.coin();
	if(!g_big && !g_mid && s.draw(23) == 23) { c.threads = s.pick({257, 100, 300}); c.slevel = 0; c.rchunk = std::min<size_t>(c.rchunk, 4096); }		// as many as big machines have
	return c;
}
struct Made { uint64_t size; std::string path; };
static Made make_plot(const Config& c, const std::string& root, int k, const std::array<uint8_t, 32>& id, const std::vector<uint8_t>& memo, uint64_t* rows = nullptr, uint64_t* heap = nullptr) {
	auto mark = [&](int i) { if(heap) { heap[i] = g_peak - heap[4]; g_peak = g_live.load(); } };		// most memory in use during a phase
	std::string t1 = root + "t1/", t2 = c.dir2 ? root + "t2/" : t1, pd = c.plotdir ? root + "pl/" : t1;
	for(auto& d : {t1, t2, pd}) mkdir(d.c_str(), 0777);
	ChunkSizes cs(c.rchunk, c.wchunk);
	const int multi = phase2::g_thread_multi; phase2::g_thread_multi = c.multi;
	sched::on(c.sseed, c.slevel);
	phase1::input_t in; in.k = k; in.id = id; in.memo = memo; in.plot_name = "plot-x";
	phase4::output_t o4;
	{
		phase1::output_t o1; run_phase1(in, o1, c.threads, c.lb1, in.plot_name, t1, t2); mark(0);
		if(rows) for(auto& t : o1.table) *rows = std::max<uint64_t>(*rows, t.num_entries);
		sched::budget(400000);
		phase2::output_t o2; run_phase2(o1, o2, c.threads, c.lb3, in.plot_name, t1, t2); mark(1);
		sched::budget(400000);
		phase3::output_t o3; run_phase3(o2, o3, c.threads, c.lb3, in.plot_name, t1, t2, pd); mark(2);
		run_phase4(o3, o4, c.threads, c.lb3, in.plot_name, t1, t2, pd); mark(3);
	}
	sched::off(); phase2::g_thread_multi = multi;
	return {o4.plot_size, o4.plot_file_name};
}
static std::array<uint8_t, 32> gen_id(pbt::Src& s) {
	std::array<uint8_t, 32> id; Rng r(s.seed()); for(auto& b : id) b = r.next();
	switch(s.draw(15)) { case 14: id.fill(0); break; case 15: id.fill(0xff); break; }
	return id;
}
static std::vector<uint8_t> gen_memo(pbt::Src& s) {
	size_t n = s.pick<size_t>({128, 112, 128, 112, 0, 1, 255, 256, 300});
	Rng r(s.seed()); std::vector<uint8_t> m(n); for(auto& b : m) b = r.next(); return m;
}
static int gen_k(pbt::Src& s) { if(g_mid) return s.pick({19, 19, 19, 20}); if(g_big) return s.pick({19, 20, 19, 21, 22}); return s.pick({16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 17, 17, 17, 17, 18}); }

struct Made2 { ref::Plot p; uint64_t size; };
static void make_and_parse(Ctx& c, const Config& cfg, const std::string& root, int k, const std::array<uint8_t, 32>& id, const std::vector<uint8_t>& memo, Made2& out) {
	// the plotter runs in a child so that an abort can be told apart from the one known defect
	Made m; m.path = root + "out";
	Child ch = isolated(root, [&]() {
		Made x = make_plot(cfg, root, k, id, memo);
		FILE* f = fopen((root + "result").c_str(), "w"); fprintf(f, "%" PRIu64 " %s", x.size, x.path.c_str()); fclose(f);
	});
	if(!ch.ok()) {
		if(ch.what.find("bucket index out of range") != std::string::npos) {
			ref::RefPlot R(k, id.data());
			for(int t = 2; t <= 7; ++t) if(R.used[t] > (uint64_t(1) << k)) throw pbt::Discard{"known finding: a table keeps more than 2^k entries"};
		}
		pbt::fail("plotting fails: " + ch.str());
	}
	{ FILE* f = fopen((root + "result").c_str(), "r"); char b[4096] = {}; if(!f || fscanf(f, "%" SCNu64 " %4000s", &m.size, b) != 2) pbt::fail("no result"); fclose(f); m.path = b; }
	try { out.p.parse(m.path); } catch(ref::Bad& e) { pbt::fail(std::string("plot cannot be read back: ") + e.what()); }
	out.size = m.size;
	if(out.p.tail_unreadable) throw pbt::Discard{"known finding: last checkpoint park has 2 or 3 entries"};
}

// C01: everything stored verifies
static void soundness(Ctx& c) {
	int k = gen_k(c.s); auto id = gen_id(c.s); auto memo = gen_memo(c.s); Config cfg = gen_config(c.s, k); cfg.lb3 = 4;
	c.desc << "k=" << k << " id=" << hex(id.data(), 32) << " " << cfg.str(); c.publish();
	Made2 m; make_and_parse(c, cfg, c.dir, k, id, memo, m);
	PBT_CHECK(m.p.k == k && m.p.id == id, "header k/id differ");
	uint64_t n = 0;
	try { n = ref::verify_all(m.p); } catch(ref::Bad& e) { pbt::fail(std::string("invalid proof stored: ") + e.what()); }
	PBT_CHECK(n == m.p.p7.size() && n == m.p.f7.size() && n > 0, "counts differ");
	c.desc << " proofs=" << n; c.nontrivial = n > 1000;
	c.label("k=" + std::to_string(k)); c.label("threads=" + std::to_string(cfg.threads)); if(cfg.slevel) c.label("perturbed schedule");
}
// C02: stored set == reference set
static void completeness(Ctx& c) {
	int k = gen_k(c.s); auto id = gen_id(c.s); auto memo = gen_memo(c.s); Config cfg = gen_config(c.s, k); cfg.lb3 = 4;
	c.desc << "k=" << k << " id=" << hex(id.data(), 32) << " " << cfg.str(); c.publish();
	Made2 m; make_and_parse(c, cfg, c.dir, k, id, memo, m);
	ref::RefPlot R(k, id.data());
	for(int t = 1; t <= 6; ++t) PBT_CHECK(m.p.lp[t].size() == R.used[t + 1], "stored table " << t << " has " << m.p.lp[t].size() << " entries, the definition gives " << R.used[t + 1]);
	std::vector<std::pair<uint64_t, uint64_t>> got;
	try { got = ref::stored_proofs(m.p); } catch(ref::Bad& e) { pbt::fail(e.what()); }
	if(got != R.proofs) {
		size_t i = 0; while(i < got.size() && i < R.proofs.size() && got[i] == R.proofs[i]) ++i;
		std::ostringstream o; o << "stored proofs differ from the definition: " << got.size() << " stored, " << R.proofs.size() << " expected, first difference at rank " << i;
		pbt::fail(o.str());
	}
	c.desc << " proofs=" << got.size(); c.nontrivial = got.size() > 1000;
	c.label("k=" + std::to_string(k)); c.label("threads=" + std::to_string(cfg.threads)); if(cfg.slevel) c.label("perturbed schedule");
}
// C03: two configurations, same content
static void independence(Ctx& c) {
	int k = gen_k(c.s); auto id = gen_id(c.s); auto memo = gen_memo(c.s); Config a = gen_config(c.s, k), b = gen_config(c.s, k);
	c.desc << "k=" << k << " id=" << hex(id.data(), 32) << " A{" << a.str() << "} B{" << b.str() << "}"; c.publish();
	std::string ra = c.dir + "a/", rb = c.dir + "b/"; mkdir(ra.c_str(), 0777); mkdir(rb.c_str(), 0777);
	Made2 x, y; make_and_parse(c, a, ra, k, id, memo, x); make_and_parse(c, b, rb, k, id, memo, y);
	PBT_CHECK(x.p.file.size() == y.p.file.size(), "file sizes differ: " << x.p.file.size() << " / " << y.p.file.size());
	PBT_CHECK(x.size == y.size, "reported sizes differ");
	PBT_CHECK(x.p.header_size == y.p.header_size && !memcmp(x.p.file.data(), y.p.file.data(), x.p.header_size), "headers differ");
	for(int t = 1; t <= 6; ++t) PBT_CHECK(x.p.lp[t] == y.p.lp[t], "line points of table " << t << " differ between configurations");
	PBT_CHECK(x.p.f7 == y.p.f7, "f7 values differ");
	auto tie = [](const ref::Plot& p) { std::vector<std::pair<uint64_t, uint64_t>> v; for(size_t i = 0; i < p.f7.size(); ++i) v.push_back({p.f7[i], p.p7[i]}); std::sort(v.begin(), v.end()); return v; };
	PBT_CHECK(tie(x.p) == tie(y.p), "table 7 positions differ");
	c.nontrivial = a.str() != b.str() && x.p.f7.size() > 1000;
	if(a.threads != b.threads) c.label("different thread counts"); if(a.lb1 != b.lb1 || a.lb3 != b.lb3) c.label("different buckets");
	if(a.rchunk != b.rchunk || a.wchunk != b.wchunk) c.label("different chunk sizes"); if(a.slevel || b.slevel) c.label("perturbed schedule");
}
// C04: header and layout
static void layout(Ctx& c) {
	int k = gen_k(c.s); auto id = gen_id(c.s); auto memo = gen_memo(c.s); Config cfg = gen_config(c.s, k); cfg.lb3 = 4;
	c.desc << "k=" << k << " id=" << hex(id.data(), 32) << " memo=" << memo.size() << "B " << cfg.str(); c.publish();
	Made2 m; make_and_parse(c, cfg, c.dir, k, id, memo, m);
	PBT_CHECK(m.p.k == k, "k in header is " << m.p.k); PBT_CHECK(m.p.id == id, "id differs"); PBT_CHECK(m.p.memo == memo, "memo differs");
	PBT_CHECK(m.size == m.p.file.size(), "reported size " << m.size << " but file has " << m.p.file.size());
	ref::RefPlot R(k, id.data()); uint64_t off = m.p.header_size;
	for(int t = 1; t <= 6; ++t) { PBT_CHECK(m.p.ptr[t - 1] == off, "pointer of table " << t << " is " << m.p.ptr[t - 1] << ", expected " << off); off += (R.used[t + 1] + 2047) / 2048 * ref::park_size(k, t); }
	PBT_CHECK(m.p.ptr[6] == off, "pointer of table 7 is " << m.p.ptr[6] << ", expected " << off);
	c.nontrivial = true; c.label("memo=" + std::to_string(memo.size())); c.label("k=" + std::to_string(k));
}
// C02, recorded finding: ids for which a pruned table keeps more than 2^k entries cannot be plotted
static void overfull(Ctx& c) {
	static const char* h = "09f82659b3fd7727405638b91eab6fae2b79f738d066440821a795331cf4087e";
	int k = 16; std::array<uint8_t, 32> id; for(int i = 0; i < 32; ++i) { unsigned v; sscanf(h + 2 * i, "%2x", &v); id[i] = v; }
	auto memo = gen_memo(c.s); Config cfg = gen_config(c.s, k); cfg.lb3 = 4;
	c.desc << "k=" << k << " id=" << h << " " << cfg.str(); c.publish(); c.nontrivial = true;
	Child ch = isolated(c.dir, [&]() { make_plot(cfg, c.dir, k, id, memo); });
	PBT_CHECK(ch.ok(), "plotting fails: " << ch.str());
}
// C24 / C25: temporary space and memory. Record sizes do not depend on k, so the documented needs of a k=32 plot (220 / 110 / 256 GiB of files) are bounds per 2^k entries.
static uint64_t dir_bytes(const std::string& d) {
	uint64_t s = 0; DIR* h = opendir(d.c_str()); if(!h) return 0;
	while(dirent* e = readdir(h)) { struct stat st; if(!fstatat(dirfd(h), e->d_name, &st, 0) && S_ISREG(st.st_mode)) s += st.st_size; }
	closedir(h); return s;
}
struct Peaks { uint64_t dir1 = 0, dir2 = 0, both = 0, samples = 0, rows = 0, heap[5] = {}; };
static Peaks measure(Ctx& c, const Config& cfg, int k, const std::array<uint8_t, 32>& id, const std::vector<uint8_t>& memo, bool disk) {
	const std::string rf = c.dir + "peaks"; unlink(rf.c_str());
	Child ch = isolated(c.dir, [&]() {
		mkdir((c.dir + "t1").c_str(), 0777); mkdir((c.dir + "t2").c_str(), 0777);
		Peaks p; std::atomic<bool> stop{false}; p.heap[4] = g_live; g_peak = g_live.load();
		std::thread sampler([&]() { while(disk && !stop) {
			const double t0 = pbt::now_s(); const uint64_t a = dir_bytes(c.dir + "t1/"); const double t1 = pbt::now_s(); const uint64_t b = dir_bytes(c.dir + "t2/"); const double t2 = pbt::now_s(); const uint64_t a2 = dir_bytes(c.dir + "t1/"); const double t3 = pbt::now_s();		// read again: never more than there was at one time
			// a listing that took long (the sampler had to wait for a core) mixes files that were not there at the same time
			if(t1 - t0 < 0.002) p.dir1 = std::max(p.dir1, a); if(t2 - t1 < 0.002) p.dir2 = std::max(p.dir2, b); if(t3 - t0 < 0.004) { p.both = std::max(p.both, std::min(a, a2) + b); p.samples++; } usleep(100); } });
		make_plot(cfg, c.dir, k, id, memo, &p.rows, p.heap); stop = true; sampler.join();
		FILE* f = fopen(rf.c_str(), "w"); fwrite(&p, sizeof p, 1, f); fclose(f);
	});
	if(!ch.ok()) { if(ch.what.find("bucket index out of range") != std::string::npos) throw pbt::Discard{"known finding: a table keeps more than 2^k entries"}; pbt::fail("plotting fails: " + ch.str()); }
	Peaks p; FILE* f = fopen(rf.c_str(), "r"); if(!f || fread(&p, sizeof p, 1, f) != 1) pbt::fail("no result"); fclose(f); return p;
}
static void disk_space(Ctx& c) {
	const int k = c.s.pick({18, 19, 18, 19, 20}); auto id = gen_id(c.s); auto memo = gen_memo(c.s); Config cfg = gen_config(c.s, k);
	cfg.dir2 = true; cfg.plotdir = c.s.chance(1, 4); if(cfg.rchunk < 1000) cfg.rchunk = 65536; cfg.slevel = 0;
	cfg.lb1 = std::max(cfg.lb1, 4); cfg.lb3 = std::max(cfg.lb3, 4); if(c.s.chance(1, 3)) { cfg.lb1 = c.s.range(4, 8); cfg.lb3 = c.s.range(4, 8); }
	c.desc << "k=" << k << " id=" << hex(id.data(), 32) << " " << cfg.str(); c.publish();
	const Peaks p = measure(c, cfg, k, id, memo, true);
	const double u = double(std::max<uint64_t>(p.rows, uint64_t(1) << k)) / 4;		// a GiB scaled by (entries of the largest table) / 2^32
	char b[200]; snprintf(b, sizeof b, " peak tmpdir=%.1f tmpdir2=%.1f both=%.1f GiB at k=32 scale, %d samples", p.dir1 / u, p.dir2 / u, p.both / u, (int)p.samples); c.desc << b;
	PBT_CHECK(p.dir2 <= 110 * u, "the second temporary directory held " << p.dir2 << " bytes, " << p.dir2 / u << " GiB at k=32 scale (documented: 110)");
	PBT_CHECK(p.dir1 <= 220 * u, "the temporary directory held " << p.dir1 << " bytes, " << p.dir1 / u << " GiB at k=32 scale (documented: 220)");
	PBT_CHECK(p.both <= 256 * u, "the temporary directories held " << p.both << " bytes, " << p.both / u << " GiB at k=32 scale (documented: 256)");
	c.nontrivial = p.samples >= 100 && p.dir2 > 80 * u; c.label("k=" + std::to_string(k)); c.label("buckets=2^" + std::to_string(cfg.lb1)); if(cfg.plotdir) c.label("plot written elsewhere");
}
// memory: about 10 MiB of fixed tables per thread (matching), the buckets in flight (a number given by the threads), the two sets of phase 2
static void memory(Ctx& c) {
	const int k = c.s.pick({20, 20, 21}); auto id = gen_id(c.s); auto memo = gen_memo(c.s); Config cfg = gen_config(c.s, k);
	cfg.slevel = c.s.pick({0, 1}); cfg.rchunk = c.s.pick<size_t>({1000, 300}); cfg.wchunk = c.s.pick<size_t>({16, 4}); cfg.lb1 = c.s.range(6, 8); cfg.lb3 = c.s.range(6, 8); cfg.threads = c.s.range(1, 4); cfg.multi = c.s.range(1, 2);
	c.desc << "k=" << k << " id=" << hex(id.data(), 32) << " " << cfg.str(); c.publish();
	const Peaks p = measure(c, cfg, k, id, memo, false); const double T = cfg.threads, n = p.rows, B1 = n / (1 << cfg.lb1) * 40, B3 = n / (1 << cfg.lb3) * 40, R = (T * cfg.multi + 6) * cfg.rchunk * 64.0;
	const double bound[4] = {11e6 * T + B1 * (2 * T + 5) + R + 1e6, n / 2 + R + 0.6e6, B3 * (T / 2 + 2.5) + n / 4 + R + 0.8e6, B3 * 3 + n / 4 + R + 0.8e6};
	c.desc << " peak heap/bound"; char b[100];
	for(int i = 0; i < 4; ++i) { snprintf(b, sizeof b, " %.1f/%.1f", p.heap[i] / 1e6, bound[i] / 1e6); c.desc << b; }
	snprintf(b, sizeof b, " MB, buckets have %.2f/%.2f MB, a table %.0f MB", B1 / 1e6, B3 / 1e6, n * 40 / 1e6); c.desc << b;
	for(int i = 0; i < 4; ++i) PBT_CHECK(p.heap[i] <= bound[i], "phase " << i + 1 << " held " << p.heap[i] / 1e6 << " MB, its threads and buckets account for " << bound[i] / 1e6);
	c.nontrivial = bound[0] < 11e6 * T + n * 40; c.label("k=" + std::to_string(k)); c.label("threads=" + std::to_string(cfg.threads));
}
static void completeness_big(Ctx& c) { g_big = true; completeness(c); }
static void soundness_big(Ctx& c) { g_big = true; soundness(c); }
static pbt::Suite big(const char* n, void (*f)(Ctx&)) { pbt::Suite s{n, f, true}; s.max_workers = 3; return s; }
static pbt::Reg r6(big("completeness_big", completeness_big)), r7(big("soundness_big", soundness_big));
template<void (*F)(Ctx&)> static void mid(Ctx& c) { g_big = g_mid = true; F(c); }
static pbt::Suite few(const char* n, void (*f)(Ctx&), int w) { pbt::Suite s{n, f, true}; s.max_workers = w; return s; }
static pbt::Reg r8(few("disk_space", disk_space, 4)), r9(few("memory", memory, 3)), r10(few("completeness_mid", mid<completeness>, 4)), r11(few("soundness_mid", mid<soundness>, 4)), r12(few("independence_mid", mid<independence>, 4)), r13(few("layout_mid", mid<layout>, 4));
static pbt::Reg r5({"overfull", overfull, true});
static pbt::Reg r1({"soundness", soundness, true}), r2({"completeness", completeness, true}), r3({"independence", independence, true}), r4({"layout", layout, true});
PBT_MAIN
