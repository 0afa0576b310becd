// C08: I/O faults at any point of the sort, the tables and the whole pipeline.
// Oracle: the operation ends by an exception or termination, or it completes with the right result; it never hangs.
#define SCHED_INTERPOSE
#include "common.hpp"
#include "phases.hpp"
#include "../engine/fault.hpp"
#include <chia/DiskTable.h>
#include <chia/DiskSort.hpp>

struct F { uint32_t ops, act, mode = 0; int err; uint64_t nth, times; std::string contain; };
static F gen_fault(pbt::Src& s, uint64_t maxn, std::initializer_list<std::string> where) {
	F f; f.nth = s.size(0, maxn); if(s.chance(1, 3)) f.nth = s.draw(maxn);
	switch(s.draw(9)) {
		case 0: case 1: case 2: f.ops = fault::WRITE; f.act = fault::ERR; f.err = s.pick({ENOSPC, EIO, EDQUOT, EFBIG}); break;
		case 3: case 4: f.ops = fault::READ; f.act = fault::ERR; f.err = s.pick({EIO, ENOMEM, ESTALE}); break;
		case 5: case 6: f.ops = fault::READ; f.act = fault::EOFR; f.err = EIO; break;
		case 7: f.ops = fault::OPEN; f.act = fault::ERR; f.err = s.pick({ENOENT, EMFILE, EACCES, ENOSPC}); f.nth = std::min<uint64_t>(f.nth, 300); break;
		case 8: f.ops = fault::CLOSE; f.act = fault::ERR; f.mode = 2; f.err = EIO; f.nth = std::min<uint64_t>(f.nth, 200); break;
		default: f.ops = s.coin() ? fault::WRITE : fault::READ; f.act = s.coin() ? fault::SHORT : fault::HALF; f.err = EIO; break;
	}
	f.times = s.pick<uint64_t>({1, 1, 2, 5, 1000000}); if(f.act == fault::HALF) f.times++; f.contain = s.pick(where);
	return f;
}
static std::string show(const F& f) { std::ostringstream o; o << fault::op_name(f.ops) << " #" << f.nth << (f.times > 1 ? ".." + (f.times > 99 ? std::string("end") : std::to_string(f.nth + f.times - 1)) : "") << (f.contain.empty() ? "" : " on *" + f.contain + "*") << " " << fault::act_name(f.act) << (f.act == fault::ERR ? std::string(" with ") + strerror(f.err) : ""); return o.str(); }
static fault::Shared* sh() { static fault::Shared* p = fault::shared_mem(); return p; }
static void judge(Ctx& c, const Child& r, const char* what) {
	if(r.kind == Child::EXIT && r.code == 77) throw pbt::Discard{"seccomp not available"};
	PBT_CHECK(r.kind != Child::HANG, what << " waits forever after the fault on " << sh()->what);
	c.nontrivial = sh()->fired.load() > 0;
	if(sh()->fired.load()) c.label(r.ok() ? "fault tolerated, result checked" : "ended with an error"); else { c.label("fault point not reached"); PBT_CHECK(r.ok(), what << " fails without any fault: " << r.str()); }
	if(!r.ok()) PBT_CHECK(r.kind == Child::EXC || r.kind == Child::SIG, what << " ended with " << r.str());
}
static void arm(const std::string& dir, const F& f) { fault::setup(sh(), dir, f.contain, f.ops, f.nth, f.times, f.act, f.err, f.mode); if(!fault::arm(sh())) _exit(77); }

template<typename T> struct Sink : Processor<std::pair<std::vector<T>, size_t>> { std::vector<std::pair<uint64_t, uint64_t>> got; bool order = true; void take(std::pair<std::vector<T>, size_t>& d) override { if(d.second != got.size()) order = false; for(auto& e : d.first) got.push_back({e.pos, e.off}); } };
struct pos_key { uint64_t operator()(const phase1::tmp_entry_x& e) const { return e.pos; } };
static void fail_sort(Ctx& c) {
	pbt::Src& s = c.s; size_t n = s.size(100, 30000); int lb = s.range(2, 5), writers = s.range(1, 4), rt = s.range(1, 4); F f = gen_fault(s, 120, {"", "", "sort_bucket_0", "sort_bucket_3"}); uint64_t seed = s.seed(), ss = s.seed(); int lv = s.draw(2); size_t wch = s.pick<size_t>({4096, 64, 500}), rch = s.pick<size_t>({65536, 300});
	c.desc << "sort n=" << n << " log_buckets=" << lb << " writers=" << writers << " read_threads=" << rt << " wchunk=" << wch << " rchunk=" << rch << ", " << show(f); c.publish();
	fault::setup(sh(), "/", "", 0, 0, 0, 0, 0);
	Child r = isolated(c.dir, [&]() {
		arm(c.dir + "s", f); sched::on(ss, lv, 200000); ChunkSizes cs(rch, wch); Rng g(seed); std::vector<phase1::tmp_entry_x> in(n); std::vector<std::pair<uint64_t, uint64_t>> want; for(auto& e : in) { e.pos = g.next() & 0xffffff; e.off = g.next() & 1023; want.push_back({e.pos, e.off}); } std::sort(want.begin(), want.end());
		typedef DiskSort<phase1::tmp_entry_x, pos_key> DS; DS ds(24, lb, c.dir + "s");
		{ ThreadPool<size_t, size_t, std::shared_ptr<DS::WriteCache>> pool([&](size_t& b, size_t&, std::shared_ptr<DS::WriteCache>& w) { if(!w) w = ds.add_cache(); for(size_t i = b; i < std::min(n, b + 200); ++i) w->add(in[i]); }, nullptr, writers, "w"); for(size_t b = 0; b < n; b += 200) pool.take_copy(b); pool.close(); }
		ds.finish();
		{ uint64_t sum = 0; for(auto& x : list_dir(c.dir)) { struct stat st; if(x[0] == 's' && !stat((c.dir + x).c_str(), &st)) sum += st.st_size; } PBT_CHECK(sum >= n * phase1::tmp_entry_x::disk_size, "finishing the sort reports success but only " << sum << " bytes of " << n << " records reached the disk after the fault on " << sh()->what); }
		Sink<phase1::tmp_entry_x> sink; ds.read(&sink, rt); sh()->armed = 0;
		std::sort(sink.got.begin(), sink.got.end()); PBT_CHECK(sink.order && sink.got == want, "the sort reports success but delivered " << sink.got.size() << " of " << n << " records, or wrong ones, after the fault on " << sh()->what);
	}, 6);
	judge(c, r, "the sort");
}
static void fail_table(Ctx& c) {
	pbt::Src& s = c.s; size_t n = s.size(1, 30000); int rt = s.range(1, 4); F f = gen_fault(s, 60, {""}); uint64_t seed = s.seed(), ss = s.seed(); int lv = s.draw(2); size_t wch = s.pick<size_t>({4096, 64, 500}), rch = s.pick<size_t>({65536, 300, 1000}); bool dtor = s.coin(), sink_t = s.coin();
	int damage = s.chance(1, 4) ? s.range(1, 3) : 0;
	c.desc << "table n=" << n << " read_threads=" << rt << " wchunk=" << wch << " rchunk=" << rch << (dtor ? " closed by destructor" : "") << (damage ? ", then the file is cut or removed" : ", " + show(f)); c.publish();
	fault::setup(sh(), "/", "", 0, 0, 0, 0, 0);
	Child r = isolated(c.dir, [&]() {
		if(!damage) arm(c.dir + "t", f); sched::on(ss, lv, 200000); ChunkSizes cs(rch, wch); Rng g(seed); std::vector<std::pair<uint64_t, uint64_t>> want; const std::string fn = c.dir + "t";
		{ DiskTable<phase1::tmp_entry_x> t(fn); for(size_t i = 0; i < n; ++i) { phase1::tmp_entry_x e; e.pos = g.next() & 0xffffff; e.off = g.next() & 1023; want.push_back({e.pos, e.off}); t.write(e); } if(!dtor) t.close(); }
		{ struct stat st; bool ok = !stat(fn.c_str(), &st) && (size_t)st.st_size == n * phase1::tmp_entry_x::disk_size; PBT_CHECK(ok, "the table was closed without an error but its file is incomplete after the fault on " << sh()->what); }
		if(damage == 1) truncate(fn.c_str(), n * phase1::tmp_entry_x::disk_size - 1 - g.below(std::min<size_t>(n * phase1::tmp_entry_x::disk_size, 2000))); if(damage == 2) unlink(fn.c_str()); if(damage == 3) truncate(fn.c_str(), 0);
		Sink<phase1::tmp_entry_x> sink; DiskTable<phase1::tmp_entry_x> t(fn, n);
		if(sink_t) { Thread<std::pair<std::vector<phase1::tmp_entry_x>, size_t>> th([&](std::pair<std::vector<phase1::tmp_entry_x>, size_t>& d) { sink.take(d); }, "x"); t.read(&th, rt); th.close(); } else t.read(&sink, rt);
		sh()->armed = 0; PBT_CHECK(sink.order && sink.got == want, "reading reports success but delivered " << sink.got.size() << " of " << n << " rows, or wrong ones, after the fault on " << sh()->what);
	}, 6);
	if(damage) { PBT_CHECK(r.kind != Child::HANG, "reading a damaged table waits forever"); PBT_CHECK(!r.ok(), "reading a damaged table succeeds"); PBT_CHECK(r.kind != Child::EXIT, r.str()); c.nontrivial = true; c.label("damaged file"); return; }
	judge(c, r, "the table");
}
// the whole pipeline at k = 16
static void fail_plot(Ctx& c) {
	pbt::Src& s = c.s; static std::map<int, std::vector<std::pair<uint64_t, uint64_t>>> refs; int idn = s.draw(2); std::array<uint8_t, 32> id; { Rng g(4711 + idn); for(auto& b : id) b = g.next(); }
	int threads = s.pick({4, 1, 2, 8}); bool d2 = s.coin(), dp = s.coin(); F f = gen_fault(s, 2500, {"", "", ".plot.tmp", ".plot.tmp", ".plot.tmp", ".p1.", ".p2.", ".p3", "table", "sort_bucket_0", "t2/", "t1/"});
	{	// about how many there are of each kind: the position is spread over all of them
		static const std::map<std::string, std::array<int, 4>> about = {{"", {740, 3700, 780, 378}}, {".plot.tmp", {46, 385, 2, 3}}, {".p1.", {300, 1430, 210, 103}}, {".p2.", {138, 640, 163, 81}}, {".p3", {230, 1270, 384, 192}}, {"table", {138, 700, 36, 8}}, {"sort_bucket_0", {41, 208, 46, 23}}, {"t2/", {476, 2390, 600, 300}}, {"t1/", {685, 950, 156, 80}}};
		const int n = about.at(f.contain)[f.ops == fault::READ ? 0 : f.ops == fault::WRITE ? 1 : f.ops == fault::OPEN ? 2 : 3]; f.nth = s.draw(n - 1); if(s.draw(3) == 3) f.nth = n - 1 - std::min<uint64_t>(f.nth % 16, n - 1); } uint64_t ss = s.seed(); int lv = s.pick({0, 0, 1, 2});
	c.desc << "k=16 id=" << hex(id.data(), 8) << ".. threads=" << threads << (d2 ? " tmpdir2" : "") << (dp ? " plotdir" : "") << ", " << show(f); c.publish();
	if(!refs.count(idn)) { ref::RefPlot R(16, id.data()); refs[idn] = R.proofs; }
	std::string t1 = c.dir + "p/t1/", t2 = d2 ? c.dir + "p/t2/" : t1, pd = dp ? c.dir + "p/pl/" : t1; mkdir((c.dir + "p").c_str(), 0777); for(auto& d : {t1, t2, pd}) mkdir(d.c_str(), 0777);
	fault::setup(sh(), "/", "", 0, 0, 0, 0, 0);
	std::vector<uint8_t> memo(112, 7);
	Child r = isolated(c.dir, [&]() {
		arm(c.dir + "p/", f); ChunkSizes cs(20000, 1000); sched::on(ss, lv);
		phase1::input_t in; in.k = 16; in.id = id; in.memo = memo; in.plot_name = "x"; phase4::output_t o4;
		{ phase1::output_t o1; run_phase1(in, o1, threads, 4, "x", t1, t2); phase2::output_t o2; run_phase2(o1, o2, threads, 4, "x", t1, t2); phase3::output_t o3; run_phase3(o2, o3, threads, 4, "x", t1, t2, pd); run_phase4(o3, o4, threads, 4, "x", t1, t2, pd); }
		sh()->armed = 0; sched::off();
		ref::Plot p; try { p.parse(o4.plot_file_name); PBT_CHECK(p.k == 16 && p.id == id && p.memo == memo, "header differs"); PBT_CHECK(p.file.size() == o4.plot_size, "size differs"); PBT_CHECK(ref::stored_proofs(p) == refs[idn], "stored proofs differ"); }
		catch(ref::Bad& e) { pbt::fail(std::string("plotting reports success but the plot is damaged (") + e.what() + ") after the fault on " + sh()->what); }
		catch(pbt::Failure& e) { pbt::fail("plotting reports success but the plot is wrong (" + e.msg + ") after the fault on " + sh()->what); }
	}, 8);
	judge(c, r, "plotting");
	c.label(std::string(fault::op_name(f.ops)) + " " + fault::act_name(f.act));
}
static pbt::Reg r1({"fail_sort", fail_sort, true, true}), r2({"fail_table", fail_table, true, true}), r3({"fail_plot", fail_plot, true, true});
PBT_MAIN
