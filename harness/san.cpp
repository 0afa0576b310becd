// C26: whole plots in instrumented builds (AddressSanitizer + UBSan, ThreadSanitizer): any report is a violation.
#include "common.hpp"
#include "phases.hpp"
static void plot(Ctx& c) {
	pbt::Src& s = c.s; const int k = s.pick({16, 16, 16, 17}), threads = s.pick({4, 2, 1, 3, 8}), lb1 = s.pick({4, 5, 2, 6}), lb3 = s.pick({4, 5, 3, 6}), multi = s.pick({1, 2}); const size_t rch = s.pick<size_t>({65536, 317, 4096}), wch = s.pick<size_t>({4096, 1, 333}); const bool dir2 = s.coin(), pdir = s.coin();
	phase1::input_t in; in.k = k; Rng r(s.seed()); for(auto& b : in.id) b = r.next(); in.memo.resize(s.pick<size_t>({128, 112, 0, 300})); for(auto& b : in.memo) b = r.next(); in.plot_name = "plot-x";
	c.desc << "k=" << k << " id=" << hex(in.id.data(), 32) << " memo=" << in.memo.size() << " threads=" << threads << " log_buckets=" << lb1 << "/" << lb3 << " multi=" << multi << " rchunk=" << rch << " wchunk=" << wch << (dir2 ? " tmpdir2" : "") << (pdir ? " plotdir" : ""); c.publish();
	std::string t1 = c.dir + "t1/", t2 = dir2 ? c.dir + "t2/" : t1, pd = pdir ? c.dir + "pl/" : t1; for(auto& d : {t1, t2, pd}) mkdir(d.c_str(), 0777);
	Child ch = isolated(c.dir, [&]() {
		ChunkSizes cs(rch, wch); phase2::g_thread_multi = multi; phase1::output_t o1; phase2::output_t o2; phase3::output_t o3; phase4::output_t o4;
		run_phase1(in, o1, threads, lb1, in.plot_name, t1, t2); run_phase2(o1, o2, threads, lb3, in.plot_name, t1, t2); run_phase3(o2, o3, threads, lb3, in.plot_name, t1, t2, pd); run_phase4(o3, o4, threads, lb3, in.plot_name, t1, t2, pd);
		struct stat st; PBT_CHECK(!stat(o4.plot_file_name.c_str(), &st) && (uint64_t)st.st_size == o4.plot_size, "plot of " << st.st_size << " bytes, announced " << o4.plot_size);
	});
	if(!ch.ok() && ch.what.find("bucket index out of range") != std::string::npos) { ref::RefPlot R(k, in.id.data()); for(int t = 2; t <= 7; ++t) if(R.used[t] > (uint64_t(1) << k)) throw pbt::Discard{"known finding: a table keeps more than 2^k entries"}; }
	if(!ch.ok()) pbt::fail("plotting fails: " + ch.str());
	c.nontrivial = true; c.label("k=" + std::to_string(k)); c.label("threads=" + std::to_string(threads));
}
static pbt::Reg r1({"plot_instrumented", plot, true, false, 0, 8});
PBT_MAIN
