// C17: the tables that phase 1 writes, against the naive definition.
#define SCHED_INTERPOSE
#include "common.hpp"
#include <chia/DiskTable.h>
#include "phases.hpp"

template<typename T> struct Cap : Processor<std::pair<std::vector<T>, size_t>> { std::vector<T> got; void take(std::pair<std::vector<T>, size_t>& d) override { for(auto& e : d.first) got.push_back(e); } };
static void tables(Ctx& c) {
	pbt::Src& s = c.s; int k = s.pick({16, 16, 16, 17, 17, 18}), threads = s.draw(23) == 23 ? s.pick({257, 100, 300}) : s.pick({4, 1, 2, 8, 13}), lb = s.pick({4, 4, 5, 6, 7, 1, 2, 3}), lvl = s.pick({0, 0, 1, 2}); size_t rch = s.pick<size_t>({65536, 1000, 317, 4096}), wch = s.pick<size_t>({4096, 64, 1});
	std::array<uint8_t, 32> id; Rng r(s.seed()); for(auto& b : id) b = r.next(); if(s.chance(1, 16)) id.fill(s.coin() ? 0 : 0xff); uint64_t sseed = s.seed();
	c.desc << "k=" << k << " id=" << hex(id.data(), 32) << " threads=" << threads << " log_buckets=" << lb << " rchunk=" << rch << " wchunk=" << wch << " sched=" << lvl; c.publish();
	ChunkSizes cs(rch, wch); phase1::input_t in; in.k = k; in.id = id; in.plot_name = "x"; phase1::output_t out; sched::on(sseed, lvl, 400000); run_phase1(in, out, threads, lb, "x", c.dir, c.dir); sched::off();
	ref::RefPlot R(k, id.data()); ref::F1 f1(k, id.data());
	std::vector<uint64_t> h;                                 // per row: hash of the tree below it
	{ Cap<phase1::tmp_entry_1> t; DiskTable<phase1::tmp_entry_1> d(out.table[0]); d.read(&t, 2); PBT_CHECK(t.got.size() == (1ull << k), "table 1 has " << t.got.size() << " entries"); std::vector<bool> seen(1ull << k); uint64_t last = 0;
	  for(auto& e : t.got) { PBT_CHECK((uint64_t)e.x < (1ull << k) && !seen[e.x], "x=" << e.x << " twice or out of range in table 1"); seen[e.x] = true; uint64_t y = f1(e.x); PBT_CHECK(y >= last, "table 1 is not ordered by f1 at x=" << e.x); last = y; h.push_back(ref::tree_leaf(e.x)); } }
	std::vector<std::vector<uint64_t>> rh(8); rh[1].resize(R.tab[1].size()); for(size_t i = 0; i < R.tab[1].size(); ++i) rh[1][i] = ref::tree_leaf(i);
	for(int t = 2; t <= 7; ++t) {
		std::vector<std::pair<uint64_t, uint64_t>> got, want; std::vector<uint64_t> nh;
		for(auto& e : R.tab[t]) { rh[t].push_back(ref::hash2(rh[t - 1][e.l], rh[t - 1][e.r])); want.push_back({rh[t].back(), t == 7 ? e.y : 0}); }
		auto row = [&](uint64_t p, uint64_t o, uint64_t y) { PBT_CHECK(o > 0 && p + o < h.size(), "table " << t << " refers to " << p << "+" << o << " of " << h.size() << " entries"); nh.push_back(ref::hash2(h[p], h[p + o])); got.push_back({nh.back(), y}); };
		if(t < 7) { Cap<phase1::tmp_entry_x> v; DiskTable<phase1::tmp_entry_x> d(out.table[t - 1]); d.read(&v, 2); for(auto& e : v.got) row(e.pos, e.off, 0); }
		else { Cap<phase1::entry_7> v; DiskTable<phase1::entry_7> d(out.table[6]); d.read(&v, 2); for(auto& e : v.got) row(e.pos, e.off, e.y); }
		std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
		PBT_CHECK(got.size() == want.size(), "table " << t << " has " << got.size() << " entries, the definition gives " << want.size()); PBT_CHECK(got == want, "table " << t << " does not hold the pairs (or function values) of the definition"); h = nh;
	}
	c.label("k=" + std::to_string(k)); c.nontrivial = R.tab[7].size() > 1000;
}
static pbt::Reg r1({"tables", tables, true, false, 0, 20});
PBT_MAIN
