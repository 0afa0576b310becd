// C10: phase 2 against a set model.
#define SCHED_INTERPOSE
#include "common.hpp"
#include "phases.hpp"
#include <chia/DiskTable.h>
#include <chia/DiskSort.hpp>
#ifdef CHIA_K34
static const int KM = 34; static const uint64_t POSLIM = 1ull << 35;
#else
static const int KM = 32; static const uint64_t POSLIM = 1ull << 32;
#endif
typedef phase1::tmp_entry_x Row;
struct Tab { std::vector<uint64_t> pos; std::vector<uint16_t> off; std::vector<uint64_t> y; uint64_t n = 0; };
struct Out { uint64_t key, pos, off; bool operator<(const Out& o) const { return std::tie(pos, key, off) < std::tie(o.pos, o.key, o.off); } bool operator==(const Out& o) const { return key == o.key && pos == o.pos && off == o.off; } };

// refs into [0, below)
static void gen_refs(Tab& t, size_t n, uint64_t below, int style, Rng& r) {
	t.n = n; t.pos.resize(n); t.off.resize(n);
	const uint64_t maxoff = std::min<uint64_t>(1023, below - 1);
	const uint64_t c = r.below(below);
	for(size_t i = 0; i < n; ++i) {
		uint64_t o, p;
		switch(style) {
			case 0: o = r.range(std::min<uint64_t>(1, maxoff), maxoff); p = r.below(below - o); break;                      // scattered
			case 1: o = std::min<uint64_t>(maxoff, 1 + r.below(300)); p = (unsigned __int128)i * (below - o) / n; break;     // in order, as phase 1 does
			case 2: o = r.range(0, maxoff); p = r.next() % 2 ? below - 1 - o : 0; break;                                     // both ends
			case 3: o = std::min<uint64_t>(maxoff, r.below(4)); p = std::min(below - 1 - o, c); break;                       // one spot
			case 4: o = maxoff; p = (r.below(below) / 1024) * 1024; if(p + o >= below) p = below - 1 - o; break;             // bucket borders
			default: o = std::min<uint64_t>(maxoff, 64 * (r.below(3)) + r.below(3)); p = (r.below(below) / 64) * 64 + (r.next() % 3 ? 0 : 63); if(p + o >= below) p = below - 1 - o; break;  // word borders
		}
		t.pos[i] = p; t.off[i] = o;
	}
	if(style != 1 && r.next() % 2) { std::vector<size_t> ix(n); std::iota(ix.begin(), ix.end(), 0); std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return t.pos[a] < t.pos[b]; }); Tab u = t; for(size_t i = 0; i < n; ++i) { t.pos[i] = u.pos[ix[i]]; t.off[i] = u.off[ix[i]]; } }
}
struct Cap : Processor<std::pair<std::vector<phase2::entry_x>, size_t>> { std::vector<Out> got; bool ok = true; void take(std::pair<std::vector<phase2::entry_x>, size_t>& d) override { if(d.second != got.size()) ok = false; for(auto& e : d.first) { if(!got.empty() && got.back().pos > e.pos) ok = false; got.push_back({e.key, e.pos, e.off}); } } };
struct Cap7 : Processor<std::pair<std::vector<phase1::entry_7>, size_t>> { std::vector<std::array<uint64_t, 3>> got; void take(std::pair<std::vector<phase1::entry_7>, size_t>& d) override { for(auto& e : d.first) got.push_back({e.y, e.pos, e.off}); } };

static void run(Ctx& c, int k, std::vector<Tab>& T, int threads, int lb, int multi, size_t rch, size_t wch, uint64_t sseed, int lvl, bool two, bool big) {
	std::string t1 = c.dir + "a/", t2 = two ? c.dir + "b/" : t1; mkdir(t1.c_str(), 0777); mkdir(t2.c_str(), 0777);
	ChunkSizes cs(rch, wch); phase1::output_t in; in.params.k = k;
	for(int t = 1; t <= 7; ++t) {
		in.table[t - 1].file_name = t2 + "x.p1.table" + std::to_string(t) + ".tmp"; in.table[t - 1].num_entries = T[t].n;
		if(t == 1) { int fd = open(in.table[0].file_name.c_str(), O_WRONLY | O_CREAT, 0644); if(ftruncate(fd, T[1].n * phase1::tmp_entry_1::disk_size)) {} close(fd); }
		else if(t < 7) { DiskTable<Row> d(in.table[t - 1].file_name); for(size_t i = 0; i < T[t].n; ++i) { Row e; e.pos = T[t].pos[i]; e.off = T[t].off[i]; d.write(e); } d.close(); }
		else { DiskTable<phase1::entry_7> d(in.table[6].file_name); for(size_t i = 0; i < T[7].n; ++i) { phase1::entry_7 e; e.y = T[7].y[i]; e.pos = T[7].pos[i]; e.off = T[7].off[i]; d.write(e); } d.close(); }
	}
	// model
	std::vector<std::vector<uint64_t>> used(8);           // sorted kept positions of table t
	std::vector<std::vector<Out>> want(8); std::vector<std::array<uint64_t, 3>> want7;
	for(int t = 7; t >= 2; --t) {
		std::vector<uint64_t> rows; if(t == 7) { rows.resize(T[7].n); std::iota(rows.begin(), rows.end(), 0); } else rows = used[t];
		auto& u = used[t - 1]; for(auto i : rows) { u.push_back(T[t].pos[i]); u.push_back(T[t].pos[i] + T[t].off[i]); } std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
		auto rank = [&](uint64_t p) -> uint64_t { return std::lower_bound(u.begin(), u.end(), p) - u.begin(); }; uint64_t key = 0;
		for(auto i : rows) { uint64_t a = rank(T[t].pos[i]), b = rank(T[t].pos[i] + T[t].off[i]); if(t == 7) want7.push_back({T[7].y[i], a, b - a}); else want[t].push_back({key++, a, b - a}); }
		std::sort(want[t].begin(), want[t].end());
	}
	const int m0 = phase2::g_thread_multi; phase2::g_thread_multi = multi; sched::on(sseed, lvl, 300000);
	phase2::output_t out; run_phase2(in, out, threads, lb, "x", t1, t2);
	phase2::g_thread_multi = m0;
	for(int t = 2; t <= 6; ++t) {
		PBT_CHECK(out.sort[t - 1], "no output for table " << t); Cap k; out.sort[t - 1]->read(&k, 2);
		PBT_CHECK(k.ok, "table " << t << " is not sorted by position"); std::sort(k.got.begin(), k.got.end());
		PBT_CHECK(k.got.size() == want[t].size(), "table " << t << " keeps " << k.got.size() << " entries, expected " << want[t].size());
		for(size_t i = 0; i < k.got.size(); ++i) if(!(k.got[i] == want[t][i])) pbt::fail("table " + std::to_string(t) + ": entry with position rank " + std::to_string(i) + " is (key " + std::to_string(k.got[i].key) + ", pos " + std::to_string(k.got[i].pos) + ", off " + std::to_string(k.got[i].off) + "), expected (" + std::to_string(want[t][i].key) + ", " + std::to_string(want[t][i].pos) + ", " + std::to_string(want[t][i].off) + ")");
	}
	{ PBT_CHECK(out.table_7.num_entries == T[7].n, "table 7 has " << out.table_7.num_entries << " rows of " << T[7].n); Cap7 k; DiskTable<phase1::entry_7> d(out.table_7); d.read(&k, 2); PBT_CHECK(k.got == want7, "table 7 is not remapped correctly"); }
	sched::off();
	PBT_CHECK(out.table_1.num_entries == T[1].n && out.table_1.file_name == in.table[0].file_name, "table 1 changed"); PBT_CHECK(out.params.k == k, "parameters lost");
	// the reported set
	const auto& bf = *out.bitfield_1; PBT_CHECK((uint64_t)bf.size() >= T[1].n, "the set of kept table 1 entries is too small");
	if(big) { PBT_CHECK((uint64_t)bf.count(0, bf.size()) == used[1].size(), "kept table 1 entries: " << bf.count(0, bf.size()) << ", expected " << used[1].size()); for(auto p : used[1]) PBT_CHECK(bf.get(p), "table 1 entry " << p << " is used but not reported"); }
	else { size_t j = 0; for(uint64_t i = 0; i < (uint64_t)bf.size(); ++i) { bool w = j < used[1].size() && used[1][j] == i; if(w) j++; PBT_CHECK(bf.get(i) == w, "table 1 entry " << i << " of " << T[1].n << (w ? " is used but not reported" : " is reported but not used")); } }
	for(int t = 2; t <= 7; ++t) PBT_CHECK(access(in.table[t - 1].file_name.c_str(), F_OK), "consumed table " << t << " is still there"); PBT_CHECK(!access(in.table[0].file_name.c_str(), F_OK), "table 1 was removed");
	uint64_t dropped = 0; for(int t = 1; t <= 6; ++t) dropped += T[t].n - used[t].size();
	c.nontrivial = dropped > 0 && used[1].size() > 4; if(dropped == 0) c.label("nothing dropped"); if(two) c.label("tmpdir2");
}
static void phase2_small(Ctx& c) {
	pbt::Src& s = c.s; int k = s.range(16, KM); std::vector<Tab> T(8); uint64_t cap = std::min<uint64_t>(30000, 1ull << k);
	int threads = s.draw(23) == 23 ? s.pick({257, 100, 300}) : s.pick({4, 1, 2, 3, 8, 16}), lb = s.draw(4) == 4 ? s.range(1, 3) : s.range(4, std::min(7, k / 2)), multi = s.pick({1, 2, 3}); size_t rch = s.pick<size_t>({65536, 1000, 100, 7}), wch = s.pick<size_t>({4096, 64, 1, 500}); bool two = s.coin(); int lvl = s.pick({0, 0, 1, 2});
	if(rch == 7) cap = 2000; c.desc << "k=" << k << " threads=" << threads << " log_buckets=" << lb << " multi=" << multi << " rchunk=" << rch << " wchunk=" << wch << " sched=" << lvl << " tables:";
	T[1].n = s.coin() ? s.range(500, cap) : s.size(2, cap); c.desc << " " << T[1].n;
	for(int t = 2; t <= 7; ++t) { size_t n = s.chance(3, 4) ? s.range(200, cap) : s.size(1, cap); int st = s.pick({1, 0, 1, 0, 1, 4, 5, 0, 5, 2, 1, 0, 3}); Rng r(s.seed()); gen_refs(T[t], n, T[t - 1].n, st, r); c.desc << " " << n << "/s" << st; if(t == 7) { T[7].y.resize(n); for(auto& y : T[7].y) y = r.next() & ((1ull << k) - 1); } }
	c.publish(); run(c, k, T, threads, lb, multi, rch, wch, s.seed(), lvl, two, false); c.label("k=" + std::to_string(k));
}
// table 1 beyond 2^32 entries
static void phase2_big(Ctx& c) {
	pbt::Src& s = c.s; std::vector<Tab> T(8); const int k = KM; uint64_t n1 = KM == 34 ? (1ull << 32) + s.range(2000, 1ull << 28) : (1ull << 32) + 1023;
	T[1].n = n1; c.desc << "k=" << k << " table 1 with " << n1 << " entries, tables:"; Rng r(s.seed());
	{ size_t n = s.range(500, 20000); Tab& t = T[2]; t.n = n; for(size_t i = 0; i < n; ++i) { uint64_t p, o = r.range(1, 1023); switch(r.below(5)) { case 0: p = (1ull << 32) - 1 - r.below(2000); break; case 1: p = n1 - 1 - o - r.below(500); break; case 2: p = (1ull << 31) - 600 + r.below(1200); break; case 3: p = r.below(3000); break; default: p = r.below(n1 - o); } if(p >= POSLIM) p = POSLIM - 1 - r.below(50); if(p + o >= n1) p = n1 - 1 - o; t.pos.push_back(p); t.off.push_back(o); } c.desc << " " << n; }
	for(int t = 3; t <= 7; ++t) { size_t n = s.range(300, 20000); gen_refs(T[t], n, T[t - 1].n, s.draw(5), r); c.desc << " " << n; if(t == 7) { T[7].y.resize(n); for(auto& y : T[7].y) y = r.next() & ((1ull << k) - 1); } }
	c.publish(); run(c, k, T, 4, 4, 1, 65536, 4096, s.seed(), 0, false, true);
}
static pbt::Reg r1({"phase2", phase2_small, true}), r2({"phase2_big", phase2_big, true, false, 3});
PBT_MAIN
