// C15 (and the tail part of C04): phase 4 on synthetic table 7 data, read back the way a harvester does.
#define SCHED_INTERPOSE
#include "common.hpp"
#include <chia/DiskSort.hpp>
#include "phases.hpp"
#ifdef CHIA_K34
static const int KTOP = 34, POSBITS = 35;
#else
static const int KTOP = 32, POSBITS = 32;
#endif
typedef unsigned __int128 u128;

// ---- harvester-side lookup, after the published algorithm: C2 -> C1 -> C3 -> P7
struct Harvester {
	const ref::Plot& p; int k; uint64_t ces, n2, n1;
	explicit Harvester(const ref::Plot& p) : p(p), k(p.k), ces(ref::bytes_of(p.k)) { n2 = (p.ptr[9] - p.ptr[8]) / ces; n1 = (p.ptr[8] - p.ptr[7]) / ces - 1; }
	uint64_t c2(uint64_t i) const { return (uint64_t)ref::bits_of(p.at(p.ptr[8] + i * ces, ces, "C2"), 0, k); }
	uint64_t c1(uint64_t i) const { return (uint64_t)ref::bits_of(p.at(p.ptr[7] + i * ces, ces, "C1"), 0, k); }
	bool park(uint64_t i, std::vector<uint64_t>& out) const {
		const uint8_t* q = p.at(p.ptr[9] + i * ref::c3_size(k), ref::c3_size(k), "C3 park"); uint32_t sz = q[0] << 8 | q[1];
		std::vector<uint8_t> d; out.clear(); out.push_back(c1(i));
		if(sz && !ref::Tans::get(1.0).decode(q + 2, sz, d, 9999)) return false;
		for(auto x : d) out.push_back(out.back() + x);
		return true;
	}
	std::vector<uint64_t> lookup(uint64_t f7) const {
		std::vector<uint64_t> r; uint64_t b = 0; bool any = false;
		for(uint64_t i = 0; i + 1 < n2; ++i) { if(c2(i) <= f7) { b = i; any = true; } else break; }
		if(!any) return r;
		uint64_t i = b * 10000; if(i > 0 && c1(i) == f7) --i;      // equal values may start in the park before
		while(i + 1 < n1 && c1(i + 1) < f7) ++i;
		for(; i < n1; ++i) {
			if(c1(i) > f7) break;
			std::vector<uint64_t> f; if(!park(i, f)) pbt::fail("harvester cannot decode C3 park " + std::to_string(i));
			for(size_t j = 0; j < f.size(); ++j) if(f[j] == f7) {
				uint64_t n = i * 10000 + j; r.push_back((uint64_t)ref::bits_of(p.at(p.ptr[6] + n / 2048 * ref::p7_size(k), ref::p7_size(k), "P7 park"), (n % 2048) * (k + 1), k + 1));
			}
		}
		return r;
	}
};

static const std::vector<double>& cost() {
	static std::vector<double> c; if(c.empty()) for(auto x : ref::norm_count(1.0)) c.push_back(14 - log2(std::max<int>(x, 1))); return c;
}
struct Entry { uint64_t f, pos; };

static std::string write_header(const std::string& path, int k, const std::array<uint8_t, 32>& id, const std::vector<uint8_t>& memo, const uint64_t* ptr, int& hs) {
	std::string h = "Proof of Space Plot"; h.append((const char*)id.data(), 32); h += (char)k; h += std::string("\0\4v1.0", 6); h += (char)(memo.size() >> 8); h += (char)memo.size(); h.append((const char*)memo.data(), memo.size());
	for(int i = 0; i < 10; ++i) for(int j = 7; j >= 0; --j) h += (char)(ptr[i] >> (8 * j));
	hs = h.size(); FILE* f = fopen(path.c_str(), "wb"); fwrite(h.data(), 1, h.size(), f); fclose(f); return h;
}
struct P4 { int k, threads, lb, writers; size_t rch, wch; uint64_t sseed; int slevel; uint64_t gap; };

static void run_p4(const std::string& dir, const P4& a, const std::vector<Entry>& E, const std::array<uint8_t, 32>& id, const std::vector<uint8_t>& memo, ref::Plot& p, uint64_t& reported) {
	ChunkSizes cs(a.rch, a.wch); int hs; std::string tmp = dir + "x.plot.tmp";
	uint64_t ptr[10] = {}; const uint64_t hsize = 19 + 32 + 1 + 6 + 2 + memo.size() + 80;
	for(int i = 0; i < 7; ++i) ptr[i] = hsize + a.gap / 7 * i; ptr[6] = hsize + a.gap;
	std::string head = write_header(tmp, a.k, id, memo, ptr, hs);
	// bytes between header and table 7 stand for tables 1..6: they must stay as they are
	std::string fill; if(a.gap < 100000) { for(uint64_t i = 0; i < a.gap; ++i) fill += (char)(i * 37 + 11); FILE* f = fopen(tmp.c_str(), "ab"); fwrite(fill.data(), 1, fill.size(), f); fclose(f); }
	else if(truncate(tmp.c_str(), ptr[6])) throw pbt::Discard{"no sparse files"};
	phase3::output_t in; in.header_size = hs; in.num_written_7 = E.size(); in.final_pointer_7 = ptr[6]; in.params.k = a.k; in.params.id = id; in.params.memo = memo; in.params.plot_name = "x"; in.plot_file_name = tmp;
	sched::on(a.sseed, a.slevel);
	in.sort_7 = std::make_shared<phase3::DiskSortNP>(a.k, a.lb, dir + "s7");
	{ std::vector<std::shared_ptr<phase3::DiskSortNP::WriteCache>> w; for(int i = 0; i < a.writers; ++i) w.push_back(in.sort_7->add_cache());
	  Rng r(a.sseed); std::vector<uint32_t> ord(E.size()); std::iota(ord.begin(), ord.end(), 0); for(size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
	  for(auto i : ord) { phase3::entry_np e{}; e.key = E[i].f; e.pos = E[i].pos; w[r.below(a.writers)]->add(e); } }
	in.sort_7->finish();
	phase4::output_t out; run_phase4(in, out, a.threads, a.lb, "x", dir, dir, dir); in.sort_7 = nullptr;
	sched::off();
	reported = out.plot_size;
	PBT_CHECK(out.plot_file_name == dir + "x.plot", "finished plot is " << out.plot_file_name);
	struct stat st; PBT_CHECK(!stat(out.plot_file_name.c_str(), &st), "no file under the final name");
	PBT_CHECK(stat(tmp.c_str(), &st) != 0, "temporary plot file still there");
	stat(out.plot_file_name.c_str(), &st);
	FILE* f = fopen(out.plot_file_name.c_str(), "rb"); std::vector<uint8_t> h(hs); if(fread(h.data(), 1, hs, f) != (size_t)hs) pbt::fail("file too short");
	p.file = h; p.parse_header(); PBT_CHECK(!memcmp(h.data(), head.data(), hs - 24), "phase 4 changed the header or the table 1..7 pointers");
	if(!fill.empty()) { std::string g(fill.size(), 0); fseeko(f, hs, SEEK_SET); PBT_CHECK(fread(&g[0], 1, g.size(), f) == g.size() && g == fill, "phase 4 changed bytes of tables 1..6"); }
	p.base = ptr[6]; p.file.resize(st.st_size - ptr[6]); fseeko(f, ptr[6], SEEK_SET); if(fread(p.file.data(), 1, p.file.size(), f) != p.file.size()) pbt::fail("short file"); fclose(f);
	PBT_CHECK((uint64_t)st.st_size == reported, "file has " << st.st_size << " bytes, phase 4 reports " << reported);
}
static uint64_t gen_n(pbt::Src& s) {
	switch(s.draw(9)) {
	case 0: case 1: return s.range(1, 60);
	case 2: return s.pick<uint64_t>({2048, 2047, 2049, 4096, 4095, 4097, 6144, 10240, 20480});
	case 3: return s.range(1, 4) * 10000 + s.range(0, 6);
	case 4: return s.range(1, 4) * 10000 - s.range(0, 3);
	case 5: return s.range(30000, 60000);
	default: return s.range(1, 30000);
	}
}
static void gen_values(pbt::Src& s, int k, uint64_t n, std::vector<Entry>& E, std::ostream& desc) {
	Rng r(s.seed()); const int kind = s.draw(6); const auto& co = cost(); const double room = (ref::c3_size(k) - 12) * 8.0 * 0.985 - 60;
	const uint64_t top = 1ull << k; int maxd = std::min<int>(co.size() - 1, 110);
	std::vector<uint64_t> f(n); double used = 0; uint64_t v = 0; uint64_t avg_cap = n ? (top - 1) / n : 1;
	for(uint64_t i = 0; i < n; ++i) {
		uint64_t d;
		switch(kind) {
		case 0: { d = 0; while(r.below(2)) ++d; break; }                                    // geometric: a typical plot
		case 1: d = r.below(40) == 0 ? r.below(maxd + 1) : r.below(2); break;               // rare big steps
		case 2: d = (i / 97) % 2; break;                                                      // long plateaus
		case 3: d = i % 10000 < 3 || i % 10000 > 9997 ? 0 : r.below(3); break;                // equal values across checkpoints
		case 4: d = i % 2048 < 2 ? 0 : r.below(3); break;                                     // ... and across park borders
		case 5: d = r.below(n) < 3 ? maxd : 0; break;                                         // nearly all equal
		default: d = 1; break;
		}
		if(i == 0) d = 0;
		if(avg_cap < 2 && d > 1 && r.below(3)) d = 1;
		if(i % 10000 == 0) used = 0; else { if(used + co[d] + (9999 - i % 10000) * 1.45 > room) d = d > 1 ? 1 : d; used += co[d]; }
		if(v + d >= top) d = 0;
		v += d; f[i] = v;
	}
	uint64_t free_ = top - 1 - v, off = 0; const int where = s.draw(3);
	switch(where) { case 0: off = 0; break; case 1: off = free_; break; default: off = free_ ? r.below(free_ + 1) : 0; }
	desc << " values=" << kind << (where == 0 ? " from 0" : where == 1 ? " up to 2^k-1" : "");
	uint64_t pmax = std::min<uint64_t>((2ull << k) - 1, (1ull << POSBITS) - 1); const int pk = s.draw(3);
	E.resize(n); for(uint64_t i = 0; i < n; ++i) E[i] = {f[i] + off, pk == 0 ? i : pk == 1 ? pmax - i : r.below(pmax) + (r.below(3) == 0)};
}
static void check(Ctx& c, const P4& a, std::vector<Entry> E, const std::string& dir, pbt::Src& s) {
	std::array<uint8_t, 32> id; { Rng r(a.sseed ^ 5); for(auto& b : id) b = r.next(); } std::vector<uint8_t> memo(s.pick<size_t>({128, 112, 0, 300}), 7);
	ref::Plot p; uint64_t size = 0; const uint64_t n = E.size();
	try {
		run_p4(dir, a, E, id, memo, p, size); p.parse_tail(n, size);
	} catch(ref::Bad& e) { pbt::fail(std::string("lookup tables cannot be read: ") + e.what()); }
	const uint64_t readable = p.f7.size(); if(!p.tail_unreadable) PBT_CHECK(readable == n, "lookup tables hold " << readable << " of " << n << " values");
	std::map<uint64_t, std::multiset<uint64_t>> want, got;
	for(uint64_t i = 0; i < readable; ++i) PBT_CHECK(p.f7[i] == E[i].f, "value " << i << " reads " << p.f7[i] << ", expected " << E[i].f);
	for(auto& e : E) want[e.f].insert(e.pos);
	for(uint64_t i = 0; i < n; ++i) got[E[i].f].insert(p.p7[i]);
	for(auto& w : want) PBT_CHECK(got[w.first] == w.second, "table 7 positions of value " << w.first << " are not those of its entries");
	const uint64_t last_ok = p.tail_unreadable ? E[readable - 1].f : ~0ull;
	Harvester h(p); Rng r(a.sseed + 1); std::set<uint64_t> q{0, 1, (1ull << a.k) - 1, E[0].f, E[n - 1].f, E[0].f - 1, E[n - 1].f + 1};
	for(uint64_t i = 0; i < n; i += 10000) { q.insert(E[i].f); q.insert(E[i].f + 1); if(i) q.insert(E[i - 1].f); if(E[i].f) q.insert(E[i].f - 1); }
	for(int i = 0; i < 12; ++i) { uint64_t f = E[r.below(n)].f; q.insert(f); q.insert(f + 1); q.insert(r.below(1ull << a.k)); }
	for(auto v : q) { if(v >> a.k || v >= last_ok) continue; auto x = h.lookup(v); std::multiset<uint64_t> y(x.begin(), x.end());
		auto it = want.find(v); if(it == want.end()) PBT_CHECK(y.empty(), "lookup of absent value " << v << " finds " << y.size() << " entries"); else PBT_CHECK(y == it->second, "lookup of " << v << " finds " << y.size() << " entries, or wrong ones; there are " << it->second.size()); }
	if(n > 10000) c.label("several checkpoints"); if(n % 2048 == 0) c.label("full last park"); if(n % 10000 == 0) c.label("full last checkpoint"); if(n % 10000 == 1) c.label("single entry in the last checkpoint");
	if(E[n - 1].f == (1ull << a.k) - 1) c.label("value 2^k-1 present"); if(a.gap >> 32) c.label("beyond 4 GiB");
	if(n > 3 && want.size() > 1) c.nontrivial = true;
	if(p.tail_unreadable) pbt::fail("the last " + std::to_string(n % 10000 - 1) + " of " + std::to_string(n) + " function values are not stored: C3 park has size 0");
}
static P4 gen_p4(Ctx& c, pbt::Src& s, int kmin = 16) {
	P4 a; a.k = s.chance(1, 4) ? KTOP : s.range(kmin, KTOP); a.threads = s.draw(23) == 23 ? s.pick({257, 100, 300}) : s.pick({4, 1, 2, 3, 8, 16}); a.lb = std::min(s.pick({4, 4, 4, 5, 6, 8, 1, 3}), a.k / 2); a.writers = s.range(1, 5);
	a.rch = s.pick<size_t>({65536, 1000, 4096, 317}); a.wch = s.pick<size_t>({4096, 64, 1, 1000}); a.slevel = s.pick({0, 0, 1, 2}); a.sseed = s.seed(); a.gap = s.pick<uint64_t>({700, 0, 7, 7000, 5000000000ull});
	c.desc << "k=" << a.k << " threads=" << a.threads << " log_buckets=" << a.lb << " writers=" << a.writers << " rchunk=" << a.rch << " wchunk=" << a.wch << " sched=" << a.slevel << " gap=" << a.gap; return a;
}
static void lookup(Ctx& c) {
	pbt::Src& s = c.s; P4 a = gen_p4(c, s); uint64_t n = gen_n(s); if(n % 10000 == 2 || n % 10000 == 3) n += 2;      // 2, 3: suite lookup_tail23
	c.desc << " n=" << n; std::vector<Entry> E; gen_values(s, a.k, n, E, c.desc); c.publish(); check(c, a, E, c.dir, s);
}
// the recorded defect: 2 or 3 entries after the last checkpoint
static void lookup_tail23(Ctx& c) {
	pbt::Src& s = c.s; P4 a = gen_p4(c, s); uint64_t n = s.range(0, 3) * 10000 + s.range(2, 3);
	c.desc << " n=" << n; std::vector<Entry> E; gen_values(s, a.k, n, E, c.desc); c.publish(); check(c, a, E, c.dir, s);
}
// more than 10^8 entries: second C2 entry
static void lookup_c2(Ctx& c) {
	pbt::Src& s = c.s; const int k = 27; 
#ifdef CHIA_K34
	const uint64_t n = 100000000ull;		// the last one that needs a single C2 entry
#else
	const uint64_t n = 100000000ull + s.range(4, 30000);
#endif
	c.desc << "k=27 n=" << n; c.publish(); const uint64_t seed = s.seed();
	auto dl = [&](uint64_t i) -> uint64_t { return i == 0 ? 0 : 1 + ((i * 0x9E3779B97F4A7C15ull ^ seed) >> 61 < 2); };     // 1, or 2 in a quarter of the cases
	int hs; uint64_t ptr[10] = {}; std::array<uint8_t, 32> id{}; std::vector<uint8_t> memo(128); const uint64_t hsize = 60 + 128 + 80; for(int i = 0; i < 7; ++i) ptr[i] = hsize;
	write_header(c.dir + "x.plot.tmp", k, id, memo, ptr, hs); phase3::output_t in; in.header_size = hs; in.num_written_7 = n; in.final_pointer_7 = hs; in.params.k = k; in.params.plot_name = "x"; in.plot_file_name = c.dir + "x.plot.tmp";
	in.sort_7 = std::make_shared<phase3::DiskSortNP>(k, 8, c.dir + "s7");
	{ auto w = in.sort_7->add_cache(); uint64_t v = 0; for(uint64_t i = 0; i < n; ++i) { v += dl(i); phase3::entry_np e{}; e.key = v; e.pos = (i * 3) & 0xfffffff; w->add(e); } if(v >> k) throw pbt::Discard{"values too large"}; }
	in.sort_7->finish(); phase4::output_t out; run_phase4(in, out, 8, 8, "x", c.dir, c.dir, c.dir); in.sort_7 = nullptr;
	ref::Plot p; p.file = ref::Plot::slurp(out.plot_file_name); p.parse_header(); PBT_CHECK(p.file.size() == out.plot_size, "file has " << p.file.size() << " bytes, phase 4 reports " << out.plot_size);
	const uint64_t ces = 4, nc1 = (n + 9999) / 10000, nc2 = (nc1 + 9999) / 10000; 
	PBT_CHECK(p.ptr[7] == p.ptr[6] + (n + 2047) / 2048 * ref::p7_size(k) && p.ptr[8] == p.ptr[7] + (nc1 + 1) * ces && p.ptr[9] == p.ptr[8] + (nc2 + 1) * ces && out.plot_size == p.ptr[9] + nc1 * ref::c3_size(k), "pointers wrong");
	auto ce = [&](uint64_t b, uint64_t i) { return (uint64_t)ref::bits_of(p.at(b + i * ces, ces, "checkpoint"), 0, k); };
	Harvester h(p); uint64_t v = 0; std::vector<std::pair<uint64_t, uint64_t>> q; Rng r(seed);
	for(uint64_t i = 0; i < n; ++i) { v += dl(i);
		if(i % 10000 == 0) PBT_CHECK(ce(p.ptr[7], i / 10000) == v, "C1 entry " << i / 10000 << " is " << ce(p.ptr[7], i / 10000) << ", expected " << v);
		if(i % 100000000 == 0) PBT_CHECK(ce(p.ptr[8], i / 100000000) == v, "C2 entry " << i / 100000000 << " is " << ce(p.ptr[8], i / 100000000) << ", expected " << v);
		if(i % 1000003 == 5 || i == n - 1 || (i > 99999990 && i < 100000012)) q.push_back({v, (i * 3) & 0xfffffff});
	}
	PBT_CHECK(ce(p.ptr[7], nc1) == 0 && ce(p.ptr[8], nc2) == 0, "terminator missing");
	for(auto& e : q) { auto x = h.lookup(e.first); PBT_CHECK(x.size() == 1 && x[0] == e.second, "lookup of " << e.first << " finds " << x.size() << " entries, or a wrong one"); }
	c.nontrivial = true;
}
static pbt::Reg r1({"lookup", lookup, true}), r2({"lookup_tail23", lookup_tail23}), r3({"lookup_c2", lookup_c2, false, false, 1, 60});
PBT_MAIN
