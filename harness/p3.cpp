// C12: phase 3 on synthetic pruned tables, up to the largest k, against a direct computation.
#define SCHED_INTERPOSE
#include "common.hpp"
#include <chia/DiskSort.hpp>
#include <chia/DiskTable.h>
#include <chia/bitfield_index.hpp>
#include "phases.hpp"
#ifdef CHIA_K34
static const int KTOP = 34;
#else
static const int KTOP = 32;
#endif
typedef unsigned __int128 u128;
struct Ref { uint64_t pos, off; };
struct In { int k; std::vector<uint64_t> x; std::vector<bool> used; std::vector<Ref> t[8]; std::vector<uint64_t> y; };      // t[2..7]
struct Out { std::vector<u128> lp[7]; std::multiset<std::pair<uint64_t, uint64_t>> yp; bool fits = true; };

static const std::vector<double>& cost(double R) { static std::map<double, std::vector<double>> m; auto& c = m[R]; if(c.empty()) for(auto x : ref::norm_count(R)) c.push_back(14 - log2(std::max<int>(x, 1))); return c; }
static Out model(const In& in) {
	Out o; std::vector<uint64_t> np; for(size_t i = 0; i < in.x.size(); ++i) if(in.used[i]) np.push_back(in.x[i]);
	for(int t = 2; t <= 7; ++t) {
		const auto& r = in.t[t]; std::vector<std::pair<u128, size_t>> v(r.size());
		for(size_t i = 0; i < r.size(); ++i) v[i] = {ref::line_point(np[r[i].pos], np[r[i].pos + r[i].off]), i};
		std::sort(v.begin(), v.end()); auto& lp = o.lp[t - 1]; std::vector<uint64_t> nn(r.size());
		for(size_t i = 0; i < v.size(); ++i) { lp.push_back(v[i].first); nn[v[i].second] = i; if(i && v[i].first == v[i - 1].first) o.fits = false; }
		const auto& co = cost(ref::RVAL[t - 2]);
		for(size_t i = 0; i < lp.size(); i += 2048) { double b = 40; size_t m = std::min(lp.size(), i + 2048); for(size_t j = i + 1; j < m; ++j) { u128 d = (lp[j] - lp[j - 1]) >> (in.k - 3); if(d >= co.size()) { o.fits = false; break; } b += co[(size_t)d]; } if(m - i <= 3 ? false : b > (ref::delta_size(t - 1) - 2) * 8 * 0.99) o.fits = false; }
		if(t == 7) for(size_t i = 0; i < r.size(); ++i) o.yp.insert({in.y[i], nn[i]});
		np = nn;
	}
	return o;
}
static void gen_refs(std::vector<Ref>& out, uint64_t nl, size_t n, int style, Rng& r) {
	std::set<std::pair<uint64_t, uint64_t>> have; out.clear();
	for(size_t i = 0, tries = 0; i < n && tries < 4 * n; ++tries) {
		uint64_t p, o; const uint64_t mo = std::min<uint64_t>(1023, nl - 1);
		switch(style) {
		case 0: p = r.below(nl - 1); o = 1 + r.below(mo); break;
		case 1: p = (u128)i * (nl - 1) / n; o = 1 + r.below(std::min<uint64_t>(mo, 300)); break;
		case 2: p = r.below(std::max<uint64_t>(1, nl / 8)); o = 1 + r.below(mo); break;                                     // only the start
		case 3: p = nl - 2 - r.below(std::max<uint64_t>(1, (nl - 1) / 8)); o = 1 + r.below(mo); break;                     // only the end
		case 4: p = r.below(2) ? r.below(std::min<uint64_t>(nl - 1, 40)) : nl - 2 - r.below(std::min<uint64_t>(nl - 1, 40)); o = 1 + r.below(mo); break;   // both ends
		default: p = r.below(nl - 1); o = mo; break;
		}
		if(p + o >= nl) o = nl - 1 - p; if(!o) continue;
		if(have.insert({p, o}).second) { out.push_back({p, o}); ++i; }
	}
}
struct Conf { int threads, lb; size_t rch, wch; uint64_t sseed; int slevel; bool two, pd; };
struct CapNP : Processor<std::pair<std::vector<phase3::entry_np>, size_t>> { std::multiset<std::pair<uint64_t, uint64_t>> got; void take(std::pair<std::vector<phase3::entry_np>, size_t>& d) override { for(auto& e : d.first) got.insert({e.key, e.pos}); } };

static void run(Ctx& c, const In& in, const Conf& f, const std::array<uint8_t, 32>& id, const std::vector<uint8_t>& memo) {
	Out want = model(in); if(!want.fits) throw pbt::Discard{"does not fit the format"};
	std::string t1 = c.dir + "a/", t2 = f.two ? c.dir + "b/" : t1, pd = f.pd ? c.dir + "p/" : t1; for(auto& d : {t1, t2, pd}) mkdir(d.c_str(), 0777);
	ChunkSizes cs(f.rch, f.wch); phase2::output_t p2; p2.params.k = in.k; p2.params.id = id; p2.params.memo = memo; p2.params.plot_name = "x";
	p2.bitfield_1 = std::make_shared<bitfield>(in.x.size()); for(size_t i = 0; i < in.x.size(); ++i) if(in.used[i]) p2.bitfield_1->set(i);
	{ DiskTable<phase2::entry_1> d(t2 + "x.t1.tmp"); for(auto x : in.x) { phase2::entry_1 e; e.x = x; d.write(e); } d.close(); p2.table_1 = d.get_info(); }
	Rng r(f.sseed ^ 99);
	for(int t = 2; t <= 6; ++t) {
		auto s = p2.sort[t - 1] = std::make_shared<phase2::DiskSortT>(in.k, f.lb, (t == 2 ? t2 : t1) + "x.t" + std::to_string(t));
		std::vector<std::shared_ptr<phase2::DiskSortT::WriteCache>> w; for(int i = 0; i < 3; ++i) w.push_back(s->add_cache());
		for(size_t i = 0; i < in.t[t].size(); ++i) { phase2::entry_x e{}; e.key = i; e.pos = in.t[t][i].pos; e.off = in.t[t][i].off; w[r.below(3)]->add(e); }
		w.clear(); s->finish();
	}
	{ DiskTable<phase2::entry_7> d(t2 + "x.t7.tmp"); for(size_t i = 0; i < in.t[7].size(); ++i) { phase2::entry_7 e{}; e.y = in.y[i]; e.pos = in.t[7][i].pos; e.off = in.t[7][i].off; d.write(e); } d.close(); p2.table_7 = d.get_info(); }
	sched::on(f.sseed, f.slevel, 400000);
	phase3::output_t out; run_phase3(p2, out, f.threads, f.lb, "x", t1, t2, pd);
	sched::off();
	ref::Plot p; PBT_CHECK(out.plot_file_name == pd + "x.plot.tmp", "plot file is " << out.plot_file_name);
	try {
		p.file = ref::Plot::slurp(out.plot_file_name); p.parse_header(); PBT_CHECK(p.k == in.k && p.id == id && p.memo == memo, "header differs from the parameters"); PBT_CHECK((size_t)out.header_size == p.header_size, "header size reported as " << out.header_size);
		uint64_t at = p.header_size;
		for(int t = 1; t <= 6; ++t) {
			PBT_CHECK(p.ptr[t - 1] == at, "table " << t << " pointer is " << p.ptr[t - 1] << ", expected " << at); at += (want.lp[t].size() + 2047) / 2048 * ref::park_size(in.k, t);
			p.parse_table(t, p.ptr[t - 1], at); PBT_CHECK(p.lp[t].size() == want.lp[t].size(), "table " << t << " holds " << p.lp[t].size() << " entries, expected " << want.lp[t].size());
			for(size_t i = 0; i < want.lp[t].size(); ++i) if(p.lp[t][i] != want.lp[t][i]) { auto a = ref::from_line_point(p.lp[t][i]), b = ref::from_line_point(want.lp[t][i]); pbt::fail("table " + std::to_string(t) + " entry " + std::to_string(i) + " is the line point of (" + std::to_string(a.first) + "," + std::to_string(a.second) + "), expected (" + std::to_string(b.first) + "," + std::to_string(b.second) + ")"); }
		}
		PBT_CHECK(p.ptr[6] == at && out.final_pointer_7 == at, "table 7 pointer is " << p.ptr[6] << "/" << out.final_pointer_7 << ", expected " << at);
	} catch(ref::Bad& e) { pbt::fail(std::string("plot file cannot be read: ") + e.what()); }
	PBT_CHECK(out.num_written_7 == in.t[7].size(), "reports " << out.num_written_7 << " table 7 entries of " << in.t[7].size());
	PBT_CHECK(out.params.k == in.k && out.params.id == id && out.params.memo == memo, "parameters lost");
	CapNP cap; out.sort_7->read(&cap, 2); PBT_CHECK(cap.got == want.yp, "data for phase 4 does not pair the function values with the positions of their line points");
	c.label("k=" + std::to_string(in.k)); c.nontrivial = in.t[7].size() > 2048 || in.t[2].size() > 2048;
}
static void gen_x(pbt::Src& s, In& in, Ctx& c, size_t n2) {
	// table 1 such that the table 2 line points fit the format; sets t[2]
	Rng r(s.seed()); const int k = in.k; const uint64_t top = 1ull << k; int style = s.draw(2); in.x.clear(); in.t[2].clear();
	auto high = [&](uint64_t x0, size_t n) { // n entries: consecutive x below x0, each with two random partners
		for(size_t i = 0; i < n / 2; ++i) { uint64_t b = in.x.size(), x = x0 - i; uint64_t y1 = r.below(x - 1), y2 = r.below(x - 1); if(y1 == y2) y2 = y1 ? y1 - 1 : 1; if(r.below(30) == 0) y1 = x - 1; if(y1 == y2) y2 = 0;
			if(r.below(2)) { in.x.push_back(x); in.x.push_back(y1); in.x.push_back(y2); in.t[2].push_back({b, 1}); in.t[2].push_back({b, 2}); }
			else { in.x.push_back(y1); in.x.push_back(x); in.x.push_back(y2); in.t[2].push_back({b, 1}); in.t[2].push_back({b + 1, 1}); } } };
	auto low = [&](size_t n) { // n entries over x values small enough for their number
		uint64_t b = in.x.size(), X = std::min<uint64_t>(top, (uint64_t)sqrt((double)n * top * 0.9)); size_t nl = std::max<size_t>(n, 30); std::set<uint64_t> have; while(have.size() < nl && have.size() < X / 2) { uint64_t x = r.below(X); if(have.insert(x).second) in.x.push_back(x); }
		std::vector<Ref> q; gen_refs(q, in.x.size() - b, n, s.pick({0, 1, 0, 5}), r); for(auto& e : q) in.t[2].push_back({e.pos + b, e.off}); };
	n2 = std::max<size_t>(n2, 40); if(style == 0) { low(n2); c.desc << " low"; }
	else if(style == 1) { n2 = std::min<uint64_t>(n2, top / 8); uint64_t x0 = s.pick<uint64_t>({top - 1, top - 1, top / 2, top / 2 + n2 / 4}); if(k > 32 && s.coin()) x0 = (1ull << 32) + n2 / 4; high(x0, n2); c.desc << " high"; }
	else { // low part of whole parks, then high
		size_t a = std::max<size_t>(1, n2 / 2 / 2048) * 2048; low(a); if(in.t[2].size() % 2048) throw pbt::Discard{"low part too small"}; size_t m = std::min<uint64_t>(std::max<size_t>(n2 - std::min(n2, a), 100), top / 16); high(top - 1, m); c.desc << " low+high"; }
	// unused rows in between
	size_t m = in.x.size(); std::vector<uint64_t> y; in.used.clear(); const int drop = s.pick({0, 8, 2}); for(size_t i = 0; i < m; ++i) { while(drop && r.below(drop + 1) == 0) { y.push_back(r.below(top)); in.used.push_back(false); } y.push_back(in.x[i]); in.used.push_back(true); } in.x = y;
	Rng r2(s.seed()); if(s.coin()) for(size_t i = in.t[2].size(); i > 1; --i) std::swap(in.t[2][i - 1], in.t[2][r2.below(i)]);
}
static void phase3_case(Ctx& c) {
	pbt::Src& s = c.s; In in; in.k = s.chance(1, 3) ? KTOP : s.chance(1, 2) ? 16 : s.range(16, KTOP); Conf f;
	f.threads = s.draw(23) == 23 ? s.pick({257, 100, 300}) : s.pick({4, 1, 2, 8, 16, 13, 32}); f.lb = std::min(s.pick({4, 4, 5, 6, 7, 1, 3}), in.k / 2); f.rch = s.pick<size_t>({65536, 1000, 100, 4096, 300}); f.wch = s.pick<size_t>({4096, 64, 1, 1000}); f.slevel = s.pick({0, 0, 1, 2, 2}); f.two = s.coin(); f.pd = s.coin();
	c.desc << "k=" << in.k << " threads=" << f.threads << " log_buckets=" << f.lb << " rchunk=" << f.rch << " wchunk=" << f.wch << " sched=" << f.slevel;
	auto gn = [&]() -> size_t { return s.chance(1, 5) ? s.pick<size_t>({2048, 2049, 2047, 4096, 4097, 2050, 2051}) : s.chance(1, 6) ? s.range(50, 500) : s.range(600, 7000); };
	gen_x(s, in, c, gn()); size_t nl = in.t[2].size(); c.desc << " tables: " << in.x.size() << " " << nl;
	for(int t = 3; t <= 7; ++t) {
		size_t n = gn(), least = (size_t)((double)nl * nl / (1ull << in.k) * 1.4) + 4; n = std::max(n, least); int st = s.pick({0, 1, 1, 0, 1, 2, 3, 4, 5}); Rng r(s.seed());
		gen_refs(in.t[t], nl, n, st, r);
		if(t == 7) std::stable_sort(in.t[7].begin(), in.t[7].end(), [](const Ref& a, const Ref& b) { return a.pos < b.pos; });
		nl = in.t[t].size(); c.desc << " " << nl << "/s" << st; if(nl < 3) throw pbt::Discard{"table too small"};
	}
	Rng r(s.seed()); in.y.resize(nl); const int yk = s.draw(2); for(auto& y : in.y) y = yk == 0 ? r.below(1ull << in.k) : yk == 1 ? (1ull << in.k) - 1 - r.below(40) : r.below(3);
	f.sseed = s.seed(); std::array<uint8_t, 32> id; for(auto& b : id) b = r.next(); std::vector<uint8_t> memo(s.pick<size_t>({128, 112, 0, 1, 256})); for(auto& b : memo) b = r.next();
	c.publish(); run(c, in, f, id, memo); if(f.slevel) c.label("schedule noise");
}
static pbt::Reg r1({"phase3", phase3_case, true});
PBT_MAIN
