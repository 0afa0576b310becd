// C17: f1, f2..f7, matching and the stream cipher at every k of the build.
#define SCHED_INTERPOSE
#include "common.hpp"
#include <chia/phase1.hpp>
#include <chia/DiskSort.hpp>
#ifdef CHIA_K34
static const int KTOP = 34;
#else
static const int KTOP = 32;
#endif
using namespace phase1;

static void f1_case(Ctx& c) {
	pbt::Src& s = c.s; int k = s.range(16, KTOP); uint8_t id[32]; Rng r(s.seed()); for(auto& b : id) b = r.next(); const uint64_t top = 1ull << k; uint64_t x0;
	switch(s.draw(4)) { case 0: x0 = s.draw(40); break; case 1: x0 = top - 16 - s.draw(40); break; case 2: x0 = s.draw(top - 17); break; case 3: x0 = (1ull << s.range(5, k - 1)) - s.draw(20); break; default: x0 = (s.draw(top - 17) / 16) * 16; }
	uint64_t n = s.chance(2, 3) ? 16 : s.range(1, 16); x0 = std::min(x0, top - n); c.desc << "k=" << k << " x=" << x0 << "+" << n << " id=" << hex(id, 32); c.publish();
	F1Calculator f(k, id); std::vector<entry_1> e(n); f.compute_block(x0, n, e.data()); ref::F1 g(k, id);
	for(uint64_t i = 0; i < n; ++i) { PBT_CHECK((uint64_t)e[i].x == x0 + i, "entry " << i << " is for x=" << e[i].x); PBT_CHECK(e[i].y == g(x0 + i), "f1(" << x0 + i << ") = " << e[i].y << ", expected " << g(x0 + i)); }
	c.nontrivial = n > 1; c.label("k=" + std::to_string(k));
}
static void chacha(Ctx& c) {
	pbt::Src& s = c.s; uint8_t key[32], iv[8]; Rng r(s.seed()); for(auto& b : key) b = r.next(); for(auto& b : iv) b = r.next(); bool use_iv = s.chance(1, 3); if(s.chance(1, 10)) memset(key, 0, 32);
	uint64_t pos; switch(s.draw(3)) { case 0: pos = s.draw(100); break; case 1: pos = (1ull << 32) - s.draw(40); break; case 2: pos = s.draw((1ull << 33) - 1); break; default: pos = s.draw((1ull << 40) - 1); } uint32_t n = s.range(0, 40); c.desc << "block " << pos << "+" << n << (use_iv ? " iv" : ""); c.publish();
	chacha8_ctx x; chacha8_keysetup(&x, key, 256, use_iv ? iv : nullptr); std::vector<uint8_t> o(n * 64 + 64, 0xAA), w(n * 64 + 64, 0xAA); chacha8_get_keystream(&x, pos, n, o.data());
	for(uint32_t i = 0; i < n; ++i) ref::chacha8_block(key, pos + i, &w[i * 64], use_iv ? iv : nullptr); PBT_CHECK(o == w, "keystream differs, or more than the announced blocks were written"); c.nontrivial = n > 0; if(pos <= 0xffffffffull && pos + n > 0xffffffffull) c.label("counter crosses 2^32");
}
struct Ent { uint64_t y; ref::Meta m; bool operator<(const Ent& o) const { return y < o.y; } };
template<typename T> struct IO { static void put(T& e, const Ent& x, Rng& r, size_t bytes) { e = T(); e.pos = 0; e.off = 0; for(auto& b : e.meta) b = r.next(); memcpy(e.meta.data(), x.m.b, bytes); e.y = x.y; } static ref::Meta meta(const T& e, int k, size_t bits) { ref::Meta m; memcpy(m.b, e.meta.data(), std::min(sizeof m.b, e.meta.size())); for(size_t i = bits; i < sizeof(m.b) * 8; ++i) m.b[i / 8] &= ~(0x80 >> (i % 8)); return m; } };
template<> struct IO<entry_1> { static void put(entry_1& e, const Ent& x, Rng&, size_t) { e.y = x.y; e.x = 0; } static ref::Meta meta(const entry_1& e, int k, size_t) { return ref::x_meta(e.x, k); } };
template<> struct IO<entry_7> { static ref::Meta meta(const entry_7&, int, size_t) { return ref::Meta(); } };
template<typename T> struct CapV : Processor<std::vector<T>> { std::mutex m; std::vector<T> got; void take(std::vector<T>& d) override { std::lock_guard<std::mutex> l(m); for(auto& e : d) got.push_back(e); } };

template<typename T, typename S, typename R, typename DL, typename DR> static void match_t_(Ctx& c, int t, int k) {
	pbt::Src& s = c.s; int threads = s.pick({2, 1, 4, 8}), lb = s.pick({4, 4, 5, 6}); const uint64_t lim = 1ull << (k + 6), ng = lim / ref::BC + 1; int G = s.range(2, 14); uint64_t g0; switch(s.draw(3)) { case 0: g0 = 0; break; case 1: g0 = ng - G; break; case 2: g0 = s.draw(ng - G - 1); break; default: g0 = ((1ull << 32) / ref::BC) < ng - G ? (1ull << 32) / ref::BC - G / 2 : 0; }
	size_t rch = s.pick<size_t>({65536, 500, 50}), wch = s.pick<size_t>({4096, 64, 1}); int lvl = s.pick({0, 0, 1}); Rng r(s.seed()); std::vector<Ent> E; int mode = s.draw(3);
	c.desc << "table " << t << " k=" << k << " groups " << g0 << "+" << G << " mode=" << mode << " threads=" << threads << " log_buckets=" << lb << " rchunk=" << rch << " wchunk=" << wch << " sched=" << lvl; c.publish();
	if(g0 == 1) g0 = 0;      // tables of a plot never lack group 0
	const size_t bits = (size_t)ref::VLEN[t] * k;
	for(int g = 0; g < G; ++g) { size_t n = mode == 1 && r.below(3) == 0 ? 0 : mode == 2 ? r.below(8) : 100 + r.below(300); if(!n && g0 == 0 && g == 0) n = 1; for(size_t i = 0; i < n; ++i) { Ent e; e.y = (g0 + g) * ref::BC + (mode == 3 && i && r.below(3) == 0 ? E.back().y % ref::BC : r.below(ref::BC)); if(r.below(40) == 0) e.y = (g0 + g) * ref::BC + (r.below(2) ? 0 : ref::BC - 1); if(e.y >= lim) continue;
		if(T::disk_size == entry_1::disk_size && t == 2) {} for(size_t b = 0; b < bits; ++b) if(r.next() & 1) e.m.b[b / 8] |= 0x80 >> (b % 8); if(r.below(50) == 0) memset(e.m.b, 0, 18); E.push_back(e); } }
	ChunkSizes cs(rch, wch); DL in(k + 6, lb, c.dir + "L"); { auto w = in.add_cache(); for(auto& e : E) { T x; IO<T>::put(x, e, r, (bits + 7) / 8); if constexpr(std::is_same<T, entry_1>::value) { x.x = (uintkx_t)(uint64_t)ref::bits_of(e.m.b, 0, k); } w->add(x); } } in.finish();
	CapV<T> L; CapV<S> out; phase1::initialize(); sched::on(s.seed(), lvl, 200000);
	const uint64_t n = compute_matches<T, S, R>(t, k, threads, &in, (DR*)nullptr, &L, &out); sched::off();
	PBT_CHECK(L.got.size() == E.size(), "left table passes on " << L.got.size() << " of " << E.size() << " entries"); PBT_CHECK(n == out.got.size(), "reports " << n << " matches, delivers " << out.got.size());
	// naive matching over the delivered order
	std::map<uint64_t, std::vector<size_t>> grp; uint64_t last = 0; for(size_t i = 0; i < L.got.size(); ++i) { PBT_CHECK(L.got[i].y >= last, "left table is not sorted"); last = L.got[i].y; grp[L.got[i].y / ref::BC].push_back(i); }
	std::map<std::pair<uint64_t, uint64_t>, size_t> at; for(size_t i = 0; i < out.got.size(); ++i) { auto key = std::make_pair((uint64_t)out.got[i].pos, (uint64_t)out.got[i].off); PBT_CHECK(at.emplace(key, i).second, "pair (" << key.first << "," << key.first + key.second << ") is found twice"); }
	size_t want = 0;
	for(auto& g : grp) { auto q = grp.find(g.first + 1); if(q == grp.end()) continue;
		for(size_t a : g.second) for(size_t b : q->second) if(ref::matches(L.got[a].y, L.got[b].y)) { ++want; auto it = at.find({a, b - a}); PBT_CHECK(it != at.end(), "matching pair (" << a << "," << b << ") with y " << L.got[a].y << "," << L.got[b].y << " is missing");
			uint64_t y; ref::Meta m; ref::fx(k, t, L.got[a].y, IO<T>::meta(L.got[a], k, bits), IO<T>::meta(L.got[b], k, bits), y, m); const S& e = out.got[it->second];
			PBT_CHECK((uint64_t)e.y == y, "f" << t << " of (" << a << "," << b << ") is " << (uint64_t)e.y << ", expected " << y); if(t < 7) { auto mm = IO<S>::meta(e, k, (size_t)ref::VLEN[t + 1] * k); PBT_CHECK(!memcmp(mm.b, m.b, 18), "metadata of table " << t << " differs for (" << a << "," << b << ")"); } } }
	PBT_CHECK(want == out.got.size(), out.got.size() << " pairs found, the definition gives " << want); c.nontrivial = want > 10; c.label("table " + std::to_string(t)); if(k == KTOP) c.label("largest k");
}
static void match_case(Ctx& c) {
	int k = c.s.chance(1, 3) ? KTOP : c.s.range(16, KTOP), t = c.s.range(2, 7);
	switch(t) { case 2: match_t_<entry_1, entry_2, tmp_entry_1, DiskSort1, DiskSort2>(c, t, k); break; case 3: match_t_<entry_2, entry_3, tmp_entry_x, DiskSort2, DiskSort3>(c, t, k); break; case 4: match_t_<entry_3, entry_4, tmp_entry_x, DiskSort3, DiskSort4>(c, t, k); break;
		case 5: match_t_<entry_4, entry_5, tmp_entry_x, DiskSort4, DiskSort5>(c, t, k); break; case 6: match_t_<entry_5, entry_6, tmp_entry_x, DiskSort5, DiskSort6>(c, t, k); break; default: match_t_<entry_6, entry_7, tmp_entry_x, DiskSort6, DiskSort7>(c, t, k); }
}
// Positions of a group anywhere in a table, up to the largest one a record can hold (further entries cannot be referred to and are left out)
static void match_pos(Ctx& c) {
	pbt::Src& s = c.s; const uint64_t top = 1ull << PMAX; const uint64_t lim = 1ull << (KTOP + 6); uint64_t g = s.draw(lim / ref::BC - 2); Rng r(s.seed());
	auto mk = [&](uint64_t g, size_t n) { std::vector<entry_2> v(n); std::vector<uint64_t> y(n); for(auto& x : y) x = g * ref::BC + r.below(ref::BC); std::sort(y.begin(), y.end()); for(size_t i = 0; i < n; ++i) { v[i] = entry_2(); v[i].y = y[i]; } return v; };
	auto L = mk(g, s.range(1, 400)), R = mk(g + 1, s.range(1, 400)); uint64_t p0;
	switch(s.draw(4)) { case 0: p0 = top - 1 - s.draw(L.size()); break; case 1: p0 = s.draw(1000); break; case 2: p0 = s.draw(top - 1); break; case 3: p0 = (1ull << s.range(16, PMAX - 1)) - 1 - s.draw(L.size()); break; default: p0 = top - s.draw(4); }
	c.desc << "groups " << g << "," << g + 1 << " of " << L.size() << "," << R.size() << " entries, position " << p0; c.publish(); phase1::initialize(); FxMatcher<entry_2> M; std::vector<match_t<entry_2>> out; M.find_matches(p0, L, R, out); if(s.coin()) { out.clear(); M.find_matches(p0, L, R, out); }
	std::map<std::pair<uint64_t, uint64_t>, int> at; for(auto& m : out) { auto key = std::make_pair((uint64_t)m.pos, (uint64_t)m.off); PBT_CHECK(at[key]++ == 0, "pair at " << (uint64_t)m.pos << " found twice"); } size_t want = 0, cut = 0;
	for(size_t i = 0; i < L.size(); ++i) for(size_t j = 0; j < R.size(); ++j) if(ref::matches(L[i].y, R[j].y)) { const uint64_t p = p0 + i; if(p >= top) { ++cut; continue; } ++want; auto key = std::make_pair(p, (uint64_t)(L.size() - i + j)); PBT_CHECK(at.count(key), "matching pair at position " << p << " offset " << L.size() - i + j << " is missing"); }
	PBT_CHECK(want == out.size(), out.size() << " pairs reported, the definition gives " << want); c.nontrivial = want + cut > 0; if(cut) c.label("positions beyond the largest"); if(p0 + L.size() >= top) c.label("at the largest position");
}
static pbt::Reg r4({"match_pos", match_pos});
static pbt::Reg r1({"f1", f1_case}), r2({"chacha", chacha}), r3({"matches", match_case, true});
PBT_MAIN
