// C13 / C14: line points and delta coding.
#ifndef VP_TSAN
#define SCHED_INTERPOSE
#endif
#include "common.hpp"
#include <chia/encoding.hpp>
typedef unsigned __int128 u128;
static std::string dec(u128 v) { std::string s; do { s = char('0' + (int)(v % 10)) + s; v /= 10; } while(v); return s; }

static uint64_t gen_pos(pbt::Src& s, int k) {
	uint64_t m = (1ull << k) - 1;
	switch(s.draw(6)) { case 0: return s.draw(std::min<uint64_t>(m, 5)); case 1: return m - s.draw(std::min<uint64_t>(m, 5)); case 2: return std::min<uint64_t>(m, (1ull << s.draw(k)) ); case 3: return std::min<uint64_t>(m, (1ull << s.draw(k)) - 1); default: return s.draw(m); }
}
static void line_point(Ctx& c) {
	pbt::Src& s = c.s; int k = s.range(1, 36); uint64_t a = gen_pos(s, k), b = s.chance(1, 4) ? (a ^ 1) & ((1ull << k) - 1) : s.chance(1, 6) ? a + (a < (1ull << k) - 1 ? 1 : -1) : gen_pos(s, k);
	if(a == b) b = a ? a - 1 : 1; c.desc << "k=" << k << " (" << a << "," << b << ")"; c.publish(); if(k == 36 ) c.label("36 bits");
	u128 p = Encoding::SquareToLinePoint(a, b), q = Encoding::SquareToLinePoint(b, a); PBT_CHECK(p == q, "line point depends on the order: " << dec(p) << " / " << dec(q));
	uint64_t hi = std::max(a, b), lo = std::min(a, b); PBT_CHECK(p == ref::tri(hi) + lo, "line point is " << dec(p) << ", expected x(x-1)/2+y = " << dec(ref::tri(hi) + lo));
	PBT_CHECK(p < ((u128)1 << (2 * k - 1)), "line point " << dec(p) << " needs more than " << 2 * k - 1 << " bits");
	auto r = Encoding::LinePointToSquare(p); PBT_CHECK(r.first == hi && r.second == lo, "decoding gives (" << r.first << "," << r.second << ")");
	// neighbours decode to neighbours: consecutive line points enumerate consecutive pairs
	auto n = Encoding::LinePointToSquare(p + 1); uint64_t eh = hi, el = lo + 1; if(el == hi) { eh = hi + 1; el = 0; } PBT_CHECK(n.first == eh && n.second == el, "decoding the next line point gives (" << n.first << "," << n.second << "), expected (" << eh << "," << el << ")");
	// different pairs, different points
	uint64_t e = gen_pos(s, k), f = gen_pos(s, k); if(e != f && std::minmax(e, f) != std::minmax(a, b)) PBT_CHECK(Encoding::SquareToLinePoint(e, f) != p, "(" << e << "," << f << ") has the same line point");
	if(s.chance(1, 50)) { uint64_t x = s.draw(200); u128 i = 0; for(uint64_t h = 1; h < x; ++h) for(uint64_t l = 0; l < h; ++l, ++i) { PBT_CHECK(Encoding::SquareToLinePoint(h, l) == i, "line point of (" << h << "," << l << ")"); PBT_CHECK(Encoding::LinePointToSquare(i) == std::make_pair(h, l), "decoding " << dec(i)); } c.label("small triangle enumerated"); }
	c.nontrivial = hi > 2; if(hi >> 32) c.label("beyond 32 bits");
}
static std::vector<uint8_t> gen_deltas(pbt::Src& s, double R, size_t n, std::ostream& d) {
	size_t N = ref::Tans::get(R).num_symbols; size_t mx = std::min<size_t>(N - 1, 254); Rng r(s.seed()); std::vector<uint8_t> v(n); int st = s.draw(7); d << " style=" << st; uint64_t c = s.draw(mx), w = s.range(1, 30);
	const double E = 2.718281828459;
	for(auto& x : v) switch(st) {
		case 0: case 1: { double u = (r.next() >> 11) * (1.0 / 9007199254740992.0); double t = -R * log(1 - u) ; t += R * log((E - 1) / E) * 0; x = std::min<double>(mx, floor(t)); break; }
		case 2: x = r.below(mx + 1); break; case 3: x = c; break; case 4: x = r.below(w) ? r.below(3) : r.below(mx + 1); break; case 5: x = r.next() % 2 ? 0 : mx; break; case 6: x = std::min<uint64_t>(mx, c + r.below(3)); break;
		default: x = r.below(2);
	}
	return v;
}
static std::string show_diff(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) { size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) ++i; return std::to_string(b.size()) + " symbols of " + std::to_string(a.size()) + ", first difference at " + std::to_string(i); }
static void check_one(const std::vector<uint8_t>& v, double R) {
	std::vector<uint8_t> out(v.size() * 8 + 64, 0xEE); size_t n = Encoding::ANSEncodeDeltas(v, R, out.data());
	PBT_CHECK(n > 0 && n <= v.size() * 8, "compressing " << v.size() << " deltas gives " << n << " bytes"); for(size_t i = v.size() * 8; i < out.size(); ++i) PBT_CHECK(out[i] == 0xEE, "written past the buffer");
	auto d = Encoding::ANSDecodeDeltas(out.data(), n, v.size(), R); PBT_CHECK(d == v, "the bundled decoder gives " << show_diff(v, d));
	std::vector<uint8_t> e; bool ok = ref::Tans::get(R).decode(out.data(), n, e, v.size()); PBT_CHECK(ok && e == v, "a v1.0 decoder gives " << (ok ? show_diff(v, e) : std::string("an error")));
}
static const double RS[] = {4.7, 2.75, 2.7, 2.6, 2.45, 1.0};
static void ans(Ctx& c) {
	pbt::Src& s = c.s; double R = RS[s.draw(5)]; size_t n = s.pick({0, 0, 1, 2, 3}) == 0 ? s.pick<size_t>({2047, 2046, 9999, 2000}) : s.size(3, 9999); if(R != 1.0) n = std::min<size_t>(n, 2047); n = std::max<size_t>(n, 3);
	c.desc << "R=" << R << " n=" << n; auto v = gen_deltas(s, R, n, c.desc); c.publish(); check_one(v, R); c.nontrivial = std::set<uint8_t>(v.begin(), v.end()).size() > 1; c.label("R=" + std::to_string(R).substr(0, 4)); if(n % 2) c.label("odd length");
}
// cold tables, several threads, several parameters at once
static void ans_threads(Ctx& c) {
	pbt::Src& s = c.s; int th = s.range(2, 8), per = s.range(1, 5); bool same = s.coin(); struct J { double R; std::vector<uint8_t> v; }; std::vector<std::vector<J>> jobs(th); double R0 = RS[s.draw(5)]; c.desc << th << " threads x " << per << (same ? " same R" : " mixed R") << ":";
	for(auto& j : jobs) for(int i = 0; i < per; ++i) { double R = same ? R0 : RS[s.draw(5)]; size_t n = s.range(3, 2047); c.desc << " " << R << "/" << n; std::ostringstream dd; j.push_back({R, gen_deltas(s, R, n, dd)}); } uint64_t ss = s.seed(); int lv = s.draw(2); c.publish();
	auto body = [&]() { sched::on(ss, lv, 50000); std::vector<std::thread> ts; std::atomic<int> go{0}; std::mutex m; std::string err;
		std::vector<std::vector<std::vector<uint8_t>>> res(th);
		for(int t = 0; t < th; ++t) ts.emplace_back([&, t]() { go++; while(go < th) sched_yield(); for(auto& j : jobs[t]) { std::vector<uint8_t> out(j.v.size() * 8); size_t n = Encoding::ANSEncodeDeltas(j.v, j.R, out.data()); out.resize(std::min(n, out.size())); res[t].push_back(out); try { auto d = Encoding::ANSDecodeDeltas(out.data(), out.size(), j.v.size(), j.R); if(d != j.v) throw std::runtime_error("decoded differently"); } catch(const std::exception& e) { std::lock_guard<std::mutex> l(m); err = e.what(); } } });
		for(auto& t : ts) t.join(); sched::off(); PBT_CHECK(err.empty(), "round trip fails: " << err);
		for(int t = 0; t < th; ++t) for(size_t i = 0; i < jobs[t].size(); ++i) { std::vector<uint8_t> e; PBT_CHECK(ref::Tans::get(jobs[t][i].R).decode(res[t][i].data(), res[t][i].size(), e, jobs[t][i].v.size()) && e == jobs[t][i].v, "a v1.0 decoder disagrees for thread " << t); } };
#ifdef VP_TSAN
	body();
#else
	Child r = isolated(c.dir, body, 8); PBT_CHECK(r.ok(), "concurrent coding ends with " << r.str());
#endif
	c.nontrivial = true;
}
static pbt::Reg r1({"line_point", line_point}), r2({"ans", ans}), r3({"ans_threads", ans_threads, true});
PBT_MAIN
