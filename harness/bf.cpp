// C11: bit set and rank index against a std::set / sorted vector model.
#ifndef VP_TSAN
#define SCHED_INTERPOSE
#endif
#include "common.hpp"
#include <chia/bitfield_index.hpp>
static std::vector<uint64_t> gen_set(pbt::Src& s, uint64_t n, std::ostream& d) {
	Rng r(s.seed()); std::vector<uint64_t> v; int style = s.draw(6); d << " style=" << style; uint64_t m = 0;
	switch(style) {
		case 0: m = s.draw(std::min<uint64_t>(n, 3000)); for(uint64_t i = 0; i < m; ++i) v.push_back(r.below(n)); break;
		case 1: for(uint64_t i = 0; i < n; ++i) v.push_back(i); break;
		case 2: for(uint64_t i = 0; i < n; i += 64) { v.push_back(i); if(i) v.push_back(i - 1); } break;
		case 3: for(uint64_t i = 0; i < n; i += 1024) { v.push_back(i); if(i) v.push_back(i - 1); } break;
		case 4: { uint32_t p = 1 + s.draw(15); for(uint64_t i = 0; i < n; ++i) if(r.below(16) < p) v.push_back(i); break; }
		case 5: v.push_back(0); v.push_back(n - 1); for(int i = 0; i < 40; ++i) v.push_back(n - 1 - r.below(std::min<uint64_t>(n, 200))); break;
		default: { uint64_t p = 0; while(p < n) { uint64_t l = 1 + r.below(200), g = 1 + r.below(2500); for(uint64_t i = 0; i < l && p + i < n; ++i) v.push_back(p + i); p += l + g; } }
	}
	return v;
}
static void set_and_rank(Ctx& c) {
	pbt::Src& s = c.s; uint64_t n = s.size(1, 60000); if(s.chance(1, 4)) n = 64 * s.range(1, 300) + s.draw(2); if(s.chance(1, 5)) n = 1024 * s.range(1, 40) + s.draw(2);
	int th = s.pick({1, 2, 4, 8}); c.desc << "size=" << n << " threads=" << th; auto v = gen_set(s, n, c.desc); uint64_t q = s.seed(); bool dirty = s.coin(), io = s.chance(1, 3); int lv = s.draw(1); c.publish();
	bitfield b(n); PBT_CHECK((uint64_t)b.size() >= n, "size() is " << b.size()); PBT_CHECK(b.count(0, b.size()) == 0, "a new set is not empty");
	if(dirty) { for(uint64_t i = 0; i < n; i += 3) b.set(i); b.clear(); PBT_CHECK(b.count(0, b.size()) == 0, "clear() leaves elements"); }
	if(th == 1) for(auto x : v) b.set(x);
	else { sched::on(q, lv, 50000); std::vector<std::thread> ts; std::atomic<int> go{0}; for(int t = 0; t < th; ++t) ts.emplace_back([&, t]() { go++; while(go < th) sched_yield(); for(size_t i = t; i < v.size(); i += th) b.set(v[i]); }); for(auto& t : ts) t.join(); sched::off(); }
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	std::vector<uint32_t> pre(n + 1, 0); { size_t j = 0; for(uint64_t i = 0; i < n; ++i) { bool w = j < v.size() && v[j] == i; if(w) j++; pre[i + 1] = pre[i] + w; PBT_CHECK(b.get(i) == w, "element " << i << " of " << n << (w ? " is missing" : " should not be there")); } }
	for(uint64_t i = n; i < (uint64_t)b.size(); ++i) PBT_CHECK(!b.get(i), "element " << i << " beyond the size is set");
	Rng r(q); for(int i = 0; i < 50; ++i) { uint64_t a = r.below(n + 1) / 64 * 64, e = a + r.below(n - a + 1); PBT_CHECK((uint64_t)b.count(a, e) == pre[e] - pre[a], "count(" << a << "," << e << ") is " << b.count(a, e) << ", expected " << pre[e] - pre[a]); }
	PBT_CHECK((uint64_t)b.count(0, n) == v.size(), "count of everything");
	bitfield b2(n); const bitfield* use = &b;
	if(io) { std::string fn = c.dir + "f"; FILE* f = fopen(fn.c_str(), "wb"); b.write(f); fclose(f); f = fopen(fn.c_str(), "rb"); if(r.next() % 2) b2.set(n - 1); b2.read(f); fclose(f); use = &b2; for(uint64_t i = 0; i < n; ++i) PBT_CHECK(b2.get(i) == (pre[i + 1] > pre[i]), "element " << i << " after saving and loading"); }
	const bitfield_index ix(*use);
	for(size_t i = 0; i < v.size(); i += v.size() > 400 ? 1 + r.below(v.size() / 200) : 1) {
		auto g = ix.lookup(v[i], 0); PBT_CHECK(g.first == i && g.second == 0, "rank of " << v[i] << " is " << g.first << ", expected " << i);
		for(int t = 0; t < 3; ++t) { size_t j = std::min(v.size() - 1, i + (t == 0 ? 1 : r.below(t == 1 ? 30 : 1023))); while(j > i && v[j] - v[i] > 1023) j = i + (j - i) / 2; g = ix.lookup(v[i], v[j] - v[i]); PBT_CHECK(g.first == i && g.second == j - i, "lookup(" << v[i] << "," << v[j] - v[i] << ") is (" << g.first << "," << g.second << "), expected (" << i << "," << j - i << ")"); }
	}
	{ bitfield x(128), y(n); x.set(77); for(auto p : v) y.set(p); x.swap(y); PBT_CHECK(y.get(77) && y.count(0, 128) == 1, "swap()"); for(auto p : v) PBT_CHECK(x.get(p), "swap()"); PBT_CHECK((uint64_t)x.count(0, n) == v.size(), "swap()"); }
	c.nontrivial = v.size() > 3 && n > 64; if(th > 1) c.label("concurrent"); if(io) c.label("saved and loaded");
}
// many threads on the same few words
static void hammer(Ctx& c) {
	pbt::Src& s = c.s; int words = s.range(1, 64), th = s.range(2, 8), rounds = s.range(1, 30); bool rev = s.coin(); c.desc << words << " words, " << th << " threads, " << rounds << " rounds"; c.publish(); uint64_t n = words * 64ull; Rng r(s.seed());
	bitfield b(n); std::atomic<int> phase{0};
	for(int k = 0; k < rounds; ++k) {
		b.clear(); std::vector<std::vector<uint64_t>> my(th); for(uint64_t i = 0; i < n; ++i) { uint64_t o = r.below(th + 1); if(o < (uint64_t)th) my[o].push_back(i); }
		std::vector<std::thread> ts; std::atomic<int> go{0}; for(int t = 0; t < th; ++t) ts.emplace_back([&, t]() { go++; while(go < th) sched_yield(); if(rev && t % 2) for(size_t i = my[t].size(); i-- > 0;) b.set(my[t][i]); else for(auto x : my[t]) b.set(x); }); for(auto& t : ts) t.join();
		for(int t = 0; t < th; ++t) for(auto x : my[t]) PBT_CHECK(b.get(x), "the mark at " << x << " made by thread " << t << " of " << th << " was lost in round " << k); uint64_t tot = 0; for(auto& m : my) tot += m.size(); PBT_CHECK((uint64_t)b.count(0, n) == tot, "count");
	}
	c.nontrivial = true;
}
#ifndef VP_TSAN
static void rank_big(Ctx& c) {
	pbt::Src& s = c.s; uint64_t n = (1ull << 32) + (s.coin() ? s.draw(1ull << 30) : s.draw(200)); bool dense = s.chance(1, 4); c.desc << "size=" << n << (dense ? " dense" : ""); Rng r(s.seed()); c.publish();
	bitfield b(n); std::vector<uint64_t> v; for(int i = 0; i < 4000; ++i) { uint64_t p; switch(r.below(5)) { case 0: p = (1ull << 32) - 1000 + r.below(2000); if(p >= n) p = n - 1; break; case 1: p = n - 1 - r.below(700); break; case 2: p = (1ull << 31) - 500 + r.below(1000); break; case 3: p = r.below(2000); break; default: p = r.below(n); } v.push_back(p); }
	uint64_t extra = 0; if(dense) { extra = 1ull << 20; for(uint64_t i = 0; i < extra; ++i) v.push_back(5000 + i); }
	for(auto p : v) b.set(p); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); PBT_CHECK((uint64_t)b.count(0, n) == v.size(), "count of everything is " << b.count(0, n) << ", expected " << v.size());
	for(auto p : v) PBT_CHECK(b.get(p), "element " << p << " is missing"); const bitfield_index ix(b);
	for(size_t i = 0; i < v.size(); ++i) { auto g = ix.lookup(v[i], 0); PBT_CHECK(g.first == i && g.second == 0, "rank of " << v[i] << " is " << g.first << ", expected " << i); if(i + 1 < v.size() && v[i + 1] - v[i] < 1024) { g = ix.lookup(v[i], v[i + 1] - v[i]); PBT_CHECK(g.first == i && g.second == 1, "lookup(" << v[i] << "," << v[i + 1] - v[i] << ")"); } }
	// emptied and used again
	b.clear(); PBT_CHECK(b.count(0, n) == 0, "after clear() " << b.count(0, n) << " elements are left"); for(auto p : v) PBT_CHECK(!b.get(p), "element " << p << " is left after clear()"); b.set(v.back()); PBT_CHECK(b.count(0, n) == 1, "count after clear() and one mark");
	c.nontrivial = true;
}
// more than 2^32 marked positions
static void rank_full(Ctx& c) {
	pbt::Src& s = c.s; uint64_t n = (1ull << 32) + 64 * s.range(100, 2000); uint64_t holes = s.range(1, 50); Rng r(s.seed()); c.desc << "size=" << n << ", all marked but " << holes; c.publish();
	std::set<uint64_t> h; for(uint64_t i = 0; i < holes; ++i) h.insert(r.next() % 2 ? r.below(n) : n - 1 - r.below(5000));
	// fill through the save/load interface
	std::string fn = c.dir + "f"; int p[2]; if(pipe(p)) throw pbt::Discard{"pipe"};
	bitfield b(n); std::thread w([&]() { std::vector<uint64_t> blk(1 << 16, ~0ull); uint64_t words = n / 64; uint64_t done = 0; while(done < words) { size_t k = std::min<uint64_t>(blk.size(), words - done); std::vector<uint64_t> o(blk.begin(), blk.begin() + k); for(auto it = h.lower_bound(done * 64); it != h.end() && *it < (done + k) * 64; ++it) o[*it / 64 - done] &= ~(1ull << (*it % 64)); const char* q = (const char*)o.data(); size_t left = k * 8; while(left) { ssize_t m = write(p[1], q, left); if(m <= 0) break; q += m; left -= m; } done += k; } close(p[1]); });
	FILE* f = fdopen(p[0], "rb"); b.read(f); fclose(f); w.join();
	PBT_CHECK((uint64_t)b.count(0, n) == n - h.size(), "count of everything is " << b.count(0, n) << ", expected " << n - h.size()); const bitfield_index ix(b);
	for(int i = 0; i < 2000; ++i) { uint64_t x = r.next() % 2 ? n - 1 - r.below(5000) : r.below(n); if(h.count(x)) continue; uint64_t rk = x - std::distance(h.begin(), h.lower_bound(x)); auto g = ix.lookup(x, 0); PBT_CHECK(g.first == rk, "rank of " << x << " is " << g.first << ", expected " << rk); }
	c.nontrivial = true;
}
static pbt::Reg r3({"rank_big", rank_big, false, false, 6}), r4({"rank_full", rank_full, false, false, 4});
#endif
static pbt::Reg r1({"set_and_rank", set_and_rank}), r2({"hammer", hammer, true, false, 4});
PBT_MAIN
