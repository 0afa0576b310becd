// C25: stages wait for the next one; memory in flight is given by the number of workers, not by the amount of data.
#define SCHED_INTERPOSE
#include "common.hpp"
#include "heap.hpp"
#include <chia/phase2.h>
#include <chia/DiskTable.h>
#include <chia/DiskSort.hpp>

struct rec_t { uint64_t key, tag; static constexpr size_t disk_size = 16; size_t read(const uint8_t* b) { memcpy(&key, b, 8); memcpy(&tag, b + 8, 8); return 16; } size_t write(uint8_t* b) const { memcpy(b, &key, 8); memcpy(b + 8, &tag, 8); return 16; } };
struct rec_key { uint64_t operator()(const rec_t& e) const { return e.key; } };
typedef std::pair<std::vector<rec_t>, size_t> Block;
struct Slow : Processor<Block> {
	uint64_t rows = 0, sum = 0; int every; uint64_t n = 0; long us; Slow(int every, long us) : every(every), us(us) {}
	void take(Block& d) override { for(auto& e : d.first) sum += e.tag; rows += d.first.size(); if(us && n++ % every == 0) usleep(us); }
};
static void sort_window(Ctx& c) {
	pbt::Src& s = c.s; const int lb = s.pick({8, 7, 6, 8}); const size_t n = s.range(150000, 400000); const int T = s.pick({2, 1, 3, 4, 8}), R = s.pick({-1, 1, 2, 4}); const int every = s.pick({1000000, 500, 5000}); const long us = s.pick({20000, 5000, 0}); const size_t rch = s.pick<size_t>({300, 1000, 64}); bool via = s.coin(); int lv = s.pick({0, 1, 2}); Rng r(s.seed());
	c.desc << "sort of " << n << " records, 2^" << lb << " buckets, " << T << "/" << R << " threads, rchunk=" << rch << ", consumer " << (via ? "thread " : "") << (us ? "stalls" : "is fast"); c.publish();
	ChunkSizes cs(rch, 32); uint64_t sum = 0; const std::string pre = c.dir + "s"; typedef DiskSort<rec_t, rec_key> DS; std::vector<uint32_t> cnt(1 << lb);
	DS ds(40, lb, pre); for(size_t i = 0; i < n; ++i) { rec_t e{r.next() >> 24, r.next()}; sum += e.tag; cnt[e.key >> (40 - lb)]++; ds.add(e); }
	ds.finish();
	const int rd = R > 0 ? R : std::max(T / 2, 2); const double B = *std::max_element(cnt.begin(), cnt.end()) * 16.0;
	Slow k(every, us); sched::on(r.next(), lv, 100000); const int64_t base = g_live; g_peak = base;
	if(via) { Thread<Block> t([&](Block& b) { k.take(b); }, "sink"); ds.read(&t, T, R); t.wait(); t.close(); } else ds.read(&k, T, R);
	sched::off(); const double h = g_peak - base;
	PBT_CHECK(k.rows == n && k.sum == sum, "records are lost");
	const double bound = (2.0 * rd + 6) * 2.2 * B + (T + 4) * B + rd * (rch * 16.0 + (40 << lb)) + 40000 + 4000 * (T + rd);
	char b[160]; snprintf(b, sizeof b, " peak %.0f KB, bound %.0f KB, data %.0f KB", h / 1e3, bound / 1e3, n * 16 / 1e3); c.desc << b;
	PBT_CHECK(h <= bound, "reading holds " << h / 1e3 << " KB in memory; " << T << "+" << rd << " threads and buckets of " << B / 1e3 << " KB account for " << bound / 1e3);
	c.nontrivial = bound < n * 16 * 0.8; if(us) c.label("stalling consumer");
}
static void table_window(Ctx& c) {
	pbt::Src& s = c.s; const size_t n = s.range(150000, 400000), blk = s.pick<size_t>({1000, 200, 4000}); const int T = s.pick({2, 1, 3, 4, 8}); const int every = s.pick({1000000, 30, 300}); const long us = s.pick({20000, 3000, 0}); bool via = s.coin(), dflt = s.coin(); int lv = s.pick({0, 1, 2}); Rng r(s.seed());
	c.desc << "table of " << n << " rows in blocks of " << blk << ", " << T << " threads, consumer " << (via ? "thread " : "") << (us ? "stalls" : "is fast"); c.publish();
	ChunkSizes cs(blk, 1000); uint64_t sum = 0; const std::string fn = c.dir + "t";
	{ DiskTable<rec_t> t(fn); for(size_t i = 0; i < n; ++i) { rec_t e{i, r.next()}; sum += e.tag; t.write(e); } t.close(); }
	DiskTable<rec_t> t(fn, n); Slow k(every, us); sched::on(r.next(), lv, 100000); const int64_t base = g_live; g_peak = base;
	auto go = [&](Processor<Block>* p) { if(dflt) t.read(p, T); else t.read(p, T, blk); };
	if(via) { Thread<Block> th([&](Block& b) { k.take(b); }, "sink"); go(&th); th.wait(); th.close(); } else go(&k);
	sched::off(); const double h = g_peak - base; PBT_CHECK(k.rows == n && k.sum == sum, "rows are lost");
	const double bound = (3.0 * T + 6) * blk * 16 + 40000 + 4000 * T;
	char b[160]; snprintf(b, sizeof b, " peak %.0f KB, bound %.0f KB, data %.0f KB", h / 1e3, bound / 1e3, n * 16 / 1e3); c.desc << b;
	PBT_CHECK(h <= bound, "reading holds " << h / 1e3 << " KB in memory; " << T << " threads and blocks of " << blk * 16 / 1e3 << " KB account for " << bound / 1e3);
	c.nontrivial = bound < n * 16 * 0.8; if(us) c.label("stalling consumer");
}
// a chain of stages whose last one does not move: how many items are accepted?
struct Item { uint64_t id = 0; std::vector<char> load; };
static void accepted(Ctx& c) {
	pbt::Src& s = c.s; const int ns = s.range(1, 4); std::vector<int> w; for(int i = 0; i < ns; ++i) w.push_back(s.chance(1, 3) ? 0 : s.pick({1, 2, 3, 4, 8, 16})); const int open_at = s.range(0, 20); uint64_t ss = s.seed(); int lv = s.draw(2);
	int limit = 2; for(int x : w) limit += x ? 2 * x + 2 : 3; const int items = 4 * limit + open_at + 50;
	c.desc << "chain "; for(int x : w) c.desc << (x ? "pool(" + std::to_string(x) + ") -> " : "thread -> "); c.desc << "consumer that stops after " << open_at << " items; " << items << " items"; c.publish();
	std::mutex mx; std::condition_variable cv; bool open = false; std::atomic<uint64_t> done{0}, in{0}; sched::on(ss, lv, 60000);
	{
		std::vector<std::unique_ptr<Processor<Item>>> st(ns + 1); typedef ThreadPool<Item, Item> Pool;
		st[ns].reset(new Thread<Item>([&](Item& it) { if(done >= (uint64_t)open_at) { std::unique_lock<std::mutex> l(mx); while(!open) cv.wait(l); } done++; }, "sink"));
		for(int i = ns - 1; i >= 0; --i) { Processor<Item>* o = st[i + 1].get(); if(w[i]) st[i].reset(new Pool([](Item& a, Item& b, size_t&) { b = std::move(a); }, o, w[i], "p")); else st[i].reset(new Thread<Item>([o](Item& a) { o->take(a); }, "t")); }
		std::thread feed([&]() { for(int i = 0; i < items; ++i) { Item it; it.id = i; it.load.resize(1000); st[0]->take(it); in++; } });
		// until it stands still
		uint64_t last = ~0ull; int same = 0; for(int i = 0; i < 4000 && same < 8; ++i) { usleep(2000); uint64_t v = in; same = v == last ? same + 1 : 0; last = v; }
		const uint64_t acc = in, fin = done;
		{ std::lock_guard<std::mutex> l(mx); open = true; } cv.notify_all(); feed.join();
		for(auto& p : st) { if(auto* t = dynamic_cast<Thread<Item>*>(p.get())) t->wait(); else dynamic_cast<Pool*>(p.get())->wait(); }
		const uint64_t d = done; for(auto& p : st) p.reset();
		PBT_CHECK(d == (uint64_t)items, "items are lost");
		PBT_CHECK(acc <= fin + (uint64_t)limit, "the chain accepted " << acc << " items while the consumer had finished " << fin << "; its workers account for " << limit);
		c.desc << ", accepted " << acc << " while " << fin << " were finished"; c.nontrivial = acc >= fin + (uint64_t)ns;
	}
	sched::off();
}
static pbt::Reg r1({"sort_window", sort_window, true}), r2({"table_window", table_window, true}), r3({"accepted", accepted, true});
PBT_MAIN
