// C07 / C08: chains of worker threads and pools against a sequential model.
#ifndef VP_TSAN
#define SCHED_INTERPOSE
#endif
#include "common.hpp"
#include <chia/ThreadPool.h>

struct Item {
	uint64_t id = 0, sub = 0; std::vector<uint64_t> trail;   // trail: the stages passed, in order
};
struct Local { std::atomic<int> busy{0}; uint64_t count = 0; uint64_t tag = 0;
	Local() {} Local(const Local& o) : count(o.count), tag(o.tag) {} Local& operator=(const Local& o) { count = o.count; tag = o.tag; return *this; } };

struct Plan {
	int n = 1; std::vector<int> width;         // 0 = Thread, >0 = pool of that many
	std::vector<int> fan;                      // Thread stages only: outputs per input (0..3)
	int items = 0; std::vector<int> slow;      // per stage delay profile
	uint64_t seed = 0; bool sink_pool = false; int sink_width = 1;
	int waits = 0; bool late_start = false;
	int throw_stage = -1; uint64_t throw_at = 0; int throw_n = 1;      // C08
	int throw_kind = 0;
	bool wait_every = false, use_locals = false, close_stages = false;
	std::vector<int> takemode;
};
static void work(int profile, uint64_t h) {
	switch(profile) {
		case 0: return;
		case 1: if(h % 7 == 0) sched_yield(); return;
		case 2: if(h % 5 == 0) usleep(h / 5 % 300); return;
		case 3: if(h % 29 == 0) usleep(1000 + h / 29 % 2000); return;
		case 4: { volatile uint64_t x = h; for(int i = 0; i < (int)(h % 2000); ++i) x = x * 3 + 1; return; }
	}
}
static Plan gen(Ctx& c, bool fail) {
	pbt::Src& s = c.s; Plan p; p.n = s.range(1, 4);
	int fanned = 0;
	for(int i = 0; i < p.n; ++i) {
		bool th = s.chance(1, 3);
		p.width.push_back(th ? 0 : s.chance(1, 40) ? s.pick({257, 100, 300}) : s.chance(1, 4) ? s.range(1, 17) : s.range(1, 5));
		int f = 1; if(th && s.chance(1, 4) && fanned < 2) { f = s.draw(3); fanned++; }
		p.fan.push_back(f); p.slow.push_back(s.draw(4)); p.takemode.push_back(s.draw(1));
	}
	p.items = s.size(fail ? 1 : 0, 400); p.seed = s.seed(); p.sink_pool = s.chance(1, 3); p.sink_width = s.range(1, 4);
	p.waits = s.draw(3); p.use_locals = s.coin(); p.close_stages = s.coin();
	if(fail) { p.throw_stage = s.draw(p.n); p.throw_at = s.draw(std::max(p.items - 1, 0)); p.throw_n = s.chance(1, 3) ? s.range(2, 5) : 1; p.throw_kind = s.draw(2); if(s.chance(1, 4)) p.throw_at = p.items - 1 - std::min<uint64_t>(p.throw_at, 2 < p.items ? 2 : 0); }
	return p;
}
static std::string show(const Plan& p) {
	std::ostringstream o; for(int i = 0; i < p.n; ++i) { o << (i ? " -> " : "") << (p.width[i] ? "pool(" + std::to_string(p.width[i]) + ")" : "thread") << (p.fan[i] != 1 ? "*" + std::to_string(p.fan[i]) : "") << "/d" << p.slow[i]; }
	o << " -> " << (p.sink_pool ? "pool sink(" + std::to_string(p.sink_width) + ")" : "thread sink") << ", items=" << p.items << " waits=" << p.waits << (p.use_locals ? " locals" : "") << (p.close_stages ? " close" : "");
	if(p.throw_stage >= 0) o << ", stage " << p.throw_stage << " throws on item " << p.throw_at << (p.throw_n > 1 ? ".." + std::to_string(p.throw_at + p.throw_n - 1) : "") << (p.throw_kind == 0 ? " before" : p.throw_kind == 1 ? " after working" : " after working a while");
	return o.str();
}
typedef ThreadPool<Item, Item, Local> Pool;
typedef ThreadPool<Item, size_t, Local> SinkPool;

static void run(const Plan& p) {
	std::mutex mx; std::vector<std::pair<uint64_t, uint64_t>> seen;      // sink order (thread sink) or set (pool sink)
	std::vector<std::string> bad; std::map<std::pair<uint64_t, uint64_t>, uint64_t> execs[6];
	auto note = [&](const std::string& m) { std::lock_guard<std::mutex> l(mx); if(bad.size() < 5) bad.push_back(m); };
	auto maybe_throw = [&](int st, const Item& it, int when) {
		if(p.throw_stage == st && it.id >= p.throw_at && it.id < p.throw_at + p.throw_n && it.sub == 0 && (when == 0) == (p.throw_kind == 0)) { if(p.throw_kind == 2) usleep(1500); throw std::runtime_error("injected"); }
	};
	// the number of sub items each id has when it reaches stage st
	auto mult = [&](int st) { uint64_t m = 1; for(int i = 0; i < st; ++i) m *= p.fan[i]; return m; };
	auto check_trail = [&](int st, const Item& it) {
		bool ok = it.trail.size() == (size_t)st + 1 && it.trail[0] == it.id * 7 + 1; for(size_t i = 1; ok && i < it.trail.size(); ++i) ok = it.trail[i] == 1000 + i - 1;
		if(!ok) note("stage " + std::to_string(st) + " received a damaged item (id " + std::to_string(it.id) + ", trail of " + std::to_string(it.trail.size()) + ")");
		std::lock_guard<std::mutex> l(mx); execs[st][{it.id, it.sub}]++;
	};
	std::vector<std::unique_ptr<Processor<Item>>> stages(p.n + 1); std::vector<Processor<Item>*> st(p.n + 1);
	if(p.sink_pool) stages[p.n].reset(new SinkPool([&](Item& it, size_t&, Local& l) { if(l.busy++) note("two jobs share a local"); maybe_throw(p.n, it, 0); check_trail(p.n, it); work(p.slow[0], it.id * 31 + p.seed); { std::lock_guard<std::mutex> g(mx); seen.push_back({it.id, it.sub}); } maybe_throw(p.n, it, 1); l.count++; if(--l.busy) note("two jobs share a local"); }, nullptr, p.sink_width, "sink"));
	else stages[p.n].reset(new Thread<Item>([&](Item& it) { maybe_throw(p.n, it, 0); check_trail(p.n, it); work(p.slow[0], it.id * 31 + p.seed); { std::lock_guard<std::mutex> g(mx); seen.push_back({it.id, it.sub}); } maybe_throw(p.n, it, 1); }, "sink"));
	for(int i = p.n - 1; i >= 0; --i) {
		Processor<Item>* out = stages[i + 1].get();
		if(p.width[i] == 0) stages[i].reset(new Thread<Item>([&, i, out](Item& it) {
			maybe_throw(i, it, 0); check_trail(i, it); work(p.slow[i], it.id * 131 + i + p.seed); maybe_throw(i, it, 1);
			for(int f = 0; f < p.fan[i]; ++f) { Item o = it; o.sub = it.sub * p.fan[i] + f; o.trail.push_back(1000 + i); if(p.takemode[i]) out->take(o); else out->take_copy(o); }
		}, "stage"));
		else { auto* pl = new Pool([&, i](Item& it, Item& o, Local& l) {
			if(l.busy++) note("two jobs share a local"); maybe_throw(i, it, 0); check_trail(i, it); if(!o.trail.empty()) note("the output object is not fresh"); work(p.slow[i], it.id * 131 + i + p.seed); maybe_throw(i, it, 1);
			o = it; o.trail.push_back(1000 + i); l.count++; if(--l.busy) note("two jobs share a local"); }, out, p.width[i], "pool"); stages[i].reset(pl);
			if(p.use_locals) for(int w = 0; w < p.width[i]; ++w) { Local l; l.tag = 77 + w; pl->set_local(w, std::move(l)); } }
	}
	for(int i = 0; i <= p.n; ++i) st[i] = stages[i].get();
	auto wait_stage = [&](int i) { if(auto* t = dynamic_cast<Thread<Item>*>(st[i])) t->wait(); else if(auto* q = dynamic_cast<Pool*>(st[i])) q->wait(); else dynamic_cast<SinkPool*>(st[i])->wait(); };
	auto expect_exec = [&](int i, uint64_t upto, const char* when) {
		std::lock_guard<std::mutex> l(mx); uint64_t m = mult(i);
		if(execs[i].size() != upto * m) pbt::fail("stage " + std::to_string(i) + " had executed " + std::to_string(execs[i].size()) + " items of " + std::to_string(upto * m) + " " + when);
		for(auto& e : execs[i]) if(e.second != 1) pbt::fail("stage " + std::to_string(i) + " executed item " + std::to_string(e.first.first) + " " + std::to_string(e.second) + " times " + when);
	};
	Rng r(p.seed);
	for(int i = 0; i < p.items; ++i) {
		Item it; it.id = i; it.trail.push_back(i * 7 + 1);
		if(p.takemode[0]) st[0]->take(it); else st[0]->take_copy(it);
		if(p.slow[0] && r.next() % 16 == 0) usleep(r.next() % 300);
		if(p.waits && r.next() % (p.items / p.waits + 1) == 0) {
			int upto = r.below(p.n + 1);
			for(int k = 0; k <= upto; ++k) { wait_stage(k); if(p.throw_stage < 0) expect_exec(k, i + 1, "when wait() returned"); }
		}
	}
	if(p.close_stages) for(int k = 0; k <= p.n; ++k) { if(auto* t = dynamic_cast<Thread<Item>*>(st[k])) t->close(); else if(auto* q = dynamic_cast<Pool*>(st[k])) q->close(); else dynamic_cast<SinkPool*>(st[k])->close(); if(p.throw_stage < 0) expect_exec(k, p.items, "when close() returned"); }
	else for(int k = 0; k <= p.n; ++k) { wait_stage(k); if(p.throw_stage < 0) expect_exec(k, p.items, "when wait() returned"); }
	if(p.throw_stage < 0 && !p.close_stages) {
		for(int k = 0; k <= p.n; ++k) if(auto* q = dynamic_cast<Pool*>(st[k])) {
			PBT_CHECK(q->num_threads() == (size_t)p.width[k], "num_threads()"); uint64_t sum = 0; for(int w = 0; w < p.width[k]; ++w) { auto& l = q->get_local(w); sum += l.count; if(p.use_locals) PBT_CHECK(l.tag == 77u + w, "the local state of worker " << w << " was lost"); }
			PBT_CHECK(sum == p.items * mult(k), "the workers of stage " << k << " processed " << sum << " items, expected " << p.items * mult(k));
		}
	}
	for(int k = 0; k <= p.n; ++k) stages[k].reset();
	if(p.throw_stage >= 0) return;
	if(!bad.empty()) pbt::fail(bad[0]);
	PBT_CHECK(seen.size() == p.items * mult(p.n), "the sink received " << seen.size() << " items, expected " << p.items * mult(p.n));
	if(p.sink_pool) std::sort(seen.begin(), seen.end());
	uint64_t m = mult(p.n); for(size_t i = 0; i < seen.size(); ++i) PBT_CHECK(seen[i].first == i / m && seen[i].second == i % m, "item " << i << " at the sink is " << seen[i].first << "." << seen[i].second << (p.sink_pool ? "" : ": submission order is not kept"));
}
static void pipeline(Ctx& c) {
	Plan p = gen(c, false); uint64_t ss = c.s.seed(); int lv = c.s.draw(2); c.desc << show(p) << " noise=" << lv; c.publish();
	sched::on(ss, lv, 300000); run(p); sched::off();
	bool pool = false; for(int w : p.width) pool = pool || w > 1; c.nontrivial = p.items > 1 && (pool || p.n > 1); c.label(pool ? "has a pool" : "threads only"); if(p.items > 50) c.label("more than 50 items");
}
// several producers feed one Thread
static void producers(Ctx& c) {
	pbt::Src& s = c.s; int np = s.range(1, 6), n = s.size(1, 150), slow = s.draw(4); bool waits = s.coin(), cp = s.coin(); uint64_t seed = s.seed(); int lv = s.draw(2); uint64_t ss = s.seed();
	c.desc << np << " producers x " << n << " items, delay profile " << slow << (waits ? ", producers wait()" : "") << " noise=" << lv; c.publish();
	sched::on(ss, lv, 300000);
	std::vector<std::vector<int>> got(np); std::atomic<int> busy{0}; std::atomic<bool> over{false}; std::vector<std::atomic<int>> done(np); std::atomic<int> early{0};
	{
		Thread<std::pair<int, std::vector<int>>> t([&](std::pair<int, std::vector<int>>& x) { if(busy++) over = true; work(slow, x.second.empty() ? 0 : x.second[0] * 17 + seed); if(x.second.size() != 3) over = true; else got[x.first].push_back(x.second[0]); done[x.first]++; busy--; }, "many");
		std::vector<std::thread> ps; for(int p = 0; p < np; ++p) ps.emplace_back([&, p]() { Rng r(seed + p); for(int i = 0; i < n; ++i) { std::pair<int, std::vector<int>> x(p, {i, 1, 2}); if(cp) t.take_copy(x); else t.take(x); if(waits && r.next() % 16 == 0) { t.wait(); if(done[p] < i + 1) early++; } if(r.next() % 8 == 0) usleep(r.next() % 100); } t.wait(); if(done[p] < n) early++; });
		for(auto& x : ps) x.join();
		t.wait(); for(int p = 0; p < np; ++p) PBT_CHECK((int)got[p].size() == n, "producer " << p << ": " << got[p].size() << " items were executed, expected " << n);
		t.close();
	}
	sched::off();
	PBT_CHECK(!over, "two items were executed at the same time, or an item was damaged"); PBT_CHECK(early == 0, "wait() returned before an item submitted earlier was executed");
	for(int p = 0; p < np; ++p) for(int i = 0; i < n; ++i) PBT_CHECK(got[p][i] == i, "producer " << p << ": item " << i << " executed as " << got[p][i]);
	c.nontrivial = np > 1 && n > 1;
}
#ifndef VP_TSAN
// many items through one pool and its consumer, with slow jobs around the powers of two of the item number
static void long_run(Ctx& c) {
	pbt::Src& s = c.s; const int w = s.range(2, 8), w2 = s.pick({0, 3}); const uint64_t n = s.pick<uint64_t>({66000, 70000, 131500}) + s.draw(300), seed = s.seed();
	c.desc << n << " items, pool of " << w << (w2 ? ", second pool" : ""); c.publish();
	uint64_t next = 0, wrong = 0; std::vector<uint8_t> done(n); std::string first;
	{
		Thread<uint64_t> sink([&](uint64_t& x) { if(x != next && !wrong++) first = "item " + std::to_string(next) + " at the sink is " + std::to_string(x) + ": submission order is not kept"; next++; }, "sink");
		ThreadPool<uint64_t, uint64_t> p2([](uint64_t& x, uint64_t& y, size_t&) { y = x; }, &sink, w2 ? w2 : 1);
		ThreadPool<uint64_t, uint64_t> p1([&](uint64_t& x, uint64_t& y, size_t&) { y = x; done[x]++; const uint64_t d = (x + 12) & 0x7fff; if(d < 24) usleep(pbt::mix(x, seed) % 1500); }, w2 ? (Processor<uint64_t>*)&p2 : &sink, w);
		for(uint64_t i = 0; i < n; ++i) { uint64_t x = i; p1.take(x); }
		p1.close(); p2.close(); sink.close();
	}
	PBT_CHECK(!wrong, first); PBT_CHECK(next == n, "the sink received " << next << " items, expected " << n);
	for(uint64_t i = 0; i < n; ++i) PBT_CHECK(done[i] == 1, "item " << i << " was executed " << int(done[i]) << " times");
	c.nontrivial = true;
}
static pbt::Reg r5({"long_run", long_run, true, false, 0, 20});
// C08: a failing job must end the run
static void failing(Ctx& c) {
	Plan p = gen(c, true); uint64_t ss = c.s.seed(); int lv = c.s.draw(2); c.desc << show(p) << " noise=" << lv; c.publish();
	// does the item reach the throwing stage?
	uint64_t m = 1; for(int i = 0; i < p.throw_stage; ++i) m *= p.fan[i];
	Child r = isolated(c.dir, [&]() { sched::on(ss, lv, 300000); run(p); }, 5);
	if(m == 0) { PBT_CHECK(r.ok(), "the run failed though no job threw: " << r.str()); return; }
	PBT_CHECK(r.kind != Child::HANG, "deadlock: the failure of one job leaves the others waiting forever");
	PBT_CHECK(!r.ok(), "the run completed as if nothing had failed");
	PBT_CHECK(r.kind == Child::EXC || (r.kind == Child::SIG && r.code == SIGABRT), "the run ended with " << r.str());
	c.nontrivial = true; c.label(p.throw_stage == p.n ? "sink throws" : p.width[p.throw_stage] ? "pool throws" : "thread throws"); c.label(r.kind == Child::EXC ? "exception" : "terminate");
}
static void failing_thread(Ctx& c) {
	pbt::Src& s = c.s; int np = s.range(1, 4), n = s.size(1, 60), at = s.draw(np * n - 1); int slow = s.draw(4); uint64_t ss = s.seed(); int lv = s.draw(2);
	c.desc << np << " producers x " << n << ", execution " << at << " throws, delay profile " << slow << " noise=" << lv; c.publish();
	Child r = isolated(c.dir, [&]() { sched::on(ss, lv, 200000); std::atomic<int> k{0}; Thread<int> t([&](int& x) { work(slow, x * 7 + ss); if(k++ == at) throw std::runtime_error("injected"); });
		std::vector<std::thread> ps; for(int p = 0; p < np; ++p) ps.emplace_back([&, p]() { for(int i = 0; i < n; ++i) t.take_copy(i); }); for(auto& x : ps) x.join();
		t.wait(); t.close(); }, 5);
	PBT_CHECK(r.kind != Child::HANG, "deadlock after a failed job"); PBT_CHECK(!r.ok(), "wait() and close() returned as if nothing had failed"); PBT_CHECK(r.kind == Child::EXC || (r.kind == Child::SIG && r.code == SIGABRT), "the run ended with " << r.str());
	c.nontrivial = n > 1;
}
static pbt::Reg r3({"failing", failing, true, true, 0}), r4({"failing_thread", failing_thread, true, true, 0});
#endif
static pbt::Reg r1({"pipeline", pipeline, true, false, 0, 8}), r2({"producers", producers, true, false, 0, 8});
PBT_MAIN
