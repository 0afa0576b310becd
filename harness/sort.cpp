// C05: the external sort against a multiset model.
#define SCHED_INTERPOSE
#include "common.hpp"
#include <chia/phase3.h>
#include <chia/DiskSort.hpp>
#ifdef CHIA_K34
static const int KM = 34;
#else
static const int KM = 32;
#endif
typedef unsigned __int128 u128;
typedef std::array<uint64_t, 5> Flat;

// A record no phase uses: the sort is generic over (record, key).
struct plain_t {
	uint64_t key; uint64_t tag;
	static constexpr size_t disk_size = 16;
	size_t read(const uint8_t* b) { memcpy(&key, b, 8); memcpy(&tag, b + 8, 8); return disk_size; }
	size_t write(uint8_t* b) const { memcpy(b, &key, 8); memcpy(b + 8, &tag, 8); return disk_size; }
};
struct plain_key { uint64_t operator()(const plain_t& e) { return e.key; } };

template<typename T> struct Tr;
template<> struct Tr<plain_t> { typedef plain_key Key; static constexpr const char* name = "plain64";
	static int bits(pbt::Src& s) { return s.pick({32, 8, 64, 20, 48, 63, 33}); }
	static plain_t make(u128 k, Rng& r) { return {(uint64_t)k, r.next()}; }
	static Flat flat(const plain_t& e) { return {0, e.key, e.tag, 0, 0}; } };
template<> struct Tr<phase1::entry_1> { typedef phase1::get_y<phase1::entry_1> Key; static constexpr const char* name = "phase1::entry_1";
	static int bits(pbt::Src& s) { return 6 + s.range(16, KM); }
	static phase1::entry_1 make(u128 k, Rng& r) { phase1::entry_1 e; e.y = k; e.x = r.next() & ((1ull << KM) - 1); return e; }
	static Flat flat(const phase1::entry_1& e) { return {0, e.y, e.x, 0, 0}; } };
template<> struct Tr<phase1::entry_4> { typedef phase1::get_y<phase1::entry_4> Key; static constexpr const char* name = "phase1::entry_4";
	static int bits(pbt::Src& s) { return 6 + s.range(16, KM); }
	static phase1::entry_4 make(u128 k, Rng& r) { phase1::entry_4 e; e.y = k; e.pos = r.next() & ((1ull << KM) - 1); e.off = r.next() & 1023; for(auto& b : e.meta) b = r.next(); return e; }
	static Flat flat(const phase1::entry_4& e) { uint64_t h = 7; for(auto b : e.meta) h = h * 1099511628211ull + b; return {0, e.y, e.pos, e.off, h}; } };
template<> struct Tr<phase2::entry_x> { typedef phase2::get_pos<phase2::entry_x> Key; static constexpr const char* name = "phase2::entry_x";
	static int bits(pbt::Src& s) { return s.range(16, KM); }
	static phase2::entry_x make(u128 k, Rng& r) { phase2::entry_x e; e.pos = k; e.key = r.next() & ((1ull << KM) - 1); e.off = r.next() & 1023; return e; }
	static Flat flat(const phase2::entry_x& e) { return {0, e.pos, e.key, e.off, 0}; } };
template<> struct Tr<phase3::entry_lp> { typedef phase3::get_line_point<phase3::entry_lp> Key; static constexpr const char* name = "phase3::entry_lp";
	static int bits(pbt::Src& s) { return 2 * s.range(16, KM) - 1; }
	static phase3::entry_lp make(u128 k, Rng& r) { phase3::entry_lp e; e.point = k; e.key = r.next() & ((1ull << KM) - 1); return e; }
	static Flat flat(const phase3::entry_lp& e) { return {(uint64_t)((u128)e.point >> 64), (uint64_t)e.point, e.key, 0, 0}; } };
template<> struct Tr<phase3::entry_np> { typedef phase3::get_sort_key<phase3::entry_np> Key; static constexpr const char* name = "phase3::entry_np";
	static int bits(pbt::Src& s) { return s.range(16, KM); }
	static phase3::entry_np make(u128 k, Rng& r) { phase3::entry_np e; e.key = k; e.pos = r.next() & ((1ull << KM) - 1); return e; }
	static Flat flat(const phase3::entry_np& e) { return {0, e.key, e.pos, 0, 0}; } };

template<typename T> struct Sink : Processor<std::pair<std::vector<T>, size_t>> {
	std::mutex m; std::vector<Flat> got; std::string bad; bool busy = false;
	void take(std::pair<std::vector<T>, size_t>& d) override {
		{ std::lock_guard<std::mutex> l(m); if(busy && bad.empty()) bad = "two blocks are delivered at the same time"; busy = true; }
		if(d.second != got.size() && bad.empty()) bad = "block announces offset " + std::to_string(d.second) + " but " + std::to_string(got.size()) + " records were delivered before it";
		for(auto& e : d.first) { Flat f = Tr<T>::flat(e); if(!got.empty() && std::make_pair(got.back()[0], got.back()[1]) > std::make_pair(f[0], f[1]) && bad.empty()) bad = "keys out of order at record " + std::to_string(got.size()); got.push_back(f); }
		std::lock_guard<std::mutex> l(m); busy = false;
	}
};
template<typename T> static void sort_case(Ctx& c) {
	typedef DiskSort<T, typename Tr<T>::Key> DS;
	pbt::Src& s = c.s;
	const int kb = Tr<T>::bits(s); const int lb = std::min<int>(s.pick({4, 4, 4, 5, 6, 7, 1, 2, 3, 8}), kb / 2);
	size_t n = s.size(0, 40000); if(s.draw(7) == 7) n = s.range(0, 40); else if(s.draw(15) == 15) n = s.range(70000, 200000);
	const int dist = s.draw(8); const int writers = s.pick({1, 1, 2, 3, 4, 8, 13}); const bool mainadd = s.coin();
	const size_t rch = s.pick<size_t>({65536, 1, 7, 100, 1000, 4096}), wch = s.pick<size_t>({4096, 1, 2, 7, 64, 1000});
	const int rt = s.draw(23) == 23 ? s.pick({257, 100}) : s.pick({2, 1, 3, 4, 8, 16}), rtr = s.pick({-1, 1, 2, 3, 8}); const int reread = s.draw(3); const uint32_t lvl = s.pick({0, 0, 1, 2});
	Rng r(s.seed());
	c.desc << Tr<T>::name << " key_bits=" << kb << " log_buckets=" << lb << " n=" << n << " dist=" << dist << " writers=" << writers << (mainadd ? "+add" : "") << " rchunk=" << rch << " wchunk=" << wch << " read_threads=" << rt << "/" << rtr << " again=" << reread << " sched=" << lvl; c.publish();
	const u128 mx = (((u128)1) << (kb - 1)) * 2 - 1; auto full = [&]() { return ((((u128)r.next()) << 64) | r.next()) & mx; };
	const u128 ctr = full();
	std::vector<T> in; in.reserve(n); std::vector<Flat> want;
	for(size_t i = 0; i < n; ++i) {
		u128 k = 0;
		switch(dist) {
			case 0: k = full(); break; case 1: k = ctr; break; case 2: k = (full() % 7) * (mx / 7); break;
			case 3: k = mx / (n ? n : 1) * i; break; case 4: k = mx - mx / (n ? n : 1) * i; break;
			case 5: k = r.next() % 3 ? (r.next() % 2 ? mx : 0) : full(); break; case 6: k = (ctr & ~(u128)0xfff) | (full() & 0xfff); k &= mx; break;
			case 7: { u128 step = (((u128)1) << (kb - lb)); k = (full() / step) * step; if(r.next() % 2 && k) k -= 1; break; }   // bucket borders
			default: { int sh = kb > 2 * lb ? kb - 2 * lb : 0; u128 step = ((u128)1) << sh; k = (full() / step) * step; if(r.next() % 2 && k) k -= 1; }
		}
		in.push_back(Tr<T>::make(k, r)); want.push_back(Tr<T>::flat(in.back()));
	}
	std::sort(want.begin(), want.end());
	ChunkSizes cs(rch, wch); sched::on(r.next(), lvl, 250000);
	const std::string pre = c.dir + "s";
	auto check = [&](DS& ds, const char* what) {
		Sink<T> sink; ds.read(&sink, rt, rtr);
		PBT_CHECK(sink.bad.empty(), what << ": " << sink.bad);
		std::sort(sink.got.begin(), sink.got.end());
		if(sink.got != want) { size_t i = 0; while(i < want.size() && i < sink.got.size() && want[i] == sink.got[i]) ++i; pbt::fail(std::string(what) + ": " + std::to_string(sink.got.size()) + " records delivered, " + std::to_string(n) + " added; sorted lists differ at " + std::to_string(i)); }
	};
	{
		DS ds(kb, lb, pre);
		PBT_CHECK(ds.num_buckets() == (size_t(1) << lb), "number of buckets");
		std::vector<std::thread> th; std::mutex em; std::string err;
		for(int w = mainadd ? 1 : 0; w < writers; ++w) th.emplace_back([&, w]() {
			try {
				auto cache = ds.add_cache();
				for(size_t i = w; i < n; i += writers) { cache->add(in[i]); if(i % 977 == 5) cache->flush(); }
			} catch(const std::exception& e) { std::lock_guard<std::mutex> l(em); err = e.what(); }
		});
		if(mainadd) for(size_t i = 0; i < n; i += writers) ds.add(in[i]);
		for(auto& t : th) t.join();
		PBT_CHECK(err.empty(), "adding failed: " << err);
		ds.finish();
		if(reread) { ds.set_keep_files(true); check(ds, "first read"); check(ds, "second read"); if(reread == 2) { ds.set_keep_files(false); check(ds, "last read"); } }
		else check(ds, "read");
	}
	if(reread == 1 || reread == 3) {
		{ DS ds(kb, lb, pre, true); check(ds, "read-only reopening"); check(ds, "read-only reopening, again"); }
		PBT_CHECK(list_dir(c.dir).size() == (size_t(1) << lb), "kept files are gone");
		DS ds2(kb, lb, pre, true); check(ds2, "second reopening");
	} else PBT_CHECK(list_dir(c.dir).empty(), "temporary files left behind: " << join(list_dir(c.dir)));
	sched::off();
	c.nontrivial = n >= 2 && dist != 1; c.label(std::string("type ") + Tr<T>::name); c.label("dist " + std::to_string(dist)); if(lvl) c.label("perturbed schedule"); if(reread) c.label("re-read"); if(writers > 1) c.label("several writers");
}
static void sort_any(Ctx& c) {
	switch(c.s.draw(5)) {
		case 0: sort_case<plain_t>(c); break; case 1: sort_case<phase1::entry_1>(c); break; case 2: sort_case<phase2::entry_x>(c); break;
		case 3: sort_case<phase3::entry_lp>(c); break; case 4: sort_case<phase3::entry_np>(c); break; default: sort_case<phase1::entry_4>(c);
	}
}
static pbt::Reg r1({"sort", sort_any, true, false, 0, 20, 120});
PBT_MAIN
