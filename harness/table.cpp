// C09: temporary tables against a list model.
#define SCHED_INTERPOSE
#include "common.hpp"
#include <chia/phase2.h>
#include <chia/DiskTable.h>
#ifdef CHIA_K34
static const int KM = 34, PM = 35;
#else
static const int KM = 32, PM = 32;
#endif
typedef std::array<uint64_t, 3> Flat;
template<typename T> struct Tr;
template<> struct Tr<phase1::tmp_entry_1> { static constexpr const char* name = "tmp_entry_1"; static phase1::tmp_entry_1 make(Rng& r) { phase1::tmp_entry_1 e; e.x = r.next() & ((1ull << KM) - 1); return e; } static Flat flat(const phase1::tmp_entry_1& e) { return {e.x, 0, 0}; } };
template<> struct Tr<phase1::tmp_entry_x> { static constexpr const char* name = "tmp_entry_x"; static phase1::tmp_entry_x make(Rng& r) { phase1::tmp_entry_x e; e.pos = r.next() & ((1ull << PM) - 1); e.off = r.next() & 1023; return e; } static Flat flat(const phase1::tmp_entry_x& e) { return {e.pos, e.off, 0}; } };
template<> struct Tr<phase1::entry_7> { static constexpr const char* name = "entry_7"; static phase1::entry_7 make(Rng& r) { phase1::entry_7 e; e.y = r.next() & ((1ull << KM) - 1); e.pos = r.next() & ((1ull << PM) - 1); e.off = r.next() & 1023; return e; } static Flat flat(const phase1::entry_7& e) { return {e.y, e.pos, e.off}; } };
struct odd_t { uint64_t v; static constexpr size_t disk_size = 7; size_t read(const uint8_t* b) { v = 0; memcpy(&v, b, 7); return 7; } size_t write(uint8_t* b) const { memcpy(b, &v, 7); return 7; } };
template<> struct Tr<odd_t> { static constexpr const char* name = "odd7"; static odd_t make(Rng& r) { return {r.next() & ((1ull << 56) - 1)}; } static Flat flat(const odd_t& e) { return {e.v, 0, 0}; } };

template<typename T> struct Sink : Processor<std::pair<std::vector<T>, size_t>> {
	std::vector<Flat> got; std::string bad; std::atomic<int> in{0};
	void take(std::pair<std::vector<T>, size_t>& d) override {
		if(in++ && bad.empty()) bad = "two blocks are delivered at the same time";
		if(d.second != got.size() && bad.empty()) bad = "block announces start " + std::to_string(d.second) + " but " + std::to_string(got.size()) + " rows were delivered before it";
		for(auto& e : d.first) got.push_back(Tr<T>::flat(e));
		in--;
	}
};
template<typename T> static void table_case(Ctx& c) {
	pbt::Src& s = c.s; const size_t rch = s.pick<size_t>({65536, 1, 2, 7, 100, 1000, 4096}), wch = s.pick<size_t>({4096, 1, 2, 7, 64, 1000});
	size_t n = s.size(1, 30000);
	switch(s.draw(5)) { case 4: n = std::min<size_t>(wch * s.range(1, 8), 60000); break; case 5: n = std::min<size_t>(rch * s.range(1, 4) + s.draw(2), 200000); break; }
	if(!n) n = 1; if(rch < 7) n = std::min<size_t>(n, 6000);
	const int rt = s.pick({2, 1, 3, 4, 8, 16}); const size_t blk = s.coin() ? 0 : s.pick<size_t>({1000, 1, 3, 64, 10000}); if(blk == 1 || blk == 3) n = std::min<size_t>(n, 6000);
	const int fl = s.draw(3); const uint32_t lvl = s.pick({0, 0, 1, 2}); Rng r(s.seed());
	c.desc << Tr<T>::name << " n=" << n << " rchunk=" << rch << " wchunk=" << wch << " read_threads=" << rt << " block=" << blk << " flushes=" << fl << " sched=" << lvl; c.publish();
	ChunkSizes cs(rch, wch); sched::on(r.next(), lvl, 200000);
	const std::string fn = c.dir + "t"; std::vector<Flat> want; table_t info;
	{
		DiskTable<T> t(fn);
		for(size_t i = 0; i < n; ++i) { T e = Tr<T>::make(r); want.push_back(Tr<T>::flat(e)); t.write(e); if(fl == 1 && r.next() % 97 == 0) t.flush(); }
		if(fl == 2) { t.flush(); PBT_CHECK(t.get_info().num_entries == n, "row count after flush is " << t.get_info().num_entries); }
		t.close(); if(fl == 3) t.close();
		info = t.get_info();
	}
	PBT_CHECK(info.num_entries == n, "reported row count " << info.num_entries << ", written " << n); PBT_CHECK(info.file_name == fn, "file name");
	struct stat st; PBT_CHECK(!stat(fn.c_str(), &st) && (size_t)st.st_size == n * T::disk_size, "file has " << st.st_size << " bytes for " << n << " rows of " << T::disk_size);
	auto check = [&](const DiskTable<T>& t, int th, size_t b, const char* what) {
		Sink<T> k; if(b) t.read(&k, th, b); else t.read(&k, th);
		PBT_CHECK(k.bad.empty(), what << ": " << k.bad);
		if(k.got != want) { size_t i = 0; while(i < n && i < k.got.size() && k.got[i] == want[i]) ++i; pbt::fail(std::string(what) + ": rows differ at " + std::to_string(i) + ", " + std::to_string(k.got.size()) + " of " + std::to_string(n) + " delivered"); }
	};
	{ DiskTable<T> t(info); PBT_CHECK(t.get_info().num_entries == n, "row count after reopening"); check(t, rt, blk, "read"); check(t, 1 + rt % 3, 0, "second read"); }
	{ DiskTable<T> t(fn, n); check(t, rt, blk, "reopened by name"); }
	if(n > 1) { size_t m = 1 + r.next() % n; want.resize(m); n = m; DiskTable<T> t(fn, m); check(t, rt, blk, "prefix"); }
	sched::off();
	c.nontrivial = want.size() > 1; c.label(Tr<T>::name); if(lvl) c.label("perturbed schedule"); if(rt > 1) c.label("several readers");
}
static void table_any(Ctx& c) { switch(c.s.draw(3)) { case 0: table_case<phase1::tmp_entry_1>(c); break; case 1: table_case<phase1::tmp_entry_x>(c); break; case 2: table_case<phase1::entry_7>(c); break; default: table_case<odd_t>(c); } }

// more than 4 GiB: a sparse file with marked rows
template<size_t D> struct wide_t { uint64_t v; static constexpr size_t disk_size = D; size_t read(const uint8_t* b) { v = 0; memcpy(&v, b, std::min<size_t>(D, 8)); return D; } size_t write(uint8_t* b) const { memset(b, 0, D); memcpy(b, &v, std::min<size_t>(D, 8)); return D; } };
template<size_t D> struct BigSink : Processor<std::pair<std::vector<wide_t<D>>, size_t>> {
	uint64_t next = 0; std::string bad; std::vector<std::pair<uint64_t, uint64_t>> seen;
	void take(std::pair<std::vector<wide_t<D>>, size_t>& d) override {
		if(d.second != next && bad.empty()) bad = "block announces start " + std::to_string(d.second) + ", expected " + std::to_string(next);
		const wide_t<D>* p = d.first.data(); const size_t m = d.first.size();
		for(size_t i = 0; i < m; ++i) if(p[i].v) { if(seen.size() < 10000) seen.push_back({next + i, p[i].v}); }
		next += m;
	}
};
template<size_t D> static void big_case(Ctx& c, uint64_t lo, uint64_t hi, size_t blk) {
	pbt::Src& s = c.s; const uint64_t n = s.range(lo, hi); const int th = s.pick({4, 2, 8}); Rng r(s.seed());
	c.desc << "rows=" << n << " of " << D << " bytes (" << n * D / double(1ull << 30) << " GiB) threads=" << th << " block=" << blk; c.publish();
	const std::string fn = c.dir + "big"; std::map<uint64_t, uint64_t> m;
	int fd = open(fn.c_str(), O_CREAT | O_RDWR, 0600); if(fd < 0 || ftruncate(fd, n * D)) { if(fd >= 0) close(fd); throw pbt::Discard{"no sparse file"}; }
	auto put = [&](uint64_t row) { if(row >= n) return; uint64_t v = D >= 8 ? (r.next() | 1) : (r.next() & 0x7f) + 1; m[row] = v; wide_t<D> e; e.v = v; std::vector<uint8_t> b(D); e.write(b.data()); if(pwrite(fd, b.data(), std::min<size_t>(D, 4096), row * D) < 0) throw pbt::Discard{"pwrite"}; };
	for(int i = 0; i < 40; ++i) put(r.next() % n);
	for(uint64_t b : {0ull, (1ull << 31), (1ull << 32)}) for(int64_t d = -2; d <= 2; ++d) { if((int64_t)(b / D) + d >= 0) put(b / D + d); if((int64_t)b + d >= 0) put(b + d); }
	put(n - 1); close(fd);
	DiskTable<wide_t<D>> t(fn, n); BigSink<D> k; t.read(&k, th, blk);
	PBT_CHECK(k.bad.empty(), k.bad); PBT_CHECK(k.next == n, "delivered " << k.next << " of " << n << " rows");
	std::vector<std::pair<uint64_t, uint64_t>> want(m.begin(), m.end());
	PBT_CHECK(k.seen == want, "marked rows are delivered at wrong positions (" << k.seen.size() << " seen, " << want.size() << " written)");
	c.nontrivial = true; c.label(D == 1 ? "more than 2^32 rows" : "more than 4 GiB");
}
static void big(Ctx& c) { big_case<65536>(c, 65537, 70000, 16); }
static void bigrows(Ctx& c) { big_case<1>(c, (1ull << 32) + 1, (1ull << 32) + 100000, 1 << 20); }
static pbt::Reg r1({"table", table_any, true, false, 0, 20, 120}), r2({"table_4gib", big, false, false, 3}), r3({"table_2pow32_rows", bigrows, false, false, 2});
PBT_MAIN
