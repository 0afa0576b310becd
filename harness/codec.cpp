// C06: every temporary record type round-trips for all in-range values.
#include "common.hpp"
#include <chia/phase3.h>
#include <chia/phase4.h>
#include <chia/DiskSort.hpp>
#ifdef CHIA_K34
static const int KM = 34, PM = 35, LPB = 67;
#else
static const int KM = 32, PM = 32, LPB = 63;
#endif
typedef unsigned __int128 u128;
static u128 wide(pbt::Src& s, int n) { if(n <= 64) return s.bits(n); u128 hi = s.bits(n - 64), lo = s.bits(64); return hi << 64 | lo; }
static std::string S(u128 v) { char b[64]; snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }

struct Fld { const char* n; int bits; u128 v; };
// set/get of every field, by type
template<typename T, typename E = void> struct IO;
template<> struct IO<phase1::entry_1> { static const char* name() { return "phase1::entry_1"; } static std::vector<Fld> f() { return {{"y", KM + 6, 0}, {"x", KM, 0}}; }
	static void set(phase1::entry_1& e, const std::vector<Fld>& v) { e.y = v[0].v; e.x = v[1].v; } static std::vector<u128> get(const phase1::entry_1& e) { return {e.y, e.x}; } };
template<int N> struct IO<phase1::entry_xm<N>> { static const char* name() { return "phase1::entry_xm"; }
	static std::vector<Fld> f() { std::vector<Fld> v = {{"y", KM + 6, 0}, {"pos", PM, 0}, {"off", 10, 0}}; for(int i = 0; i < N; ++i) v.push_back({"meta", 8, 0}); return v; }
	static void set(phase1::entry_xm<N>& e, const std::vector<Fld>& v) { e.y = v[0].v; e.pos = v[1].v; e.off = v[2].v; for(int i = 0; i < N; ++i) e.meta[i] = v[3 + i].v; }
	static std::vector<u128> get(const phase1::entry_xm<N>& e) { std::vector<u128> r = {e.y, e.pos, e.off}; for(auto b : e.meta) r.push_back(b); return r; } };
template<> struct IO<phase1::entry_7> { static const char* name() { return "phase1::entry_7"; } static std::vector<Fld> f() { return {{"y", KM, 0}, {"pos", PM, 0}, {"off", 10, 0}}; }
	static void set(phase1::entry_7& e, const std::vector<Fld>& v) { e.y = v[0].v; e.pos = v[1].v; e.off = v[2].v; } static std::vector<u128> get(const phase1::entry_7& e) { return {e.y, e.pos, e.off}; } };
template<> struct IO<phase1::tmp_entry_1> { static const char* name() { return "phase1::tmp_entry_1"; } static std::vector<Fld> f() { return {{"x", KM, 0}}; }
	static void set(phase1::tmp_entry_1& e, const std::vector<Fld>& v) { e.x = v[0].v; } static std::vector<u128> get(const phase1::tmp_entry_1& e) { return {e.x}; } };
template<> struct IO<phase1::tmp_entry_x> { static const char* name() { return "phase1::tmp_entry_x"; } static std::vector<Fld> f() { return {{"pos", PM, 0}, {"off", 10, 0}}; }
	static void set(phase1::tmp_entry_x& e, const std::vector<Fld>& v) { e.pos = v[0].v; e.off = v[1].v; } static std::vector<u128> get(const phase1::tmp_entry_x& e) { return {e.pos, e.off}; } };
template<> struct IO<phase2::entry_x> { static const char* name() { return "phase2::entry_x"; } static std::vector<Fld> f() { return {{"key", PM, 0}, {"pos", PM, 0}, {"off", 10, 0}}; }
	static void set(phase2::entry_x& e, const std::vector<Fld>& v) { e.key = v[0].v; e.pos = v[1].v; e.off = v[2].v; } static std::vector<u128> get(const phase2::entry_x& e) { return {e.key, e.pos, e.off}; } };
template<> struct IO<phase3::entry_lp> { static const char* name() { return "phase3::entry_lp"; } static std::vector<Fld> f() { return {{"point", LPB, 0}, {"key", PM, 0}}; }
	static void set(phase3::entry_lp& e, const std::vector<Fld>& v) { e.point = v[0].v; e.key = v[1].v; } static std::vector<u128> get(const phase3::entry_lp& e) { return {e.point, e.key}; } };
template<> struct IO<phase3::entry_np> { static const char* name() { return "phase3::entry_np"; } static std::vector<Fld> f() { return {{"key", PM, 0}, {"pos", PM, 0}}; }
	static void set(phase3::entry_np& e, const std::vector<Fld>& v) { e.key = v[0].v; e.pos = v[1].v; } static std::vector<u128> get(const phase3::entry_np& e) { return {e.key, e.pos}; } };

template<typename T> static void codec(Ctx& c) {
	const size_t D = T::disk_size; pbt::Src& s = c.s;
	auto fs = IO<T>::f(); bool nt = false;
	for(auto& f : fs) { f.v = wide(s, f.bits); if(f.v) nt = true; }
	Rng r(s.seed());
	c.desc << IO<T>::name() << "[" << D << "]"; for(size_t i = 0; i < std::min<size_t>(fs.size(), 3); ++i) c.desc << " " << fs[i].n << "=0x" << S(fs[i].v); c.publish();
	alignas(16) uint8_t mem[sizeof(T)];
	for(int round = 0; round < 4; ++round) {
		auto junk = [&](uint8_t* p, size_t n) { for(size_t i = 0; i < n; ++i) p[i] = round == 0 ? 0 : round == 1 ? 0xff : r.next(); };
		junk(mem, sizeof mem); T& e = *new(mem) T; junk(mem, sizeof mem);   // target object with arbitrary previous contents
		IO<T>::set(e, fs);
		std::vector<uint8_t> buf(16 + D + 16); junk(buf.data(), buf.size()); auto before = buf;
		size_t w = e.write(buf.data() + 16);
		PBT_CHECK(w == D, "write() reports " << w << " bytes");
		for(size_t i = 0; i < 16; ++i) PBT_CHECK(buf[i] == before[i] && buf[16 + D + i] == before[16 + D + i], "write() touches memory outside its " << D << " bytes");
		auto again = std::vector<uint8_t>(16 + D + 16, round & 1 ? 0 : 0xff); e.write(again.data() + 16);
		alignas(16) uint8_t mem2[sizeof(T)]; junk(mem2, sizeof mem2); T& g = *new(mem2) T; junk(mem2, sizeof mem2);
		// a neighbour record written first / after must survive
		size_t rd = g.read(buf.data() + 16);
		PBT_CHECK(rd == D, "read() reports " << rd << " bytes");
		auto got = IO<T>::get(g);
		for(size_t i = 0; i < fs.size(); ++i) PBT_CHECK(got[i] == fs[i].v, "field " << fs[i].n << " (" << i << ") written 0x" << S(fs[i].v) << " read back 0x" << S(got[i]) << " (stale bytes variant " << round << ")");
		g.read(again.data() + 16); got = IO<T>::get(g);
		for(size_t i = 0; i < fs.size(); ++i) PBT_CHECK(got[i] == fs[i].v, "field " << fs[i].n << " read back differently after the object was reused");
		// packed array of records
		std::vector<std::vector<Fld>> all; std::vector<uint8_t> arr(5 * D); junk(arr.data(), arr.size());
		std::vector<int> ord = {0, 1, 2, 3, 4}; for(int i = 4; i > 0; --i) std::swap(ord[i], ord[r.next() % (i + 1)]);
		for(int i = 0; i < 5; ++i) { auto x = fs; for(auto& f : x) { u128 v = ((u128)r.next() << 64 | r.next()); f.v = i == 2 ? f.v : v & ((((u128)1) << (f.bits - 1)) * 2 - 1); } all.push_back(x); }
		for(int i : ord) { IO<T>::set(e, all[i]); e.write(arr.data() + i * D); }
		for(int i = 0; i < 5; ++i) { g.read(arr.data() + i * D); auto y = IO<T>::get(g); for(size_t j = 0; j < fs.size(); ++j) PBT_CHECK(y[j] == all[i][j].v, "record " << i << " of an array is damaged by its neighbours (field " << fs[j].n << ")"); }
	}
	c.nontrivial = nt; c.label(IO<T>::name());
}
static void codec_any(Ctx& c) {
	switch(c.s.draw(11)) {
		case 0: codec<phase1::entry_1>(c); break; case 1: codec<phase1::entry_2>(c); break; case 2: codec<phase1::entry_3>(c); break; case 3: codec<phase1::entry_4>(c); break;
		case 4: codec<phase1::entry_5>(c); break; case 5: codec<phase1::entry_6>(c); break; case 6: codec<phase1::entry_7>(c); break; case 7: codec<phase1::tmp_entry_1>(c); break;
		case 8: codec<phase1::tmp_entry_x>(c); break; case 9: codec<phase2::entry_x>(c); break; case 10: codec<phase3::entry_lp>(c); break; default: codec<phase3::entry_np>(c);
	}
}
// through a file with the write_entry/read_entry helpers
template<typename T> static void fileio(Ctx& c) {
	auto fs = IO<T>::f(); Rng r(c.s.seed()); int n = c.s.range(1, 200); std::vector<std::vector<u128>> w;
	c.desc << IO<T>::name() << " file of " << n; c.publish();
	std::string fn = c.dir + "f"; FILE* f = fopen(fn.c_str(), "wb");
	for(int i = 0; i < n; ++i) { T e; for(auto& x : fs) x.v = ((u128)r.next() << 64 | r.next()) & ((((u128)1) << (x.bits - 1)) * 2 - 1); IO<T>::set(e, fs); PBT_CHECK(write_entry(f, e), "write_entry fails"); w.push_back(IO<T>::get(e)); }
	fclose(f); struct stat st; stat(fn.c_str(), &st); PBT_CHECK((size_t)st.st_size == n * T::disk_size, "file has " << st.st_size << " bytes");
	f = fopen(fn.c_str(), "rb"); T e; for(int i = 0; i < n; ++i) { PBT_CHECK(read_entry(f, e), "read_entry fails at " << i); PBT_CHECK(IO<T>::get(e) == w[i], "record " << i << " differs"); }
	PBT_CHECK(!read_entry(f, e), "read_entry reports a record after the last one"); fclose(f);
	c.nontrivial = n > 1; c.label(IO<T>::name());
}
static void file_any(Ctx& c) {
	switch(c.s.draw(5)) {
		case 0: fileio<phase1::entry_1>(c); break; case 1: fileio<phase1::tmp_entry_x>(c); break; case 2: fileio<phase1::entry_7>(c); break;
		case 3: fileio<phase2::entry_x>(c); break; case 4: fileio<phase3::entry_lp>(c); break; default: fileio<phase3::entry_np>(c);
	}
}
// assign(): conversions between phases carry all fields
static void assign(Ctx& c) {
	pbt::Src& s = c.s; Rng r(s.seed()); const uint64_t pos = s.bits(PM), off = s.bits(10), y = s.bits(KM), x = s.bits(KM);
	c.desc << "assign pos=" << pos << " off=" << off << " y=" << y << " x=" << x; c.publish();
	{ phase1::entry_1 e; e.y = r.next() & 0x3fffffffff; e.x = x; phase1::tmp_entry_1 t; memset((void*)&t, 0xa5, sizeof t); t.assign(e); PBT_CHECK(t.x == (uintkx_t)x, "x lost"); }
	auto px = [&](auto e) { e.pos = pos; e.off = off; e.y = 1; phase1::tmp_entry_x t; memset((void*)&t, 0xa5, sizeof t); t.assign(e); PBT_CHECK(t.pos == pos && t.off == off, "pos/off lost");
		phase2::entry_x q; memset((void*)&q, 0xa5, sizeof q); q.assign(t); PBT_CHECK(q.pos == pos && q.off == off, "pos/off lost in phase 2"); };
	px(phase1::entry_2()); px(phase1::entry_3()); px(phase1::entry_5()); px(phase1::entry_6());
	{ phase1::entry_7 a, b; a.pos = pos; a.off = off; a.y = y; memset((void*)&b, 0xa5, sizeof b); b.assign(a); PBT_CHECK(b.pos == pos && b.off == off && b.y == y, "entry_7 fields lost"); }
	c.nontrivial = pos && off;
}
static pbt::Reg r1({"codec", codec_any}), r2({"codec_file", file_any}), r3({"codec_assign", assign});
PBT_MAIN
