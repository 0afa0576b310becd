// C12: parks of a table that lies far inside the plot file (beyond 2 and 4 GiB): the same bytes as near its start, moved.
#define SCHED_INTERPOSE
#include "common.hpp"
#include <numeric>
#include <chia/phase3.hpp>
#include <chia/DiskSort.hpp>
#ifdef CHIA_K34
static const int KTOP = 34;
#else
static const int KTOP = 32;
#endif
typedef unsigned __int128 u128;
struct Res { uint64_t ret = 0, next = 0, size = 0; std::vector<uint8_t> bytes; std::multiset<std::pair<uint64_t, uint64_t>> np; };
struct Cap : Processor<std::pair<std::vector<phase3::entry_np>, size_t>> { Res& r; Cap(Res& r) : r(r) {} void take(std::pair<std::vector<phase3::entry_np>, size_t>& d) override { for(auto& e : d.first) r.np.insert({e.key, e.pos}); } };
static void far(Ctx& c) {
	pbt::Src& s = c.s; const int k = s.chance(1, 3) ? KTOP : s.range(18, KTOP), L = s.range(1, 6), threads = s.pick({4, 1, 2, 8}), lb = s.range(4, 6); const size_t n = s.pick<size_t>({1, 2048, 2049, 5000, 20000}) + s.draw(3000);
	const uint64_t at = s.pick<uint64_t>({1ull << 32, (1ull << 32) - 5000, 1ull << 31, (1ull << 31) - 5000, 5000000000ull, 1ull << 33, 1ull << 36, 108000000000ull}) + s.draw(1000); const int lv = s.pick({0, 1, 2}); Rng r(s.seed());
	c.desc << "k=" << k << " table=" << L << " n=" << n << " threads=" << threads << " log_buckets=" << lb << " at=" << at; c.publish();
	std::vector<phase3::entry_lp> in(n); u128 p = r.next() >> (64 - std::min(40, 2 * k - 8)); const uint64_t step = 1ull << (k - 3); for(auto& e : in) { p += 1 + r.below(step) + (r.below(3) == 0 ? step : 0); e.point = p; e.key = r.next() & ((1ull << k) - 1); } if(p >> (2 * k - 1)) throw pbt::Discard{"line points too large"};
	Res a, b; ChunkSizes cs(4096, 333); sched::on(r.next(), lv, 100000);
	for(Res* o : {&a, &b}) {
		const uint64_t base = o == &a ? 300 : at; const std::string fn = c.dir + "f"; FILE* f = fopen(fn.c_str(), "wb+"); if(!f) throw pbt::Discard{"no file"};
		{
			phase3::DiskSortLP R(2 * k - 1, lb, c.dir + "r"); { auto w = R.add_cache(); for(auto& e : in) w->add(e); } R.finish();
			phase3::DiskSortNP N(k, lb, c.dir + "n"); o->ret = phase3::compute_stage2(L, k, threads, &R, &N, f, base, &o->next); fclose(f);
			Cap cap(*o); N.read(&cap, 2);
		}
		struct stat st; if(stat(fn.c_str(), &st)) pbt::fail("file gone"); o->size = st.st_size; PBT_CHECK(o->next > base && o->size <= o->next && o->size > base, "the next table begins at " << o->next << " and the file has " << o->size << " bytes; this table begins at " << base);
		PBT_CHECK(o->next - base < (64u << 20), "the next table begins at " << o->next << ", this one at " << base);
		o->bytes.resize(o->next - base); int fd = open(fn.c_str(), O_RDONLY); ssize_t m = pread(fd, o->bytes.data(), o->bytes.size(), base); o->bytes.resize(std::max<ssize_t>(m, 0));
		if(o == &b) { off_t q = lseek(fd, 0, SEEK_DATA); PBT_CHECK(q < 0 || (uint64_t)q + 65536 >= base || base < 70000, "something is written at " << q << ", this table begins at " << base); }
		close(fd); unlink(fn.c_str());
	}
	sched::off();
	PBT_CHECK(a.ret == b.ret && a.ret == n, "entries written: " << a.ret << " and " << b.ret << " of " << n); PBT_CHECK(a.next - 300 == b.next - at, "the table takes " << a.next - 300 << " bytes near the start of the file and " << b.next - at << " at " << at);
	PBT_CHECK(a.size - 300 == b.size - at && a.bytes == b.bytes, "the parks differ from those of the same entries near the start of the file"); PBT_CHECK(a.np == b.np, "new positions differ");
	c.nontrivial = n > 1; if(at >> 32) c.label("beyond 4 GiB"); if(n > 2048) c.label("several parks");
}
static pbt::Reg r1({"far", far, true});
PBT_MAIN
