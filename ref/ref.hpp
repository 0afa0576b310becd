// Independent reference for the v1.0 plot format and the proof-of-space
// functions. Written from the format description; includes nothing of /repo.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <queue>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include "blake3.h"

namespace ref {

typedef __uint128_t u128;

static const int VLEN[8] = {0, 0, 1, 2, 4, 4, 3, 2};
static const uint64_t B = 119, C = 127, BC = B * C;

// ---------------------------------------------------------------- ChaCha8
inline uint32_t rotl(uint32_t v, int n) { return (v << n) | (v >> (32 - n)); }
inline void chacha8_block(const uint8_t key[32], uint64_t counter, uint8_t out[64], const uint8_t* iv = nullptr) {
	uint32_t st[16], w[16];
	const char* cst = "expand 32-byte k";
	for(int i = 0; i < 4; ++i) st[i] = (uint8_t)cst[4*i] | (uint8_t)cst[4*i+1] << 8 | (uint8_t)cst[4*i+2] << 16 | (uint32_t)(uint8_t)cst[4*i+3] << 24;
	for(int i = 0; i < 8; ++i) st[4+i] = key[4*i] | key[4*i+1] << 8 | key[4*i+2] << 16 | (uint32_t)key[4*i+3] << 24;
	st[12] = (uint32_t)counter; st[13] = (uint32_t)(counter >> 32); st[14] = st[15] = 0;
	if(iv) for(int i = 0; i < 2; ++i) st[14+i] = iv[4*i] | iv[4*i+1] << 8 | iv[4*i+2] << 16 | (uint32_t)iv[4*i+3] << 24;
	memcpy(w, st, sizeof w);
	auto qr = [&](int a, int b, int c, int d) {
		w[a] += w[b]; w[d] = rotl(w[d] ^ w[a], 16); w[c] += w[d]; w[b] = rotl(w[b] ^ w[c], 12);
		w[a] += w[b]; w[d] = rotl(w[d] ^ w[a], 8);  w[c] += w[d]; w[b] = rotl(w[b] ^ w[c], 7);
	};
	for(int r = 0; r < 4; ++r) {
		for(int i = 0; i < 4; ++i) qr(i, 4 + i, 8 + i, 12 + i);
		for(int i = 0; i < 4; ++i) qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
	}
	for(int i = 0; i < 16; ++i) { uint32_t v = w[i] + st[i]; for(int j = 0; j < 4; ++j) out[4*i+j] = v >> (8*j); }
}

// ---------------------------------------------------------------- bit strings
struct BitBuf {                       // big-endian bit string, MSB first
	std::vector<uint8_t> b; size_t n = 0;
	void bit(int v) { if(n % 8 == 0) b.push_back(0); if(v) b[n / 8] |= 0x80 >> (n % 8); n++; }
	void add(u128 v, int nb) { for(int i = nb - 1; i >= 0; --i) bit((int)(v >> i) & 1); }
	void add(const BitBuf& o) { if(n % 8 == 0) { b.insert(b.end(), o.b.begin(), o.b.end()); n += o.n; } else for(size_t i = 0; i < o.n; ++i) bit(o.get(i)); }
	int get(size_t i) const { return (b[i / 8] >> (7 - i % 8)) & 1; }
	u128 slice(size_t from, size_t nb) const { u128 v = 0; for(size_t i = 0; i < nb; ++i) v = (v << 1) | get(from + i); return v; }
	bool operator==(const BitBuf& o) const { return n == o.n && b == o.b; }
};
inline u128 bits_of(const uint8_t* p, size_t from, size_t nb) {
	u128 v = 0;
	for(size_t i = from; i < from + nb;) {
		size_t take = std::min<size_t>(8 - i % 8, from + nb - i);
		uint8_t x = (p[i / 8] >> (8 - i % 8 - take)) & ((1 << take) - 1);
		v = (v << take) | x; i += take;
	}
	return v;
}

// ---------------------------------------------------------------- f functions
struct F1 {
	int k; uint8_t key[32]; uint64_t have = UINT64_MAX; uint8_t buf[128];
	F1(int k, const uint8_t* id) : k(k) { key[0] = 1; memcpy(key + 1, id, 31); }
	uint64_t operator()(uint64_t x) {
		u128 bit = (u128)x * k; uint64_t blk = (uint64_t)(bit / 512);
		if(blk != have) { chacha8_block(key, blk, buf); chacha8_block(key, blk + 1, buf + 64); have = blk; }
		uint64_t y = (uint64_t)bits_of(buf, (size_t)(bit % 512), k);
		return (y << 6) | (x >> (k - 6));
	}
};

// meta as big-endian bit string of VLEN[t]*k bits, left aligned in bytes
struct Meta { uint8_t b[18] = {}; };
inline Meta x_meta(uint64_t x, int k) { Meta m; BitBuf q; q.add(x, k); memcpy(m.b, q.b.data(), q.b.size()); return m; }

// computes f_t for t in 2..7 from the y of the left entry and both metas (of table t-1)
inline void fx(int k, int t, uint64_t yl, const Meta& ml, const Meta& mr, uint64_t& y, Meta& m) {
	const size_t mb = (size_t)VLEN[t] * k;
	uint8_t in[64] = {}; size_t n = 0;
	auto put = [&](const uint8_t* p, size_t nb) {      // append nb bits
		for(size_t i = 0; i < nb;) {
			size_t take = std::min<size_t>(std::min<size_t>(8 - i % 8, 8 - n % 8), nb - i);
			uint8_t v = (p[i / 8] >> (8 - i % 8 - take)) & ((1 << take) - 1);
			in[n / 8] |= v << (8 - n % 8 - take); i += take; n += take;
		}
	};
	uint8_t yb[8]; { uint64_t v = yl << (64 - (k + 6)); for(int i = 0; i < 8; ++i) yb[i] = v >> (56 - 8 * i); }
	put(yb, k + 6); put(ml.b, mb); put(mr.b, mb);
	uint8_t h[32]; blake3_hasher hs; blake3_hasher_init(&hs); blake3_hasher_update(&hs, in, (n + 7) / 8); blake3_hasher_finalize(&hs, h, 32);
	y = (uint64_t)bits_of(h, 0, t < 7 ? k + 6 : k);
	m = Meta();
	if(t < 4) {
		BitBuf q; for(size_t i = 0; i < mb; ++i) q.bit((ml.b[i / 8] >> (7 - i % 8)) & 1); for(size_t i = 0; i < mb; ++i) q.bit((mr.b[i / 8] >> (7 - i % 8)) & 1);
		memcpy(m.b, q.b.data(), q.b.size());
	} else if(t < 7) {
		const size_t ob = (size_t)VLEN[t + 1] * k;
		for(size_t i = 0; i < ob; ++i) { size_t s = k + 6 + i; if((h[s / 8] >> (7 - s % 8)) & 1) m.b[i / 8] |= 0x80 >> (i % 8); }
	}
}

inline bool matches(uint64_t yl, uint64_t yr) {
	if(yl / BC + 1 != yr / BC) return false;
	const uint64_t par = (yl / BC) % 2, bl = (yl % BC) / C, cl = (yl % BC) % C, br = (yr % BC) / C, cr = (yr % BC) % C;
	const uint64_t m = (br + B - bl) % B;
	if(m >= 64) return false;
	return (cr + C - cl) % C == ((2 * m + par) * (2 * m + par)) % C;
}

// ---------------------------------------------------------------- line points
inline u128 tri(uint64_t x) { return x % 2 ? (u128)((x - 1) / 2) * x : (u128)(x / 2) * (x ? x - 1 : 0); }
inline u128 line_point(uint64_t a, uint64_t b) { if(a < b) std::swap(a, b); return tri(a) + b; }
inline std::pair<uint64_t, uint64_t> from_line_point(u128 lp) {
	uint64_t lo = 0, hi = uint64_t(1) << 62;            // largest x with tri(x) <= lp
	while(lo < hi) { uint64_t mid = lo + (hi - lo + 1) / 2; if(tri(mid) <= lp) lo = mid; else hi = mid - 1; }
	return {lo, (uint64_t)(lp - tri(lo))};
}

// ---------------------------------------------------------------- tANS
static const double RVAL[6] = {4.7, 2.75, 2.75, 2.7, 2.6, 2.45};
inline std::vector<short> norm_count(double R) {           // frozen v1.0 distribution
	std::vector<double> pdf; int N = 0; const double E = 2.718281828459; double p = 1 - pow((E - 1) / E, 1.0 / R);
	while(p > 1e-50 && N < 255) { pdf.push_back(p); N++; p = (pow(E, 1.0 / R) - 1) * pow(E - 1, 1.0 / R); p /= pow(E, ((N + 1) / R)); }
	std::vector<short> ans(N, 1);
	auto cmp = [&](int i, int j) { return pdf[i] * (log2(ans[i] + 1) - log2(ans[i])) < pdf[j] * (log2(ans[j] + 1) - log2(ans[j])); };
	std::priority_queue<int, std::vector<int>, decltype(cmp)> pq(cmp);
	for(int i = 0; i < N; ++i) pq.push(i);
	for(int t = 0; t < (1 << 14) - N; ++t) { int i = pq.top(); pq.pop(); ans[i]++; pq.push(i); }
	for(auto& a : ans) if(a == 1) a = -1;
	return ans;
}
class Tans {
public:
	explicit Tans(double R) {
		auto nc = norm_count(R); num_symbols = nc.size();
		const uint32_t size = 1 << 14, mask = size - 1, step = (size >> 1) + (size >> 3) + 3;
		tab.resize(size); std::vector<uint32_t> next(nc.size()); uint32_t high = size - 1;
		for(size_t s = 0; s < nc.size(); ++s) { if(nc[s] == -1) { tab[high--].sym = s; next[s] = 1; } else next[s] = nc[s]; }
		uint32_t pos = 0;
		for(size_t s = 0; s < nc.size(); ++s) for(int i = 0; i < nc[s]; ++i) { tab[pos].sym = s; do pos = (pos + step) & mask; while(pos > high); }
		for(auto& e : tab) { uint32_t x = next[e.sym]++; int hb = 31 - __builtin_clz(x); e.nb = 14 - hb; e.base = (x << e.nb) - size; }
	}
	// decodes the whole stream; returns false on malformed input or more than max symbols
	bool decode(const uint8_t* p, size_t len, std::vector<uint8_t>& out, size_t max) const {
		out.clear();
		if(!len || !p[len - 1]) return false;
		int64_t P = (int64_t)(len - 1) * 8 + (31 - __builtin_clz((uint32_t)p[len - 1]));
		auto rd = [&](int nb) -> uint32_t {
			P -= nb; uint32_t v = 0;
			for(int i = nb - 1; i >= 0; --i) { int64_t q = P + i; v = (v << 1) | (q >= 0 ? (p[q / 8] >> (q % 8)) & 1 : 0); }
			return v;
		};
		uint32_t st[2]; st[0] = rd(14); st[1] = rd(14);
		if(P < 0) return false;
		for(int w = 0;; w ^= 1) {
			if(out.size() + 2 > max + 2) return false;
			const auto& e = tab[st[w]]; out.push_back(e.sym); st[w] = e.base + rd(e.nb);
			if(P < 0) { out.push_back(tab[st[w ^ 1]].sym); break; }
		}
		return out.size() <= max;
	}
	size_t num_symbols;
	static const Tans& get(double R) {        // not thread safe on first use
		static std::map<double, Tans*> m; auto& t = m[R]; if(!t) t = new Tans(R); return *t;
	}
private:
	struct E { uint16_t sym = 0; uint8_t nb = 0; uint32_t base = 0; };
	std::vector<E> tab;
};

// ---------------------------------------------------------------- plot file
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

inline uint64_t rd8(const uint8_t* p) { uint64_t v = 0; for(int i = 0; i < 8; ++i) v = v << 8 | p[i]; return v; }
inline size_t bytes_of(uint64_t bits) { return (bits + 7) / 8; }
inline uint64_t lp_size(int k) { return bytes_of(2 * k); }
inline uint64_t stub_size(int k) { return bytes_of(2047ull * (k - 3)); }
inline uint64_t delta_size(int t) { return bytes_of((uint64_t)(2047 * (t == 1 ? 5.6 : 3.5))); }
inline uint64_t park_size(int k, int t) { return lp_size(k) + stub_size(k) + delta_size(t); }
inline uint64_t p7_size(int k) { return bytes_of((uint64_t)(k + 1) * 2048); }
inline uint64_t c3_size(int k) { return k < 20 ? 10000 : 3000; }

struct Plot {
	std::vector<uint8_t> file;
	uint64_t base = 0;                     // file offset of file[0]  (for sparse giants)
	int k = 0; std::array<uint8_t, 32> id; std::vector<uint8_t> memo; size_t header_size = 0;
	uint64_t ptr[11] = {};                 // [0..6] tables 1..7, [7..9] C1,C2,C3
	std::vector<u128> lp[7];               // [1..6]
	std::vector<uint64_t> p7, f7, c1, c2;
	bool tail_unreadable = false;          // known format limit: last park with 2 or 3 entries

	static std::vector<uint8_t> slurp(const std::string& path) {
		FILE* f = fopen(path.c_str(), "rb"); if(!f) throw Bad("cannot open " + path);
		std::vector<uint8_t> v; fseek(f, 0, SEEK_END); v.resize(ftell(f)); rewind(f);
		size_t n = fread(v.data(), 1, v.size(), f); fclose(f); if(n != v.size()) throw Bad("short read of " + path);
		return v;
	}
	const uint8_t* at(uint64_t off, uint64_t len, const char* what) const {
		if(off < base || off - base > file.size() || file.size() - (off - base) < len) throw Bad(std::string(what) + " lies outside the file (offset " + std::to_string(off) + " + " + std::to_string(len) + ", size " + std::to_string(file.size()) + ")");
		return file.data() + (off - base);
	}
	void parse_header() {
		const char* magic = "Proof of Space Plot";
		if(file.size() < 60 || memcmp(file.data(), magic, 19)) throw Bad("bad magic");
		memcpy(id.data(), &file[19], 32); k = file[51];
		size_t p = 52, n = file[p] << 8 | file[p + 1]; p += 2;
		if(n != 4 || memcmp(&file[p], "v1.0", 4)) throw Bad("bad format description"); p += 4;
		n = file[p] << 8 | file[p + 1]; p += 2;
		if(file.size() < p + n + 80) throw Bad("header truncated");
		memo.assign(file.begin() + p, file.begin() + p + n); p += n;
		for(int i = 0; i < 10; ++i) ptr[i] = rd8(&file[p + 8 * i]);
		header_size = p + 80;
		if(k < 3 || k > 50) throw Bad("bad k in header");
	}
	// decodes the parks of table t (1..6) that fill [begin,end)
	void parse_table(int t, uint64_t begin, uint64_t end) {
		const uint64_t ps = park_size(k, t); auto& out = lp[t]; out.clear();
		if(end < begin || (end - begin) % ps) throw Bad("table " + std::to_string(t) + " is not a whole number of parks");
		const Tans& ans = Tans::get(RVAL[t - 1]);
		const uint64_t parks = (end - begin) / ps; std::vector<uint8_t> d;
		for(uint64_t i = 0; i < parks; ++i) {
			const uint8_t* p = at(begin + i * ps, ps, "park");
			u128 v = bits_of(p, 0, 2 * k); const uint8_t* stubs = p + lp_size(k); const uint8_t* q = stubs + stub_size(k);
			uint32_t sz = q[0] | q[1] << 8; q += 2;
			bool raw = sz & 0x8000; sz &= 0x7fff;
			if(sz + 2 > delta_size(t)) throw Bad("delta section overflows its park");
			if(raw) d.assign(q, q + sz); else if(!ans.decode(q, sz, d, 2047)) throw Bad("undecodable deltas in table " + std::to_string(t) + " park " + std::to_string(i));
			if(d.size() > 2047) throw Bad("too many deltas");
			if(i + 1 < parks && d.size() != 2047) throw Bad("park " + std::to_string(i) + " of table " + std::to_string(t) + " holds " + std::to_string(d.size() + 1) + " entries but is not the last");
			out.push_back(v);
			for(size_t j = 0; j < d.size(); ++j) { u128 big = (u128)d[j] << (k - 3) | bits_of(stubs, j * (k - 3), k - 3); v += big; out.push_back(v); }
		}
	}
	// n7: number of table 7 entries
	void parse_tail(uint64_t n7, uint64_t end_byte) {
		const uint64_t ces = bytes_of(k), nc1 = (n7 + 9999) / 10000, nc2 = (nc1 + 9999) / 10000, np7 = (n7 + 2047) / 2048;
		if(ptr[7] != ptr[6] + np7 * p7_size(k)) throw Bad("C1 pointer is " + std::to_string(ptr[7]) + ", table 7 ends at " + std::to_string(ptr[6] + np7 * p7_size(k)));
		if(ptr[8] != ptr[7] + (nc1 + 1) * ces) throw Bad("C2 pointer wrong");
		if(ptr[9] != ptr[8] + (nc2 + 1) * ces) throw Bad("C3 pointer wrong");
		if(end_byte != ptr[9] + nc1 * c3_size(k)) throw Bad("end of plot is " + std::to_string(end_byte) + ", expected " + std::to_string(ptr[9] + nc1 * c3_size(k)));
		p7.clear(); f7.clear(); c1.clear(); c2.clear();
		for(uint64_t i = 0; i < n7; ++i) {
			const uint8_t* p = at(ptr[6] + (i / 2048) * p7_size(k), p7_size(k), "P7 park");
			p7.push_back((uint64_t)bits_of(p, (i % 2048) * (k + 1), k + 1));
		}
		auto ce = [&](uint64_t base, uint64_t i) { const uint8_t* p = at(base + i * ces, ces, "checkpoint"); uint64_t v = (uint64_t)bits_of(p, 0, k); if(bits_of(p, k, ces * 8 - k) != 0) throw Bad("checkpoint padding not zero"); return v; };
		for(uint64_t i = 0; i < nc1; ++i) c1.push_back(ce(ptr[7], i));
		if(ce(ptr[7], nc1)) throw Bad("C1 terminator missing");
		for(uint64_t i = 0; i < nc2; ++i) { c2.push_back(ce(ptr[8], i)); if(c2.back() != c1[i * 10000]) throw Bad("C2 entry differs from its C1 entry"); }
		if(ce(ptr[8], nc2)) throw Bad("C2 terminator missing");
		const Tans& ans = Tans::get(1.0); std::vector<uint8_t> d;
		for(uint64_t i = 0; i < nc1; ++i) {
			const uint8_t* p = at(ptr[9] + i * c3_size(k), c3_size(k), "C3 park"); uint32_t sz = p[0] << 8 | p[1];
			const uint64_t expect = std::min<uint64_t>(9999, n7 - i * 10000 - 1);
			if(sz + 2 > c3_size(k)) throw Bad("C3 park overflows");
			d.clear();
			if(sz) { if(!ans.decode(p + 2, sz, d, 9999)) throw Bad("undecodable C3 park"); }
			else if(expect == 1 || expect == 2) { tail_unreadable = true; }
			if(!tail_unreadable && d.size() != expect) throw Bad("C3 park " + std::to_string(i) + " holds " + std::to_string(d.size()) + " deltas, expected " + std::to_string(expect));
			uint64_t v = c1[i]; f7.push_back(v);
			for(auto x : d) { v += x; f7.push_back(v); }
		}
	}
	void parse(const std::string& path) {
		file = slurp(path); parse_header();
		if(ptr[0] != header_size) throw Bad("table 1 pointer is not the end of the header");
		for(int t = 1; t <= 6; ++t) parse_table(t, ptr[t - 1], ptr[t]);
		// Each table-6 line point belongs to exactly one table 7 entry
		parse_tail(lp[6].size(), file.size());
	}
};

// ---------------------------------------------------------------- full plot in memory
inline uint64_t hash2(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull) * 0xABC98388FB8FAC03ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x *= 0x94D049BB133111EBull; return x ^ (x >> 29); }
inline uint64_t tree_node(uint64_t a, uint64_t b) { return a < b ? hash2(a, b) : hash2(b, a); }   // unordered
inline uint64_t tree_leaf(uint64_t x) { return hash2(x, 0x1eaf); }

struct RefPlot {
	struct Entry { uint64_t y; uint32_t l, r; Meta m; };
	int k; std::vector<Entry> tab[8];          // 1..7
	uint64_t used[8] = {};                     // entries reachable from table 7
	std::vector<std::pair<uint64_t, uint64_t>> proofs;   // sorted (f7, tree hash)
	RefPlot(int k, const uint8_t* id) : k(k) {
		F1 f1(k, id); auto& t1 = tab[1]; t1.resize(size_t(1) << k);
		for(uint64_t x = 0; x < t1.size(); ++x) { t1[x].y = f1(x); t1[x].l = x; t1[x].r = 0; t1[x].m = x_meta(x, k); }
		for(int t = 2; t <= 7; ++t) {
			auto& L = tab[t - 1]; auto& R = tab[t];
			std::vector<uint32_t> ord(L.size()); for(size_t i = 0; i < ord.size(); ++i) ord[i] = i;
			std::sort(ord.begin(), ord.end(), [&](uint32_t a, uint32_t b) { return L[a].y != L[b].y ? L[a].y < L[b].y : a < b; });
			std::vector<std::pair<size_t, size_t>> groups;
			for(size_t i = 0; i < ord.size();) { size_t j = i; while(j < ord.size() && L[ord[j]].y / BC == L[ord[i]].y / BC) ++j; groups.push_back({i, j}); i = j; }
			std::vector<std::vector<uint32_t>> at(BC);
			for(size_t g = 0; g + 1 < groups.size(); ++g) {
				auto a = groups[g], b = groups[g + 1];
				uint64_t ga = L[ord[a.first]].y / BC; if(L[ord[b.first]].y / BC != ga + 1) continue;
				for(size_t j = b.first; j < b.second; ++j) at[L[ord[j]].y % BC].push_back(ord[j]);
				for(size_t i = a.first; i < a.second; ++i) {
					uint64_t v = L[ord[i]].y % BC, bl = v / C, cl = v % C;
					for(uint64_t m = 0; m < 64; ++m) {
						uint64_t s = 2 * m + (ga & 1);
						for(uint32_t r : at[((bl + m) % B) * C + (cl + s * s) % C]) {
							Entry e; e.l = ord[i]; e.r = r; fx(k, t, L[ord[i]].y, L[ord[i]].m, L[r].m, e.y, e.m); R.push_back(e);
						}
					}
				}
				for(size_t j = b.first; j < b.second; ++j) at[L[ord[j]].y % BC].clear();
			}
		}
		std::vector<char> mark(tab[7].size(), 1); used[7] = tab[7].size();
		for(int t = 7; t >= 2; --t) {
			std::vector<char> low(tab[t - 1].size(), 0);
			for(size_t i = 0; i < tab[t].size(); ++i) if(mark[i]) low[tab[t][i].l] = low[tab[t][i].r] = 1;
			used[t - 1] = std::count(low.begin(), low.end(), 1); mark.swap(low);
		}
		std::vector<uint64_t> h(tab[1].size()); for(size_t i = 0; i < h.size(); ++i) h[i] = tree_leaf(i);
		for(int t = 2; t <= 7; ++t) { std::vector<uint64_t> g(tab[t].size()); for(size_t i = 0; i < g.size(); ++i) g[i] = tree_node(h[tab[t][i].l], h[tab[t][i].r]); h.swap(g); }
		for(size_t i = 0; i < h.size(); ++i) proofs.push_back({tab[7][i].y, h[i]});
		std::sort(proofs.begin(), proofs.end());
	}
};

// (f7, tree hash) pairs stored in a parsed plot, sorted
inline std::vector<std::pair<uint64_t, uint64_t>> stored_proofs(const Plot& p) {
	std::vector<uint64_t> h;
	for(int t = 1; t <= 6; ++t) {
		std::vector<uint64_t> g; g.reserve(p.lp[t].size());
		for(auto v : p.lp[t]) {
			auto ab = from_line_point(v);
			if(t == 1) { g.push_back(tree_node(tree_leaf(ab.first), tree_leaf(ab.second))); continue; }
			if(ab.first >= h.size()) throw Bad("table " + std::to_string(t) + " refers to entry " + std::to_string(ab.first) + " of " + std::to_string(h.size()));
			g.push_back(tree_node(h[ab.first], h[ab.second]));
		}
		h.swap(g);
	}
	std::vector<std::pair<uint64_t, uint64_t>> r;
	for(size_t i = 0; i < p.p7.size() && i < p.f7.size(); ++i) {
		if(p.p7[i] >= h.size()) throw Bad("table 7 refers to entry " + std::to_string(p.p7[i]) + " of " + std::to_string(h.size()));
		r.push_back({p.f7[i], h[p.p7[i]]});
	}
	std::sort(r.begin(), r.end());
	return r;
}

// Independent verifier: evaluates every stored entry bottom-up. Throws Bad on the first invalid one.
inline uint64_t verify_all(const Plot& p) {
	const int k = p.k; F1 f1(k, p.id.data());
	struct V { uint64_t y; Meta m; };
	std::vector<V> cur; std::unordered_map<uint64_t, uint64_t> f1c;
	for(int t = 2; t <= 7; ++t) {
		std::vector<V> nx; nx.reserve(p.lp[t - 1].size()); size_t idx = 0;
		for(auto v : p.lp[t - 1]) {
			auto ab = from_line_point(v); V a, b;
			if(t == 2) {
				if(ab.first >> k) throw Bad("x value exceeds k bits");
				a.y = f1(ab.first); a.m = x_meta(ab.first, k); b.y = f1(ab.second); b.m = x_meta(ab.second, k);
			} else {
				if(ab.first >= cur.size()) throw Bad("table " + std::to_string(t - 1) + " entry refers beyond the table below");
				a = cur[ab.first]; b = cur[ab.second];
			}
			if(a.y > b.y) std::swap(a, b);
			if(!matches(a.y, b.y)) throw Bad("entry " + std::to_string(idx) + " of stored table " + std::to_string(t - 1) + ": the two values do not match");
			V o; fx(k, t, a.y, a.m, b.m, o.y, o.m); nx.push_back(o); idx++;
		}
		cur.swap(nx);
	}
	for(size_t i = 0; i < p.f7.size(); ++i) {
		if(p.p7[i] >= cur.size()) throw Bad("table 7 position out of range");
		if(cur[p.p7[i]].y != p.f7[i]) throw Bad("stored f7 #" + std::to_string(i) + " = " + std::to_string(p.f7[i]) + " but its proof evaluates to " + std::to_string(cur[p.p7[i]].y));
		if(i && p.f7[i] < p.f7[i - 1]) throw Bad("f7 values not sorted");
	}
	return cur.size();
}

} // namespace ref
