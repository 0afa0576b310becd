// C23: bit strings against std::string models.
#include "common.hpp"
#include <chia/bits.hpp>
#include <chia/util.hpp>
typedef unsigned __int128 u128;
static std::string bin(u128 v, uint32_t n) { std::string s(n, '0'); for(uint32_t i = 0; i < n && i < 128; ++i) if(v >> i & 1) s[n - 1 - i] = '1'; return s; }
static std::string frombytes(const uint8_t* p, uint32_t nbytes) { std::string s; for(uint32_t i = 0; i < nbytes; ++i) s += bin(p[i], 8); return s; }
static u128 val(const std::string& b) { u128 v = 0; for(char c : b) v = v << 1 | (c == '1'); return v; }
template<typename B> static std::string str(const B& b) {   // read out through single bits via slices of the serialisation
	std::vector<uint8_t> buf((b.GetSize() + 7) / 8 + 32, 0xCC);
	if(b.GetSize()) b.ToBytes(buf.data());
	for(size_t i = (b.GetSize() + 7) / 8; i < buf.size(); ++i) PBT_CHECK(buf[i] == 0xCC, "ToBytes() writes past the end");
	std::string s = frombytes(buf.data(), (b.GetSize() + 7) / 8);
	for(size_t i = b.GetSize(); i < s.size(); ++i) PBT_CHECK(s[i] == '0', "padding bits of ToBytes() are not zero");
	return s.substr(0, b.GetSize());
}
template<typename B> static void seq(Ctx& c, uint32_t maxbits, const char* name) {
	pbt::Src& s = c.s; B b; std::string m; int ops = s.range(1, 40); bool nt = false;
	c.desc << name << ":";
	for(int i = 0; i < ops; ++i) {
		uint32_t n = s.range(1, 64);
		switch(s.draw(6)) {
			case 0: { if(m.size() + n > maxbits) break; uint64_t v = s.bits(n); c.desc << " append(" << v << "," << n << ")"; b.AppendValue(v, n); m += bin(v, n); nt = true; break; }
			case 1: { if(m.size() + n > maxbits) break; uint64_t v = s.bits(n); c.desc << " +=(" << v << "," << n << ")"; B o(v, n); b += o; m += bin(v, n); break; }
			case 2: { n = s.range(1, 128); if(m.size() + n > maxbits) break; u128 v = n > 64 ? ((u128)s.bits(n - 64) << 64 | s.bits(64)) : (u128)s.bits(n); c.desc << " append128(" << n << ")"; b.AppendValue(v, n); m += bin(v, n); break; }
			case 3: { n = s.range(1, 128); if(m.size() + n > maxbits) break; u128 v = n > 64 ? ((u128)s.bits(n - 64) << 64 | s.bits(64)) : (u128)s.bits(n); c.desc << " +=128(" << n << ")"; B o(v, n); B r = b + o; m += bin(v, n); PBT_CHECK(str(r) == m, "a + b differs"); b = r; break; }
			case 4: { if(m.empty()) break; uint32_t st = s.draw(m.size() - 1), en = st + 1 + s.draw(m.size() - st - 1); c.desc << " slice(" << st << "," << en << ")"; B x = b.Slice(st, en); PBT_CHECK(x.GetSize() == en - st, "slice size"); PBT_CHECK(str(x) == m.substr(st, en - st), "Slice(" << st << "," << en << ") of " << m << " gives " << str(x)); nt = true; break; }
			case 5: { if(m.empty()) break; uint32_t st = s.draw(m.size() - 1), en = std::min<uint32_t>(st + 1 + s.draw(63), m.size()); uint64_t x = b.SliceBitsToInt(st, en); PBT_CHECK(x == (uint64_t)val(m.substr(st, en - st)), "SliceBitsToInt(" << st << "," << en << ") of " << m << " gives " << x); break; }
			default: { if(m.empty()) break; uint32_t st = s.draw(m.size() - 1); B x = b.Slice(st); PBT_CHECK(str(x) == m.substr(st), "Slice(" << st << ")"); }
		}
		c.publish();
		PBT_CHECK(b.GetSize() == m.size(), "size " << b.GetSize() << ", expected " << m.size());
		PBT_CHECK(str(b) == m, "contents " << str(b) << ", expected " << m);
	}
	if(m.size() && m.size() <= 64) PBT_CHECK(b.GetValue() == (uint64_t)val(m), "GetValue()");
	else if(m.size() > 64) { bool threw = false; try { b.GetValue(); } catch(const std::exception&) { threw = true; } PBT_CHECK(threw, "GetValue() of " << m.size() << " bits returns a value"); }
	PBT_CHECK(b.ToString() == m, "ToString()");
	if(!m.empty()) {
		// round trip through bytes
		std::vector<uint8_t> buf((m.size() + 7) / 8 + 8); b.ToBytes(buf.data());
		uint32_t nb = (m.size() + 7) / 8; B x(buf.data(), nb, nb * 8); std::string mm = m; mm.resize(nb * 8, '0'); PBT_CHECK(str(x) == mm, "construction from bytes");
		// comparisons
		std::string o = m; uint32_t f = s.draw(o.size() - 1); o[f] = o[f] == '1' ? '0' : '1'; B y; for(size_t p = 0; p < o.size(); p += 37) { auto t = o.substr(p, 37); y.AppendValue((uint64_t)val(t), t.size()); }
		B z; for(size_t p = 0; p < m.size(); p += 53) { auto t = m.substr(p, 53); z.AppendValue((uint64_t)val(t), t.size()); }
		PBT_CHECK(str(y) == o && str(z) == m, "append"); PBT_CHECK(b == z && !(b == y), "== is wrong"); PBT_CHECK((b < y) == (m < o) && (y < b) == (o < m) && !(b < z), "< is wrong");
	}
	c.nontrivial = nt && m.size() > 64; if(m.size() > 64) c.label("longer than a word"); c.label(name);
}
static void bits_seq(Ctx& c) { seq<Bits>(c, 640, "Bits"); }
static void bits_fixed(Ctx& c) { seq<LargeBits>(c, 2000, "LargeBits"); }
// a park's worth of appends, the way phases 3 and 4 use it
static void park(Ctx& c) {
	pbt::Src& s = c.s; int w = s.range(13, 36); int n = s.size(1, 2048); Rng r(s.seed()); bool cat = s.coin();
	c.desc << "ParkBits of " << n << " x " << w << " bits" << (cat ? " via +=" : " via AppendValue"); c.publish();
	ParkBits b; std::string m; for(int i = 0; i < n; ++i) { uint64_t v = r.next() & ((1ull << w) - 1); if(r.next() % 9 == 0) v = r.next() % 2 ? 0 : (1ull << w) - 1; if(cat) b += ParkBits(v, w); else b.AppendValue(v, w); m += bin(v, w); }
	PBT_CHECK(b.GetSize() == m.size(), "size"); PBT_CHECK(str(b) == m, "contents differ"); c.nontrivial = n > 3;
}
static void util(Ctx& c) {
	pbt::Src& s = c.s; Rng r(s.seed()); std::vector<uint8_t> buf(64); for(auto& x : buf) x = r.next(); std::string m = frombytes(buf.data(), 48);
	uint32_t st = s.draw(200), n = s.range(1, 64); c.desc << "slice start=" << st << " n=" << n; c.publish();
	if(st % 8 + n <= 64) PBT_CHECK(Util::SliceInt64FromBytes(buf.data(), st, n) == (uint64_t)val(m.substr(st, n)), "SliceInt64FromBytes(" << st << "," << n << ")");
	PBT_CHECK(Util::SliceInt64FromBytesFull(buf.data(), st, n) == (uint64_t)val(m.substr(st, n)), "SliceInt64FromBytesFull(" << st << "," << n << ")");
	uint32_t n2 = s.range(1, 128);
	PBT_CHECK(Util::SliceInt128FromBytes(buf.data(), st, n2) == val(m.substr(st, n2)), "SliceInt128FromBytes(" << st << "," << n2 << ")");
	uint64_t v = s.bits(64); uint8_t e[24]; memset(e, 0xAA, sizeof e);
	Util::IntToEightBytes(e, v); PBT_CHECK(frombytes(e, 8) == bin(v, 64) && e[8] == 0xAA, "IntToEightBytes"); PBT_CHECK(Util::EightBytesToInt(e) == v, "EightBytesToInt");
	memset(e, 0xAA, sizeof e); Util::IntToTwoBytes(e, v); PBT_CHECK(frombytes(e, 2) == bin(v & 0xffff, 16) && e[2] == 0xAA, "IntToTwoBytes"); PBT_CHECK(Util::TwoBytesToInt(e) == (v & 0xffff), "TwoBytesToInt");
	memset(e, 0xAA, sizeof e); Util::IntToTwoBytesLE(e, v); PBT_CHECK(e[0] == (v & 0xff) && e[1] == (v >> 8 & 0xff) && e[2] == 0xAA, "IntToTwoBytesLE");
	u128 q = (u128)s.bits(64) << 64 | v; memset(e, 0xAA, sizeof e); Util::IntTo16Bytes(e, q); PBT_CHECK(frombytes(e, 16) == bin(q, 128) && e[16] == 0xAA, "IntTo16Bytes");
	PBT_CHECK(Util::PopCount(v) == (uint64_t)__builtin_popcountll(v), "PopCount"); uint32_t a = s.draw(1 << 20); PBT_CHECK(Util::ByteAlign(a) == (a + 7) / 8 * 8, "ByteAlign");
	PBT_CHECK(Util::GetSizeBits(q) == (q ? 128 - (int)bin(q, 128).find('1') : 0), "GetSizeBits");
	{ std::vector<uint8_t> l(buf.begin(), buf.begin() + 24), h = l; if(s.coin()) h[s.draw(23)] ^= 1 << s.draw(7); uint32_t bb = s.draw(150); std::string a = frombytes(l.data(), 24).substr(bb), b = frombytes(h.data(), 24).substr(bb);
	  int x = Util::MemCmpBits(l.data(), h.data(), 24, bb); PBT_CHECK((x < 0) == (a < b) && (x > 0) == (a > b), "MemCmpBits from bit " << bb << " gives " << x); }
	{ uint32_t len = s.range(1, 32), bb = s.draw(len * 8 - 1), tk = s.range(1, 57); if(bb % 8 + tk > 64) tk = 57; uint32_t have = std::min(tk, len * 8 - bb); PBT_CHECK(Util::ExtractNum(buf.data(), len, bb, tk) == (uint64_t)val(m.substr(bb, have)), "ExtractNum(" << len << "," << bb << "," << tk << ")"); }
	c.nontrivial = st % 8 != 0 || n % 8 != 0;
}
// word arrays as used to assemble metadata (big-endian 64-bit words, destination zeroed)
static void words(Ctx& c) {
	pbt::Src& s = c.s; std::vector<uint64_t> d(40, 0); std::string m; int ops = s.range(1, 12); int off = s.draw(130); bool cross = false; m.assign(off, '0'); c.desc << "at " << off << ":";
	auto bytes = [](const std::vector<uint64_t>& v) { return frombytes((const uint8_t*)v.data(), v.size() * 8); };
	for(int i = 0; i < ops; ++i) {
		if(s.coin()) { int n = s.range(1, 64); uint64_t v = s.bits(n); c.desc << " write(" << v << "," << n << ")"; if(m.size() + n > 2000) break; int r = write_bits(d.data(), v, off, n); m += bin(v, n); PBT_CHECK(r == (int)m.size(), "write_bits returns " << r); off = r; }
		else { std::vector<uint64_t> src(6); Rng g(s.seed()); for(auto& x : src) x = g.next(); int n = s.range(1, 300); if(m.size() + n > 2000) break; c.desc << " append(" << n << ")"; int r = append_bits(d.data(), src.data(), off, n); m += bytes(src).substr(0, n); PBT_CHECK(r == (int)m.size(), "append_bits returns " << r); off = r; }
		c.publish(); cross = cross || m.size() > 64;
		std::string got = bytes(d), want = m; want.resize(got.size(), '0'); PBT_CHECK(got == want, "word array holds " << got.substr(0, m.size() + 8) << ", expected " << m);
	}
	{ int st = s.draw(1500), n = s.range(1, 400); std::vector<uint64_t> o(10, 0); int r = slice_bits(o.data(), d.data(), st, n); std::string got = bytes(o), want = bytes(d).substr(st, n); PBT_CHECK(r == n, "slice_bits returns " << r); want.resize(got.size(), '0'); PBT_CHECK(got == want, "slice_bits(" << st << "," << n << ")"); }
	c.nontrivial = cross;
}
static pbt::Reg r1({"bits_seq", bits_seq}), r2({"bits_large", bits_fixed}), r3({"bits_park", park}), r4({"bits_util", util}), r5({"bits_words", words});
PBT_MAIN
