// Stand-in for libbech32: BIP 173 / BIP 350 decoding with the library's interface and error behaviour.
#pragma once
#include <string>
#include <vector>
#include <stdexcept>
#include <cstdint>
namespace bech32 {
enum Encoding { Invalid, None, Bech32, Bech32m };
struct DecodedResult { Encoding encoding = Invalid; std::string hrp; std::vector<unsigned char> dp; };
inline uint32_t polymod(const std::vector<unsigned char>& v) {
	static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}; uint32_t c = 1;
	for(auto x : v) { const uint32_t b = c >> 25; c = (c & 0x1ffffff) << 5 ^ x; for(int i = 0; i < 5; ++i) if(b >> i & 1) c ^= G[i]; }
	return c;
}
inline std::vector<unsigned char> expand(const std::string& h) { std::vector<unsigned char> r; for(char c : h) r.push_back((unsigned char)c >> 5); r.push_back(0); for(char c : h) r.push_back(c & 31); return r; }
static const char* const charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
inline std::string encode_as(const std::string& hrp, const std::vector<unsigned char>& dp, uint32_t konst) {
	auto v = expand(hrp); v.insert(v.end(), dp.begin(), dp.end()); v.resize(v.size() + 6); const uint32_t p = polymod(v) ^ konst;
	std::string s = hrp + "1"; for(auto d : dp) s += charset[d]; for(int i = 0; i < 6; ++i) s += charset[p >> (5 * (5 - i)) & 31]; return s;
}
inline DecodedResult decode(const std::string& in) {
	if(in.size() > 90) throw std::runtime_error("bech32 string too long");
	if(in.size() < 8) throw std::runtime_error("bech32 string too short");
	bool lo = false, up = false; std::string s; for(char c : in) { if(c < 33 || c > 126) throw std::runtime_error("bech32 string has out of range character"); if(c >= 'a' && c <= 'z') lo = true; if(c >= 'A' && c <= 'Z') up = true; s += c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
	if(lo && up) throw std::runtime_error("bech32 string is mixed case");
	const auto p = s.rfind('1'); if(p == std::string::npos) throw std::runtime_error("bech32 string is missing separator"); if(p < 1) throw std::runtime_error("HRP too short"); if(s.size() - p - 1 < 6) throw std::runtime_error("data part too short");
	DecodedResult r; r.hrp = s.substr(0, p); std::vector<unsigned char> d;
	for(size_t i = p + 1; i < s.size(); ++i) { const char* q = charset; int k = 0; while(*q && *q != s[i]) { ++q; ++k; } if(!*q) throw std::runtime_error("data part contains an invalid character"); d.push_back(k); }
	auto v = expand(r.hrp); v.insert(v.end(), d.begin(), d.end()); const uint32_t c = polymod(v);
	if(c == 1) r.encoding = Bech32; else if(c == 0x2bc830a3) r.encoding = Bech32m; else return DecodedResult();
	r.dp.assign(d.begin(), d.end() - 6); return r;
}
}
