// Stand-in for bls-signatures (the submodule is not in the tree): the same interface over a toy group.
// A public key is a 48-byte string whose last 16 bytes authenticate the first 32 (so that most byte strings are invalid, as for
// the real curve); adding keys adds 64-bit lanes; secret keys are 32 bytes derived with SHA-256.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#include "sha256.h"
using std::vector;
namespace bls {
class Util {
public:
	static void Hash256(uint8_t* out, const uint8_t* in, size_t len) { vp::sha256(out, in, len); }
	static std::string HexStr(const uint8_t* d, size_t n) { static const char* h = "0123456789abcdef"; std::string s; for(size_t i = 0; i < n; ++i) { s += h[d[i] >> 4]; s += h[d[i] & 15]; } return s; }
	static std::string HexStr(const std::vector<uint8_t>& v) { return HexStr(v.data(), v.size()); }
};
class G1Element {
public:
	static const size_t SIZE = 48;
	std::array<uint64_t, 4> v{{0, 0, 0, 0}};
	std::vector<uint8_t> Serialize() const {
		std::vector<uint8_t> b(48); for(int i = 0; i < 4; ++i) for(int j = 0; j < 8; ++j) b[8 * i + j] = v[i] >> (56 - 8 * j);
		uint8_t t[34], h[32]; t[0] = 'G'; t[1] = '1'; memcpy(t + 2, b.data(), 32); vp::sha256(h, t, 34); memcpy(b.data() + 32, h, 16); return b;
	}
	static G1Element FromByteVector(const std::vector<uint8_t>& b) {
		if(b.size() != SIZE) throw std::invalid_argument("G1Element::FromByteVector: wrong size");
		G1Element e; for(int i = 0; i < 4; ++i) for(int j = 0; j < 8; ++j) e.v[i] = e.v[i] << 8 | b[8 * i + j];
		if(e.Serialize() != b) throw std::invalid_argument("G1 element is invalid");
		return e;
	}
	friend G1Element operator+(const G1Element& a, const G1Element& b) { G1Element r; for(int i = 0; i < 4; ++i) r.v[i] = a.v[i] + b.v[i]; return r; }
	G1Element& operator+=(const G1Element& b) { return *this = *this + b; }
	bool operator==(const G1Element& o) const { return v == o.v; }
	bool operator!=(const G1Element& o) const { return v != o.v; }
};
class PrivateKey {
public:
	static const size_t PRIVATE_KEY_SIZE = 32;
	std::array<uint8_t, 32> k{};
	static PrivateKey FromByteVector(const std::vector<uint8_t>& b) { if(b.size() != 32) throw std::invalid_argument("PrivateKey: wrong size"); PrivateKey p; memcpy(p.k.data(), b.data(), 32); return p; }
	std::vector<uint8_t> Serialize() const { return std::vector<uint8_t>(k.begin(), k.end()); }
	G1Element GetG1Element() const { G1Element e; for(int i = 0; i < 4; ++i) { uint64_t x; memcpy(&x, k.data() + 8 * i, 8); e.v[i] = x * (0x9E3779B97F4A7C15ull + 2 * i); } return e; }
};
class AugSchemeMPL {
public:
	PrivateKey KeyGen(const std::vector<uint8_t>& seed) const {
		if(seed.size() < 32) throw std::invalid_argument("Seed size must be at least 32 bytes");
		std::vector<uint8_t> t = {'k', 'e', 'y'}; t.insert(t.end(), seed.begin(), seed.end()); PrivateKey p; vp::sha256(p.k.data(), t.data(), t.size()); return p;
	}
	PrivateKey DeriveChildSk(const PrivateKey& sk, uint32_t index) const {
		std::vector<uint8_t> t = {'c', 'h', 'i'}; t.insert(t.end(), sk.k.begin(), sk.k.end()); for(int i = 0; i < 4; ++i) t.push_back(index >> (24 - 8 * i)); PrivateKey p; vp::sha256(p.k.data(), t.data(), t.size()); return p;
	}
};
}
