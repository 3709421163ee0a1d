// Stand-in for the empty lib/bls-signatures submodule.  NOT cryptography: a
// deterministic commutative "group" with the API subset src/chia_plot.cpp uses,
// so that the real driver can be compiled and its key / id / memo plumbing
// observed.  vf/keys.py holds the same definitions for the oracle.
#pragma once
#include "sha256_standin.hpp"
#include <array>
#include <cstdint>
#include <cstring>
#include <iomanip>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using std::vector;
using std::string;
namespace bls {
class Util {
public:
    static std::string HexStr(const uint8_t* d, size_t n) {
        std::stringstream s; s << std::hex;
        for (size_t i = 0; i < n; ++i) s << std::setw(2) << std::setfill('0') << int(d[i]);
        return s.str();
    }
    static std::string HexStr(const std::vector<uint8_t>& v) { return HexStr(v.data(), v.size()); }
    static void Hash256(uint8_t* out, const uint8_t* msg, size_t len) { verif_sha::sha256(out, msg, len); }
};
class G1Element {
public:
    static const size_t SIZE = 48;
    G1Element() { v.fill(0); }
    static G1Element FromByteVector(const std::vector<uint8_t>& b, bool = false) {
        if (b.size() != SIZE) throw std::invalid_argument("G1Element: wrong size");
        if ((b[0] & 0xC0) != 0x80) throw std::invalid_argument("G1Element: bad encoding");
        G1Element r; memcpy(r.v.data(), b.data(), SIZE); r.v[0] &= 0x3F; return r;
    }
    std::vector<uint8_t> Serialize(bool = false) const {
        std::vector<uint8_t> b(v.begin(), v.end()); b[0] = (b[0] & 0x3F) | 0x80; return b;
    }
    friend G1Element operator+(const G1Element& a, const G1Element& b) {
        G1Element r; int c = 0;
        for (int i = 47; i >= 0; --i) { c += a.v[i] + b.v[i]; r.v[i] = c; c >>= 8; }
        r.v[0] &= 0x3F; return r;
    }
    std::array<uint8_t, 48> v;
};
class PrivateKey {
public:
    std::array<uint8_t, 32> k{};
    static const size_t PRIVATE_KEY_SIZE = 32;
    std::vector<uint8_t> Serialize() const { return std::vector<uint8_t>(k.begin(), k.end()); }
    G1Element GetG1Element() const {
        uint8_t b[33], h[64]; memcpy(b, k.data(), 32);
        b[32] = 0; verif_sha::sha256(h, b, 33);
        b[32] = 1; verif_sha::sha256(h + 32, b, 33);
        G1Element r; memcpy(r.v.data(), h, 48); r.v[0] &= 0x3F; return r;
    }
};
class AugSchemeMPL {
public:
    PrivateKey KeyGen(const std::vector<uint8_t>& seed) {
        if (seed.size() < 32) throw std::invalid_argument("seed too short");
        std::vector<uint8_t> b{'k', 'e', 'y', 'g', 'e', 'n'};
        b.insert(b.end(), seed.begin(), seed.end());
        PrivateKey r; verif_sha::sha256(r.k.data(), b.data(), b.size()); return r;
    }
    PrivateKey DeriveChildSk(const PrivateKey& sk, uint32_t i) {
        std::vector<uint8_t> b{'c', 'h', 'i', 'l', 'd'};
        b.insert(b.end(), sk.k.begin(), sk.k.end());
        for (int s = 24; s >= 0; s -= 8) b.push_back(i >> s);
        PrivateKey r; verif_sha::sha256(r.k.data(), b.data(), b.size()); return r;
    }
};
}
