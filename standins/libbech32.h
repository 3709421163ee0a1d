// Stand-in for the empty lib/libbech32 submodule: BIP-173 / BIP-350 decode.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
namespace bech32 {
enum Encoding { Invalid, Bech32, Bech32m };
enum class error { ok };
struct DecodedResult { Encoding encoding; std::string hrp; std::vector<unsigned char> dp; };
inline DecodedResult decode(const std::string& str) {
    static const std::string charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    bool lower = false, upper = false;
    for (unsigned char c : str) {
        if (c < 33 || c > 126) throw std::runtime_error("value is out of range");
        if (c >= 'a' && c <= 'z') lower = true;
        if (c >= 'A' && c <= 'Z') upper = true;
    }
    if (lower && upper) throw std::runtime_error("bech32 string is mixed case");
    if (str.size() > 90) throw std::runtime_error("bech32 string too long");
    if (str.size() < 8) throw std::runtime_error("bech32 string too short");
    const size_t pos = str.rfind('1');
    if (pos == std::string::npos) throw std::runtime_error("bech32 string is missing separator character");
    if (pos < 1 || pos + 7 > str.size()) throw std::runtime_error("bech32 string has bad layout");
    DecodedResult r; r.encoding = Invalid;
    std::vector<unsigned char> v;
    for (size_t i = 0; i < pos; ++i) r.hrp += char(tolower(str[i]));
    for (size_t i = pos + 1; i < str.size(); ++i) {
        const size_t j = charset.find(char(tolower(str[i])));
        if (j == std::string::npos) throw std::runtime_error("data part contains invalid character");
        v.push_back(j);
    }
    uint32_t c = 1;
    auto step = [&c](uint8_t x) {
        const uint8_t c0 = c >> 25;
        c = ((c & 0x1ffffff) << 5) ^ x;
        if (c0 & 1) c ^= 0x3b6a57b2;
        if (c0 & 2) c ^= 0x26508e6d;
        if (c0 & 4) c ^= 0x1ea119fa;
        if (c0 & 8) c ^= 0x3d4233dd;
        if (c0 & 16) c ^= 0x2a1462b3;
    };
    for (char h : r.hrp) step(uint8_t(h) >> 5);
    step(0);
    for (char h : r.hrp) step(uint8_t(h) & 31);
    for (auto x : v) step(x);
    if (c == 1) r.encoding = Bech32; else if (c == 0x2bc830a3) r.encoding = Bech32m;
    else { r.hrp.clear(); return r; }
    r.dp.assign(v.begin(), v.end() - 6);
    return r;
}
}
