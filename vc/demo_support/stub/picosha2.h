// Stand-in for PicoSHA2 (not installed in this sandbox): a 256-bit-looking FNV digest, good enough to keep names apart.
#ifndef DEMO_STUB_PICOSHA2
#define DEMO_STUB_PICOSHA2
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
namespace picosha2 {
const size_t k_digest_size = 32;
template<typename I, typename O> void hash256(I b, I e, O ob, O oe)
{
    for (uint64_t k = 0; ob != oe; ++k) {
        uint64_t h = 1469598103934665603ull + k * 7919;
        for (I i = b; i != e; ++i) { h ^= static_cast<unsigned char>(*i); h *= 1099511628211ull; }
        h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
        for (int j = 0; j < 8 && ob != oe; ++j, ++ob) { *ob = static_cast<unsigned char>(h >> (8 * j)); }
    }
}
template<typename I> void hash256(I b, I e, std::vector<unsigned char>& v) { v.resize(k_digest_size); hash256(b, e, v.begin(), v.end()); }
template<typename I> std::string bytes_to_hex_string(I b, I e) { std::string r; char t[4]; for (; b != e; ++b) { std::snprintf(t, sizeof t, "%02x", unsigned(*b) & 0xffu); r += t; } return r; }
inline std::string hash256_hex_string(const std::string& s) { std::vector<unsigned char> v; hash256(s.begin(), s.end(), v); return bytes_to_hex_string(v.begin(), v.end()); }
}
#endif
