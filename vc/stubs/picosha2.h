#ifndef VC_STUB_PICOSHA2
#define VC_STUB_PICOSHA2
#include <string>
#include <vector>
namespace picosha2 {
template<typename It> void hash256(It, It, std::vector<unsigned char>&) {}
inline std::string hash256_hex_string(const std::string& s) { return s; }
template<typename It> std::string bytes_to_hex_string(It, It) { return {}; }
const size_t k_digest_size = 32;
template<typename I, typename O> void hash256(I, I, O, O) {}
}
#endif
