// Model of the parts of boost string algorithms FairMQ uses (assumed contract)
#ifndef VC_BOOST_STRING
#define VC_BOOST_STRING
#include <string>
#include <vector>
#include <algorithm>
#include <cctype>
namespace boost { namespace algorithm {
struct vc_any_of { std::string set; };
inline vc_any_of is_any_of(const std::string& s) { return {s}; }
template<typename C> C& split(C& out, const std::string& in, vc_any_of p)
{
    out.clear(); std::string rest = in;
    for (;;) { size_t i = rest.find_first_of(p.set); if (i == std::string::npos) { out.push_back(rest); return out; } out.push_back(rest.substr(0, i)); rest = rest.substr(i + 1); }
}
template<typename C> std::string join(const C& c, const std::string& sep) { std::string r; bool first = true; for (const auto& s : c) { if (!first) r += sep; r += s; first = false; } return r; }
} using algorithm::split; using algorithm::is_any_of; using algorithm::join; }
#endif
