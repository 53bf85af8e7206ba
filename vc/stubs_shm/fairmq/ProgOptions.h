// Stand-in for the option store as seen by the shmem transport: typed lookup with default (assumed contract of ProgOptions).
#ifndef FAIR_MQ_PROGOPTIONS_H
#define FAIR_MQ_PROGOPTIONS_H
#include <cstring>
#include <string>
namespace fair::mq {
struct ProgOptions
{
    struct Ent { const char* k; int kind; uint64_t n; std::string s; };
    Ent e[16]; int n = 0;
    void set(const char* k, uint64_t v) { e[n].k = k; e[n].kind = 0; e[n++].n = v; }
    void set(const char* k, const std::string& v) { e[n].k = k; e[n].kind = 1; e[n++].s = v; }
    const Ent* look(const std::string& k) const { for (int i = 0; i < n; ++i) if (k == e[i].k) return &e[i]; return nullptr; }
    int Count(const std::string& k) const { return look(k) ? 1 : 0; }
    template<typename T> static T as(const Ent& x) { if constexpr (std::is_same_v<T, std::string>) return x.s; else return static_cast<T>(x.n); }
    template<typename T> T GetProperty(const std::string& k) const { auto* x = look(k); vc_assert(x != nullptr, "option read only when set"); return as<T>(*x); }
    template<typename T> T GetProperty(const std::string& k, const T& d) const { auto* x = look(k); return x ? as<T>(*x) : d; }
};
}
#endif
