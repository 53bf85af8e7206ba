// Model of std::regex / boost::regex (assumed contract): a backtracking matcher for literals, escapes, '.', character classes, '*', '+', '?'
#ifndef VCREGEX_H
#define VCREGEX_H
#include <vc.h>
#include <string>
#include <regex>
struct vc_regex
{
    std::string p; vc_regex() {} vc_regex(const std::string& s) : p(s) {} vc_regex(const char* s) : p(s) {}
    static bool any(char c) { return c != '\n'; }
    // length of the atom at i
    size_t atom(size_t i) const { if (p[i] == '\\') return 2; if (p[i] == '[') { size_t j = i + 1; if (p[j] == '^') ++j; while (p[j] != ']' || j == i + 1) { if (p[j] == '\\') ++j; ++j; } return j + 1 - i; } return 1; }
    bool one(size_t i, char c) const
    {
        if (p[i] == '.') return any(c);
        if (p[i] == '\\') return p[i + 1] == 'd' ? c >= '0' && c <= '9' : c == p[i + 1];
        if (p[i] != '[') return c == p[i];
        size_t e = i + atom(i) - 1, j = i + 1; bool neg = p[j] == '^'; if (neg) ++j; bool in = false;
        while (j < e) { char a = p[j]; if (a == '\\') a = p[++j]; ++j; char b = a; if (j + 1 < e && p[j] == '-') { b = p[j + 1]; if (b == '\\') { b = p[j + 2]; ++j; } j += 2; } in = in | ((c >= a) & (c <= b)); }
        return in != neg;
    }
    // longest-first match of p[i..] against s[k..]; end of the match in `end`
    bool here(size_t i, const std::string& s, size_t k, bool full, size_t& end) const
    {
        size_t n = s.size();
        if (i >= p.size()) { end = k; return !full || k == n; }
        if (p[i] == '$' && i + 1 == p.size()) { end = k; return k == n; }
        size_t a = atom(i), q = i + a; char op = q < p.size() ? p[q] : 0;
        if (op == '*' || op == '+' || op == '?') {
            size_t lo = op == '+' ? 1 : 0, hi = op == '?' ? 1 : n, c = 0;
            while (c < hi && k + c < n && one(i, s[k + c])) ++c;
            for (;; --c) { if (c < lo) return false; if (here(q + 1, s, k + c, full, end)) return true; if (c == 0) return false; }
        }
        return k < n && one(i, s[k]) && here(q, s, k + 1, full, end);
    }
};
struct vc_smatch { std::string m; std::string str(int = 0) const { return m; } std::string operator[](int) const { return m; } bool empty() const { return m.empty(); } };
inline bool vc_regex_search(const std::string& s, vc_smatch& m, const vc_regex& r) { size_t e; for (size_t k = 0; k <= s.size(); ++k) if (r.here(0, s, k, false, e)) { m.m = s.substr(k, e - k); return true; } return false; }
inline bool vc_regex_search(const std::string& s, const vc_regex& r) { vc_smatch m; return vc_regex_search(s, m, r); }
inline bool vc_regex_match(const std::string& s, const vc_regex& r) { size_t e; return r.here(0, s, 0, true, e); }
namespace std { using ::vc_regex; using ::vc_smatch; using ::vc_regex_search; using ::vc_regex_match; }
namespace boost { using ::vc_regex; using ::vc_smatch; using ::vc_regex_search; using ::vc_regex_match; }
#define regex vc_regex
#define smatch vc_smatch
#define regex_search vc_regex_search
#define regex_match vc_regex_match
#endif
