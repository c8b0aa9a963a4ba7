// Contracts of the exposition-format sanitisers (kio/metrics/utils.h).
#include "vc.h"
#include "nolog.h"
#include "gstring.h"
#include <cstring>
#include <kio/metrics/utils.h>
using namespace kio;
typedef uint64_t u64;
const char* g_v; u64 g_n;            // the text to be sanitised
u64 g_i, g_ph, g_K; int g_mode;      // input position and phase of the expected output; arbitrary index; what is being checked
VC_SPEC bool special(char c) { return (c == '\\') | (c == '"') | (c == '\n'); }
VC_SPEC bool alpha_(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
VC_SPEC bool digit_(char c) { return (c >= '0') & (c <= '9'); }
VC_SPEC bool name_ok(u64 pos, char c) { return alpha_(c) | ((pos > 0) & digit_(c)); }
#ifdef VC_VERIFY
extern "C" __attribute__((used)) void G_byte(char c, u64 pos)
{
    if (g_mode == 0) {            // label value: the output is esc(v[0]) esc(v[1]) ...
        vc_assert(g_i < g_n, "M01: nothing is added to a label value");
        const char x = g_v[g_i];
        if (g_ph == 0) {
            vc_assert(c == (special(x) ? '\\' : x), "M01: a label value keeps its bytes and escapes backslash, quote and newline");
            if (special(x)) g_ph = 1; else g_i++;
        } else {
            vc_assert(c == (x == '\n' ? 'n' : x), "M01: a label value keeps its bytes and escapes backslash, quote and newline");
            g_ph = 0; g_i++;
        }
    } else if (g_mode == 1) vc_assert(name_ok(pos, c), "M01: label names consist of letters, digits and underscores and do not begin with a digit");
    else { vc_assert(pos < g_n && c == g_v[pos], "M01: a valid label name is kept unchanged"); }
}
extern "C" __attribute__((used)) void G_append(const char* p, u64 n, u64 pos)
{
    // for an arbitrary byte k of the appended text
    const u64 k = g_K;
    if (g_mode == 0) {
        vc_assert(g_ph == 0 && n <= g_n - g_i, "M01: nothing is added to a label value");
        if (k >= g_i && k - g_i < n) vc_assert(p[k - g_i] == g_v[k] && !special(g_v[k]), "M01: a label value keeps its bytes and escapes backslash, quote and newline");
        g_i += n;
    } else if (g_mode == 1) { if (k >= pos && k - pos < n) vc_assert(name_ok(k, p[k - pos]), "M01: label names consist of letters, digits and underscores and do not begin with a digit"); }
    else { vc_assert(pos <= g_n && n <= g_n - pos, "M01: a valid label name is kept unchanged"); if (k >= pos && k - pos < n) vc_assert(p[k - pos] == g_v[k], "M01: a valid label name is kept unchanged"); }
}
VC_SPEC const std::string& text(u64 n, int mode)
{
    GRep* r = (GRep*)vc_region(sizeof(GRep), "string");
    char* p = (char*)vc_region(n + 1, "in"); vc_assume(p[n] == 0);
    r->p = p; r->n = n; g_v = p; g_n = n; g_i = 0; g_ph = 0; g_K = vc_size("K", 40); g_mode = mode;
    vc_ghost_ptr(p + g_K);
    return *(const std::string*)r;
}
#else
extern "C" const char* const vc_tokens[] = {"\\", "\"", "\n", "a", "Z", "_", "0", "9", "-", ":", "\\n", "{", " ", "\x80", nullptr};
std::string g_s;
static const std::string& text(u64 n, int)
{
    char* p = (char*)vc_region(n, "in"); g_s.assign(p, n); g_v = g_s.data(); g_n = n; return g_s;
}
static std::string esc(const std::string& v) { std::string o; for (char c : v) { if (special(c)) { o += '\\'; o += c == '\n' ? 'n' : c; } else o += c; } return o; }
#endif
VC_HARNESS void H_value()
{
    const u64 n = vc_size("n", 40); const std::string& v = text(n, 0);
    if (g_K < n) vc_pred(g_K, !special(g_v[g_K]));
    const std::string r = SanitizeLabelValue(v);
    vc_cover("done");
#ifdef VC_VERIFY
    vc_assert(g_i == n && g_ph == 0, "M01: the whole label value is exported");
#else
    vc_assert(r == esc(v), "M01: a label value keeps its bytes and escapes backslash, quote and newline");
#endif
}
VC_HARNESS void H_key_valid()
{
    const u64 n = vc_size("n", 40); const std::string& v = text(n, 1);
    if (g_K < n) vc_pred(g_K, name_ok(g_K, g_v[g_K]));
    const std::string r = SanitizeLabelKey(v);
    vc_cover("done");
    if (n) vc_assert(r.size() > 0, "M01: a label name does not vanish");
#ifndef VC_VERIFY
    for (u64 i = 0; i < r.size(); ++i) vc_assert(name_ok(i, r[i]), "M01: label names consist of letters, digits and underscores and do not begin with a digit");
#endif
}
VC_HARNESS void H_key_same()
{
    const u64 n = vc_size("n", 40); const std::string& v = text(n, 2);
#ifdef VC_VERIFY
    vc_assume(n == 0 || alpha_(v.data()[0]));
    vc_all_name_bytes(v.data(), 0, n);
#else
    for (u64 i = 0; i < n; ++i) vc_assume(name_ok(i, v[i]));
#endif
    const std::string r = SanitizeLabelKey(v);
    vc_cover("done");
    vc_assert(r.size() == n, "M01: a valid label name is kept unchanged");
#ifndef VC_VERIFY
    vc_assert(r == v, "M01: a valid label name is kept unchanged");
#endif
}
// escaping is injective: the first differing byte of two texts makes their escapes differ (esc is a prefix code)
VC_HARNESS void H_injective()
{
    const char a = (char)vc_u8("a"), b = (char)vc_u8("b"); vc_assume(a != b);
    const char a0 = special(a) ? '\\' : a, b0 = special(b) ? '\\' : b;
    const bool differ = a0 != b0 || (special(a) && special(b) && (a == '\n' ? 'n' : a) != (b == '\n' ? 'n' : b));
    vc_assert(differ, "M01: distinct label values stay distinct");
    vc_assert(a0 != '\n' && a0 != '"', "M01: no raw quote or newline is left in a label value");
    vc_cover("done");
}
