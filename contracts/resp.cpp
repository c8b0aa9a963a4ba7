// Contracts of kio::resp (kio/resp/parser.{h,cpp}).  The real parser.cpp is compiled into this unit.
#include "vc.h"
#include <optional>
#include <cmath>
#include <limits>
#include <kio/resp/parser.cpp>
using namespace kio::resp;
using kio::BytesMut;
typedef std::expected<FrameHeader, ParseError> Res;
typedef uint64_t u64;

#ifdef VC_NATIVE
extern "C" const char* const vc_tokens[] = {"\r\n", "\r", "\n", "0", "1", "2", "3", "-1", "-", "+", ":", "$", "*", "%", "|", "~", ">", "_", "#", ",", "(", "!", "=", "a", "t", "f", "inf", "nan", "1.5",
    ":1\r\n", "+a\r\n", "*1\r\n", "*2\r\n", "%1\r\n", "|1\r\n", "$1\r\na\r\n", "$-1\r\n", "_\r\n", "*0\r\n", "~1\r\n", ">1\r\n", "$3\r\n", "#t\r\n", "(12\r\n", ",1\r\n", nullptr};
#endif
// ---------------------------------------------------------------------------------------------------------------------
// Specification functions over the input bytes g_base[0..].  All take absolute offsets.
//   F(o)      offset of the first CRLF at or after o            (>= INF: none)
//   INT_OK/INT_VAL(o,n)  the n bytes at o are a signed 64-bit decimal / its value      (as std::from_chars decides)
//   DBL_OK(o,n), BIG_OK(o,n)                                     the bytes are a double / a big number
//   V(o)      a valid frame (within the size limit) starts at o, given enough bytes
//   T(o)      its total size;  D(o) its nesting need (0 leaf, 1+max of children)
//   S(o,i)    size of its header plus its first i children
// In the verifier they are uninterpreted and constrained by their defining equations at the points of use; natively
// they are computed by the reference implementation below.
char* g_base; u64 g_n; u64 g_maxsize;
static const u64 INF = u64(1) << 60;
#ifdef VC_VERIFY
VC_SPEC u64 F(u64 o) { return vc_fn("F", o, 0, 0); }
VC_SPEC bool INT_OK(u64 o, u64 n) { return vc_fn("INT_OK", o, n, 0) != 0; }
VC_SPEC int64_t INT_VAL(u64 o, u64 n) { return (int64_t)vc_fn("INT_VAL", o, n, 0); }
VC_SPEC bool DBL_OK(u64 o, u64 n) { return vc_fn("DBL_OK", o, n, 0) != 0; }
VC_SPEC bool BIG_OK(u64 o, u64 n) { return vc_fn("BIG_OK", o, n, 0) != 0; }
VC_SPEC bool V(u64 o) { return vc_fn("V", o, 0, 0) != 0; }
VC_SPEC u64 T(u64 o) { return vc_fn("T", o, 0, 0); }
VC_SPEC u64 D(u64 o) { return vc_fn("D", o, 0, 0); }
VC_SPEC u64 S(u64 o, u64 i) { return vc_fn("S", o, i, 0); }
#else
static u64 F(u64 o) { for (u64 p = o; p + 1 < g_n; ++p) if (g_base[p] == '\r' && g_base[p + 1] == '\n') return p; return INF; }
static bool parse_i(u64 o, u64 n, int64_t& v)
{
    if (!n || o + n > g_n) return false;
    bool neg = g_base[o] == '-'; u64 i = neg; if (i >= n) return false;
    __int128 a = 0;
    for (; i < n; ++i) { char c = g_base[o + i]; if (c < '0' || c > '9') return false; a = a * 10 + (c - '0'); if (a > (__int128(1) << 64)) return false; }
    if (neg) a = -a;
    if (a < INT64_MIN || a > INT64_MAX) return false;
    v = (int64_t)a; return true;
}
static bool INT_OK(u64 o, u64 n) { int64_t v; return parse_i(o, n, v); }
static int64_t INT_VAL(u64 o, u64 n) { int64_t v = 0; parse_i(o, n, v); return v; }
static bool DBL_OK(u64 o, u64 n)
{
    if (o + n > g_n) return false;
    std::string s(g_base + o, n); if (s == "+inf") return true; if (s.empty()) return false;
    double v; auto r = std::from_chars(s.data(), s.data() + s.size(), v); return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
static bool BIG_OK(u64 o, u64 n)
{
    if (o + n > g_n || !n) return false;
    u64 i = g_base[o] == '-' || g_base[o] == '+'; if (i >= n) return false;
    for (; i < n; ++i) if (g_base[o + i] < '0' || g_base[o + i] > '9') return false;
    return true;
}
struct Ref { bool v; u64 t, d; };
static Ref ref(u64 o, unsigned fuel = 400);
static bool V(u64 o) { return ref(o).v; }
static u64 T(u64 o) { return ref(o).t; }
static u64 D(u64 o) { return ref(o).d; }
#endif
VC_SPEC bool simple_t(unsigned char c) { return (c == '+') | (c == '-') | (c == '_'); }
VC_SPEC bool bulk_t(unsigned char c) { return (c == '$') | (c == '!') | (c == '='); }
VC_SPEC bool pair_t(unsigned char c) { return (c == '%') | (c == '|'); }
VC_SPEC bool agg_t(unsigned char c) { return (c == '*') | (c == '~') | (c == '>') | pair_t(c); }
VC_SPEC bool leaf_t(unsigned char c) { return simple_t(c) | (c == ':') | (c == '#') | (c == ',') | (c == '(') | bulk_t(c); }
#ifndef VC_VERIFY
static Ref ref(u64 o, unsigned fuel)
{
    if (o >= g_n || !fuel) return {false, 0, 0};
    u64 p = F(o); if (p >= INF) return {false, 0, 0};
    char c = g_base[o]; u64 a = o + 1, n = p - o - 1, h = p - o + 2;
    if (simple_t(c)) return {true, h, 0};
    if (c == ':') return {INT_OK(a, n), h, 0};
    if (c == '#') return {n == 1 && (g_base[a] == 't' || g_base[a] == 'f'), h, 0};
    if (c == ',') return {DBL_OK(a, n), h, 0};
    if (c == '(') return {BIG_OK(a, n), h, 0};
    if (!bulk_t(c) && !agg_t(c)) return {false, 0, 0};
    if (!INT_OK(a, n)) return {false, 0, 0};
    int64_t l = INT_VAL(a, n);
    if (bulk_t(c)) {
        if (l == -1) return {true, h, 0};
        if (l < 0 || (u64)l > g_maxsize || (u64)l > INF) return {false, 0, 0};
        u64 e = o + h + l;
        if (e + 2 > g_n) return {true, h + l + 2, 0};       // validity of the terminator is not observable
        return {g_base[e] == '\r' && g_base[e + 1] == '\n', h + l + 2, 0};
    }
    if (l < 0 || (u64)l > 100000) return {false, 0, 0};
    u64 k = pair_t(c) ? 2 * l : l, s = h, d = 0;
    for (u64 i = 0; i < k; ++i) { Ref r = ref(o + s, fuel - 1); if (!r.v) return {false, 0, 0}; s += r.t; if (r.d + 1 > d) d = r.d + 1; }
    return {true, s, d};
}
#endif
// ------------------------------------------------------------------ contracts of the scanning helpers
// find_crlf(data): index of the first CRLF completely inside data, or nothing.
#ifdef VC_VERIFY
extern "C" __attribute__((used, noinline)) std::optional<size_t> C_find_crlf(std::span<const char> s)
{
    if (s.size() < 2) return std::nullopt;
    const u64 o = (u64)(s.data() - g_base), n = s.size(), p = F(o);
    vc_assert(vc_same_object(s.data(), g_base) && o <= g_n, "R01: scanned bytes belong to the input");
    vc_assume(p >= o);
    vc_assert(n <= g_n - o || (p + 2 <= g_n), "R01: the scan for CRLF stays inside the input");
    if (p - o <= n - 2) { vc_assume(g_base[p] == '\r' && g_base[p + 1] == '\n'); return p - o; }
    return std::nullopt;
}
extern "C" __attribute__((used, noinline)) std::from_chars_result C_from_chars(const char* f, const char* l, long& v, int base)
{
    vc_assert(base == 10, "R02: decimal");
    const u64 o = (u64)(f - g_base), n = (u64)(l - f);
    if (n == 0) return {f, std::errc::invalid_argument};
    vc_assert(vc_inside(f, g_base, n), "R01: number text lies inside the input");
    if (INT_OK(o, n)) { v = INT_VAL(o, n); return {l, std::errc()}; }
    // not a number as a whole: any other outcome of std::from_chars
    u64 used = vc_u64("used"); vc_assume(used <= n);
    uint32_t k = vc_u32("fc");
    if (k == 0) { vc_assume(used > 0 && used < n); v = (long)vc_u64("fcv"); return {f + used, std::errc()}; }
    if (k == 1) return {f, std::errc::invalid_argument};
    return {f + used, std::errc::result_out_of_range};
}
extern "C" __attribute__((used, noinline)) std::from_chars_result C_from_chars_d(const char* f, const char* l, double& v, std::chars_format)
{
    const u64 o = (u64)(f - g_base), n = (u64)(l - f);
    if (n == 0) return {f, std::errc::invalid_argument};
    vc_assert(vc_inside(f, g_base, n), "R01: number text lies inside the input");
    if (vc_fn("FCD_OK", o, n, 0)) { v = 1.0; return {l, std::errc()}; }
    u64 used = vc_u64("used"); vc_assume(used <= n);
    uint32_t k = vc_u32("fc");
    if (k == 0) { vc_assume(used > 0 && used < n); v = 1.0; return {f + used, std::errc()}; }
    if (k == 1) return {f, std::errc::invalid_argument};
    return {f + used, std::errc::result_out_of_range};
}
extern "C" __attribute__((used, noinline)) std::optional<double> C_parse_double(std::string_view s)
{
    if (s.empty()) return std::nullopt;
    vc_assert(vc_inside(s.data(), g_base, s.size()), "R01: number text lies inside the input");
    if (DBL_OK((u64)(s.data() - g_base), s.size())) return 1.0;
    return std::nullopt;
}
extern "C" __attribute__((used, noinline)) bool C_is_valid_bignum(std::string_view s)
{
    if (s.empty()) return false;
    vc_assert(vc_inside(s.data(), g_base, s.size()), "R01: number text lies inside the input");
    return BIG_OK((u64)(s.data() - g_base), s.size());
}
#endif
VC_SPEC void input(u64 n) { g_n = n; g_base = (char*)vc_region(n, "in"); }
// the scan: result is the first CRLF; nothing beyond it is needed (a longer declared length is allowed if one exists)
VC_HARNESS void H_find_crlf()
{
    const u64 n = vc_size("n", 40); input(n);
    u64 o = vc_size("o", 40), len = vc_u64("len"), G = vc_size("G", 40), K = vc_size("K", 40);
    vc_assume(o <= n);
    vc_assume(G < n && G + 1 < n);
    if (!(len <= n - o)) vc_assume(G >= o && G - o < len - 1 && g_base[G] == '\r' && g_base[G + 1] == '\n');
    vc_assume(K >= o && K < n && K + 1 < n);
    vc_ghost_ptr(g_base + K + 1); vc_ghost_ptr(g_base + G + 1);
    const bool kc = g_base[K] == '\r' && g_base[K + 1] == '\n';
    vc_pred(K + 1, !kc); vc_term(G + 1);
    vc_pred(G + 1, !(g_base[G] == '\r' && g_base[G + 1] == '\n'));
    const auto r = find_crlf({g_base + o, len});
    if (r) {
        vc_cover("found");
        vc_assert(len >= 2 && *r <= len - 2 && o + *r + 2 <= n, "R02: the CRLF found is inside the given bytes");
        vc_assert(g_base[o + *r] == '\r' && g_base[o + *r + 1] == '\n', "R02: the position found is a CRLF");
        if (K < o + *r) vc_assert(!kc, "R02: no earlier CRLF is skipped");
    } else {
        vc_cover("none");
        if (len >= 2 && K - o <= len - 2) vc_assert(!kc, "R02: an existing CRLF is found");
    }
}
// ------------------------------------------------------------------ value syntax
VC_HARNESS void H_parse_int()
{
    const u64 n = vc_size("n", 40); input(n);
    const auto r = parse_int({g_base, n});
    vc_assert(r.has_value() == (n > 0 && INT_OK(0, n)), "R02: integers are exactly the signed 64-bit decimals");
    if (r) { vc_cover("int"); vc_assert(*r == INT_VAL(0, n), "R02: integer value"); } else vc_cover("not int");
}
VC_HARNESS void H_parse_double()
{
    const u64 n = vc_size("n", 40); input(n);
    const auto r = parse_double({g_base, n});
#ifdef VC_VERIFY
    const bool inf = (n == 3 && g_base[0] == 'i' && g_base[1] == 'n' && g_base[2] == 'f') || (n == 4 && (g_base[0] == '+' || g_base[0] == '-') && g_base[1] == 'i' && g_base[2] == 'n' && g_base[3] == 'f');
    const bool nan = n == 3 && g_base[0] == 'n' && g_base[1] == 'a' && g_base[2] == 'n';
    vc_assert(r.has_value() == (n > 0 && (inf || nan || vc_fn("FCD_OK", 0, n, 0))), "R02: doubles are inf, nan or what std::from_chars accepts entirely");
#else
    vc_assert(r.has_value() == DBL_OK(0, n), "R02: doubles are inf, nan or what std::from_chars accepts entirely");
#endif
    if (r) vc_cover("double"); else vc_cover("not double");
}
VC_HARNESS void H_parse_boolean()
{
    const u64 n = vc_size("n", 40); input(n);
    const auto r = parse_boolean({g_base, n});
    const bool t = n == 1 && g_base[0] == 't', f = n == 1 && g_base[0] == 'f';
    vc_assert(r.has_value() == (t || f), "R02: booleans are t or f");
    if (r) { vc_cover("bool"); vc_assert(*r == t, "R02: boolean value"); }
}
// a text with a non-digit (after the optional sign) or without digits is refused
VC_HARNESS void H_bignum_refuse()
{
    const u64 n = vc_size("n", 40); input(n);
    const u64 sg = n > 0 && (g_base[0] == '-' || g_base[0] == '+');
    const u64 K = vc_size("K", 40);
    const bool bad = K >= sg && K < n && (g_base[K] < '0' || g_base[K] > '9');
    vc_pred(K, !bad);
    const bool r = is_valid_bignum({g_base, n});
    if (bad || n == sg) { vc_cover("bad"); vc_assert(!r, "R02: a big number is an optional sign and at least one digit, nothing else"); }
}
VC_HARNESS void H_bignum_accept()
{
    const u64 n = vc_size("n", 40); input(n);
    const u64 sg = n > 0 && (g_base[0] == '-' || g_base[0] == '+');
    vc_assume(n > sg);
#ifdef VC_VERIFY
    vc_all_bytes(g_base, sg, n, '0', '9');
#else
    for (u64 i = sg; i < n; ++i) vc_assume(g_base[i] >= '0' && g_base[i] <= '9');
#endif
    const bool r = is_valid_bignum({g_base, n});
    vc_cover("digits"); vc_assert(r, "R02: an optionally signed digit string is a big number");
}
// ------------------------------------------------------------------ the frame parser
// ghost state of the aggregate under verification
u64 g_o, g_len, g_depth, g_i, g_S, g_loop, g_maxd, g_W, g_X, g_armed; bool g_failed, g_fixed; ParseError g_err;

VC_SPEC bool depth_ok(u64 o, u64 depth) { return depth <= g_maxd && D(o) <= g_maxd - depth; }
// what may be read: the bytes handed in, or (if more are declared) a complete acceptable frame is known to be there
VC_SPEC bool pre(u64 o, u64 len, u64 depth) { return o <= g_n && (len <= g_n - o || (V(o) && depth_ok(o, depth) && T(o) <= g_n - o && T(o) <= len)); }
#ifdef VC_VERIFY
// Contract of one parse step, assumed for the children (induction on nesting depth) and proved for the parent.
#define POST(CL, r, o, len, depth) do { \
    const bool v_ = V(o), d_ = depth_ok(o, depth); const u64 t_ = T(o); \
    CL((r).has_value() == (v_ & d_ & (t_ <= (len))), "R02: a frame is returned exactly when a complete valid frame within the limits starts here"); \
    if ((r).has_value()) { \
        CL((r)->size == t_, "R02: frame size is the protocol's"); \
        CL((r)->size >= 1, "R01: frame size is not zero"); \
        CL((r)->size <= (len), "R01: frame lies inside the given bytes"); \
        CL((r)->data == g_base + (o), "R01: frame starts at its first byte"); \
        CL((u64)(unsigned char)(r)->type == (u64)(unsigned char)g_base[o], "R02: frame type is its first byte"); \
    } else { \
        if ((depth) > g_maxd) CL((r).error() == ParseError::MaxDepthReached, "R03: nesting beyond the limit is the depth error"); \
        else if (v_ & d_) CL((r).error() == ParseError::NeedMoreData, "R02: a proper prefix of a frame needs more data"); \
        else if (v_ & (t_ <= (len))) CL((r).error() == ParseError::MaxDepthReached, "R03: a complete frame nested too deep is the depth error"); \
        else if (v_) CL((r).error() == ParseError::MaxDepthReached || (r).error() == ParseError::NeedMoreData, "R03: an incomplete frame nested too deep"); \
    } } while (0)
#define ASSUME2(c, l) vc_assume(c)
VC_SPEC Res any_result(u64 o)
{
    if (vc_bool("child_ok")) return FrameHeader{(FrameType)g_base[o], g_base + o, T(o), vc_u64("child_cnt")};
    return std::unexpected((ParseError)(vc_u32("child_err") & 7));
}
extern "C" __attribute__((used, noinline)) Res C_parse(Parser* self, std::span<const char> s, size_t depth)
{
    const u64 o = (u64)(s.data() - g_base), len = s.size();
    if (g_armed) {
        vc_assert(!g_failed, "R02: no child is parsed after a child failed");
        vc_assert(g_i < g_loop, "R02: not more children than declared are parsed");
        vc_assert(o == g_o + g_S, "R02: each child starts where the previous one ended");
        vc_assert(len == g_len - g_S, "R01: a child is given exactly the bytes that remain");
        vc_assert(depth == g_depth + 1, "R03: a child is one level deeper");
        // defining equations of the parent at child number g_i
        vc_assume(S(g_o, g_i) == g_S && S(g_o, g_i + 1) == g_S + T(o));
        vc_assume(!V(g_o) || (V(o) && D(g_o) >= 1 && D(g_o) - 1 >= D(o) && T(g_o) >= g_S && T(o) <= T(g_o) - g_S));
        if (g_i == g_loop - 1) vc_assume(T(g_o) == g_S + T(o));
    }
    vc_assume(!V(o) || (T(o) >= 1 && T(o) <= INF));
    vc_assert(depth > g_maxd || pre(o, len, depth), "R01: a frame is parsed only from bytes that exist");
    if (len == 0) vc_assume(!V(o) || T(o) > 0);
    if (len > 0 && depth <= g_maxd) (void)*(volatile char*)(g_base + o);
    const bool ok = V(o) & depth_ok(o, depth) & (T(o) <= len);
    if (ok) {
        FrameHeader h{(FrameType)g_base[o], g_base + o, T(o), vc_fn("CNT", o, 0, 0)};
        if (g_armed) { g_i++; g_S += h.size; }
        return h;
    }
    ParseError er = (ParseError)(vc_u32("child_err") & 7);
    Res r = std::unexpected(er);
    POST(ASSUME2, r, o, len, depth);
    if (g_armed) { g_failed = true; g_err = er; }
    return r;
}
#endif
VC_SPEC Parser* make_parser()
{
    ParserConfig c; c.max_size = vc_u64("max_size"); c.max_aggregate_depth = vc_u64("max_depth"); c.initial_buffer = 0;
    g_maxsize = c.max_size; g_maxd = c.max_aggregate_depth;
    vc_assume(g_maxd < INF);
#ifndef VC_VERIFY
    vc_assume(g_maxd < 300);
#endif
    return new Parser(c);
}
VC_SPEC bool in_class(unsigned char c, int cls)
{
    switch (cls) {
        case 0: return simple_t(c) | (c == '#') | !(leaf_t(c) | agg_t(c));
        case 1: return (c == ':') | (c == ',') | (c == '(');
        case 2: return bulk_t(c);
        case 3: return pair_t(c);
        default: return agg_t(c) & !pair_t(c);
    }
}
// One step of the recursive descent against the contract, for every input, length, depth and configuration.
VC_SPEC void parse_step(bool longer, int cls)
{
    Parser* p = make_parser();
    const u64 n = vc_size("n", 40); input(n);
    u64 len = n;
    const u64 depth = vc_u64("depth"), o = 0;
    if (longer) { len = vc_u64("len"); vc_assume(len > n && n > 0); }
#ifdef VC_VERIFY
    g_o = o; g_len = len; g_depth = depth; g_i = 0; g_S = 0; g_loop = 0; g_failed = false; g_armed = 1;
    u64 e = 0, hdr = 0; int64_t L = 0; unsigned char c = 0; bool whole = false, numok = false;
    g_W = vc_u64("W"); g_X = vc_u64("X");
    const u64 q = F(o); vc_assume(q >= o && q <= INF);
    if (longer) vc_assume(V(o) && depth_ok(o, depth) && T(o) == n && q + 2 <= n);
    const bool has = len >= 2 && q <= len - 2;
    if (n) {
        c = (unsigned char)g_base[0];
        vc_assume(in_class(c, cls));
    }
    if (has) { vc_assume(g_base[q] == '\r' && g_base[q + 1] == '\n'); hdr = q - o + 2; }
    const u64 a = o + 1, m = q - o - 1;
    // defining equations of the specification at offset o
    vc_assume(!V(o) || (T(o) >= 1 && T(o) <= INF && T(o) >= q - o + 2));       // a frame has at least its header line
    ParseError leaf = ParseError::MalformedFrame; bool err_fixed = false;
    if (has) {
        numok = m > 0 && INT_OK(a, m); L = INT_VAL(a, m);
        if (simple_t(c)) vc_assume(V(o) && T(o) == hdr && D(o) == 0);
        else if (c == ':') { vc_assume(V(o) == numok && T(o) == hdr && D(o) == 0); leaf = ParseError::Atoi; err_fixed = true; }
        else if (c == '#') { vc_assume(V(o) == (m == 1 && (g_base[a] == 't' || g_base[a] == 'f')) && T(o) == hdr && D(o) == 0); err_fixed = true; }
        else if (c == ',') { vc_assume(V(o) == (m > 0 && DBL_OK(a, m)) && T(o) == hdr && D(o) == 0); err_fixed = true; }
        else if (c == '(') { vc_assume(V(o) == (m > 0 && BIG_OK(a, m)) && T(o) == hdr && D(o) == 0); err_fixed = true; }
        else if (bulk_t(c)) {
            vc_assume(D(o) == 0);
            if (!numok || L < -1) { vc_assume(!V(o)); leaf = ParseError::Atoi; err_fixed = true; }
            else if (L == -1) vc_assume(V(o) && T(o) == hdr);
            else if ((u64)L > g_maxsize) { vc_assume(!V(o)); leaf = ParseError::SizeOverflow; err_fixed = true; }
            else if ((u64)L > INF - hdr - 2) vc_assume(!V(o));
            else {
                e = hdr + (u64)L; vc_assume(T(o) == e + 2);
                if (T(o) <= len) {
                    if (T(o) <= n) { vc_assume(V(o) == (g_base[e] == '\r' && g_base[e + 1] == '\n')); err_fixed = true; }
                    else vc_assume(!longer);
                }
            }
        }
        else if (agg_t(c)) {
            if (!numok || L < 0) { vc_assume(!V(o)); err_fixed = true; }
            else {
                const u64 k = pair_t(c) ? 2 * (u64)L : (u64)L;
                g_loop = k; g_S = hdr; vc_assume(S(o, 0) == hdr);
                if (k == 0) vc_assume(V(o) && T(o) == hdr && D(o) == 0);
                else {
                    // W: a child that is not valid if the aggregate is not; X: a deepest child
                    vc_assume(g_W < k && (V(o) || !V(o + S(o, g_W))));
                    vc_assume(g_X < k && D(o) >= 1 && D(o) - 1 == D(o + S(o, g_X)));
                    vc_pred(g_W, V(o + S(o, g_W)));
                    vc_pred(g_X, depth < g_maxd && D(o + S(o, g_X)) <= g_maxd - depth - 1);
                    vc_term(k);
                }
            }
        }
        else { vc_assume(!V(o)); leaf = ParseError::Unknown; err_fixed = true; }
        (void)whole;
    }
    const bool isagg = has && agg_t(c) && numok && L >= 0;
    const Res r = p->parse_frame_internal({g_base + o, len}, depth);
    if (isagg && r.has_value()) {
        vc_assert(g_i == g_loop, "R02: an aggregate contains exactly its declared number of children");
        vc_assert(r->size == g_S, "R02: an aggregate's size covers its header and all children");
        vc_assert(r->element_count == (u64)L, "R02: element count is the declared count (pairs for maps and attributes)");
    }
    POST(vc_assert, r, o, len, depth);
    if (r.has_value()) vc_assert(isagg || r->element_count == 0, "R02: only aggregates have elements");
    if (!r.has_value() && depth <= g_maxd) {
        if (!has) vc_assert(r.error() == ParseError::NeedMoreData, "R02: an incomplete header needs more data");
        else if (isagg) vc_assert(g_failed && r.error() == g_err, "R02: an aggregate fails with the error of its first bad child");
        else if (!V(o) && err_fixed) {
            if (leaf == ParseError::SizeOverflow) vc_assert(r.error() == leaf, "R03: a declared length beyond the maximum is the size error before any payload arrives");
            else vc_assert(r.error() == leaf, "R02: invalid content is reported as the corresponding error");
        }
    }
    if (!r.has_value() && r.error() == ParseError::MaxDepthReached && !isagg) vc_assert(depth > g_maxd, "R03: nothing within the limit is rejected for depth");
    if (!r.has_value() && r.error() == ParseError::SizeOverflow && !isagg) vc_assert(bulk_t(c) && (u64)L > g_maxsize && L > 0, "R03: nothing within the limit is rejected for size");
#else
    vc_assume(depth <= 400);
    const Ref f = ref(o); const u64 need = f.v ? f.d : 0;
    const bool dok = depth <= g_maxd && need <= g_maxd - depth;
    const Res r = p->parse_frame_internal({g_base + o, longer ? n : len}, depth);
    vc_assert(r.has_value() == (f.v && dok && f.t <= n), "R02: a frame is returned exactly when a complete valid frame within the limits starts here");
    if (r) {
        vc_assert(r->size == f.t, "R02: frame size is the protocol's"); vc_assert(r->size >= 1 && r->size <= n, "R01: frame lies inside the given bytes");
        vc_assert(r->data == g_base, "R01: frame starts at its first byte"); vc_assert((char)r->type == g_base[0], "R02: frame type is its first byte");
        const u64 q = F(o); vc_assert(r->element_count == (agg_t(g_base[0]) ? (u64)INT_VAL(1, q - 1) : 0), "R02: element count is the declared count (pairs for maps and attributes)");
    } else {
        if (depth > g_maxd) vc_assert(r.error() == ParseError::MaxDepthReached, "R03: nesting beyond the limit is the depth error");
        else if (f.v && dok) vc_assert(r.error() == ParseError::NeedMoreData, "R02: a proper prefix of a frame needs more data");
        else if (f.v && f.t <= n) vc_assert(r.error() == ParseError::MaxDepthReached, "R03: a complete frame nested too deep is the depth error");
        else {
            const u64 q = F(o);
            if (n == 0 || q >= INF) vc_assert(r.error() == ParseError::NeedMoreData, "R02: an incomplete header needs more data");
            else {
                const unsigned char c = g_base[0]; const bool num = INT_OK(1, q - 1); const int64_t L = INT_VAL(1, q - 1);
                if (c == ':' || (bulk_t(c) && (!num || L < -1))) vc_assert(r.error() == ParseError::Atoi, "R02: invalid content is reported as the corresponding error");
                else if (bulk_t(c) && (u64)L > g_maxsize) vc_assert(r.error() == ParseError::SizeOverflow, "R03: a declared length beyond the maximum is the size error before any payload arrives");
                else if (leaf_t(c) || (agg_t(c) && (!num || L < 0))) vc_assert(r.error() == ParseError::MalformedFrame, "R02: invalid content is reported as the corresponding error");
                else if (!agg_t(c)) vc_assert(r.error() == ParseError::Unknown, "R02: invalid content is reported as the corresponding error");
            }
        }
    }
#endif
    if (r.has_value()) vc_cover("accepted"); else vc_cover("refused");
}
VC_HARNESS void H_parse_simple() { parse_step(false, 0); }
VC_HARNESS void H_parse_number() { parse_step(false, 1); }
VC_HARNESS void H_parse_bulk() { parse_step(false, 2); }
VC_HARNESS void H_parse_map() { parse_step(false, 3); }
VC_HARNESS void H_parse_array() { parse_step(false, 4); }
VC_HARNESS void H_parse_longer_simple() { parse_step(true, 0); }
VC_HARNESS void H_parse_longer_number() { parse_step(true, 1); }
VC_HARNESS void H_parse_longer_bulk() { parse_step(true, 2); }
VC_HARNESS void H_parse_longer_map() { parse_step(true, 3); }
VC_HARNESS void H_parse_longer_array() { parse_step(true, 4); }
// ------------------------------------------------------------------ next_frame / consume
// The frame handed out is the parse of exactly the readable bytes, at depth 0, and parsing does not consume.
VC_HARNESS void H_next()
{
    ParserConfig c; c.max_size = vc_u64("max_size"); c.max_aggregate_depth = vc_u64("max_depth"); c.initial_buffer = vc_size("cap", 40);
    vc_assume(c.initial_buffer > 0);
    g_maxsize = c.max_size; g_maxd = c.max_aggregate_depth; vc_assume(g_maxd < INF);
#ifndef VC_VERIFY
    vc_assume(g_maxd < 300);
#endif
    Parser* p = new Parser(c);
    const u64 w = vc_size("w", 40), r = vc_size("r", 40); vc_assume(r <= w && w <= c.initial_buffer);
    char* in = (char*)vc_region(w, "in");
    auto ws = p->buffer().writable_span(); vc_assume(ws.size() >= w);
    __builtin_memcpy(ws.data(), in, w); p->buffer().commit_write(w); p->buffer().advance(r);
    const auto before = p->buffer().readable_span();
    g_base = const_cast<char*>(before.data()); g_n = before.size(); g_armed = 0;
    const u64 len = g_n;
    const Res res = p->next_frame();
    const auto after = p->buffer().readable_span();
    vc_assert(after.data() == before.data() && after.size() == before.size(), "R04: parsing does not consume or move the input");
    vc_assert(res.has_value() == (V(0) & (D(0) <= g_maxd) & (T(0) <= len)), "R02: next_frame() recognises exactly the frame at the front of the readable bytes");
    if (res) {
        vc_cover("frame");
        vc_assert(res->data == before.data(), "R01: frame starts at the first readable byte");
        vc_assert(res->size >= 1 && res->size <= len, "R01: frame lies inside the readable bytes");
        vc_assert(res->size == T(0), "R02: frame size is the protocol's");
        const u64 sz = res->size;
        if (vc_bool("by_frame")) p->consume(*res); else p->consume(sz);
        const auto rest = p->buffer().readable_span();
        vc_assert(rest.size() == len - sz, "R04: consuming a frame leaves the bytes behind it");
        vc_assert(rest.size() == 0 || rest.data() == before.data() + sz, "R04: the next frame starts right behind the consumed one");
        vc_assert(rest.data() == before.data() + sz || rest.size() == 0, "R04: consuming a frame removes exactly its bytes");
    } else vc_cover("none");
}
// ------------------------------------------------------------------ iteration over children
VC_HARNESS void H_iterate()
{
    Parser* p = make_parser();
    const u64 n = vc_size("n", 40); input(n);
#ifdef VC_VERIFY
    g_armed = 0;
    // a header the parser returned for the frame at offset 0 (POST above)
    vc_assume(n > 0 && V(0) && D(0) <= g_maxd && T(0) <= n && T(0) >= 1);
    const unsigned char c = (unsigned char)g_base[0];
    vc_assume(agg_t(c) | leaf_t(c));
    const u64 q = F(0); vc_assume(q <= n && q + 2 <= n && q + 2 <= T(0) && g_base[q] == '\r' && g_base[q + 1] == '\n');
    const u64 cnt = vc_u64("cnt"); vc_assume(cnt < INF && (agg_t(c) || cnt == 0));
    const u64 k = pair_t(c) ? 2 * cnt : cnt;
    FrameHeader par{(FrameType)c, g_base, T(0), cnt};
    FrameIterator it(par, *p);
    u64 s = q + 2, i = 0;
    vc_assume(S(0, 0) == s);
    vc_term(k);
    while (true) {
        vc_assert(it.has_next() == (i < k), "R04: has_next() until all children were visited");
        vc_assert(it.remaining() == k - i, "R04: remaining() counts the children left");
        if (!it.has_next()) break;
        // defining equations of child i
        vc_assume(V(s) && D(0) >= 1 && D(s) <= D(0) - 1 && T(s) >= 1 && s <= T(0) && T(s) <= T(0) - s);
        if (i == k - 1) vc_assume(T(0) == s + T(s));
        const Res r = it.next();
        vc_assert(r.has_value(), "R04: every child of a valid frame is returned");
        vc_assert(r->data == g_base + s, "R04: each child starts where the previous one ended");
        vc_assert(r->size == T(s), "R04: each child has its own size");
        vc_assert(r->size <= T(0) - s, "R04: children lie inside the parent");
        if (i == k - 1) { vc_cover("last child"); vc_assert(s + r->size == T(0), "R04: the children tile the parent exactly"); }
        s += T(s); i++;
    }
    const Res e = it.next();
    vc_assert(!e.has_value() && e.error() == ParseError::EoIter, "R04: after the last child comes end-of-iteration");
    vc_assert(!it.has_next(), "R04: end-of-iteration is stable");
    const Res e2 = it.next();
    vc_assert(!e2.has_value() && e2.error() == ParseError::EoIter, "R04: end-of-iteration is stable");
    vc_cover("done");
#else
    // the input bytes must start with a frame the parser accepts
    const Res par = p->parse_frame_internal({g_base, n}, 0);
    vc_assume(par.has_value());
    FrameIterator it(*par, *p);
    const u64 q = F(0); u64 s = q + 2; const u64 k = par->element_count * (pair_t(g_base[0]) ? 2 : 1);
    for (u64 i = 0; i < k; ++i) {
        vc_assert(it.has_next() && it.remaining() == k - i, "R04: remaining() counts the children left");
        const Res r = it.next();
        vc_assert(r.has_value(), "R04: every child of a valid frame is returned");
        vc_assert(r->data == g_base + s && r->size == T(s), "R04: each child starts where the previous one ended");
        vc_assert(r->size <= par->size - s, "R04: children lie inside the parent");
        s += r->size;
    }
    vc_assert(s == par->size || !agg_t(g_base[0]), "R04: the children tile the parent exactly");
    const Res e = it.next();
    vc_assert(!it.has_next() && !e.has_value() && e.error() == ParseError::EoIter, "R04: after the last child comes end-of-iteration");
#endif
}
// ------------------------------------------------------------------ payload views
// requires: a header the parser returned for a simple frame: '<type>' text CRLF, size = position of the CRLF + 2
VC_HARNESS void H_payload_simple()
{
    const u64 n = vc_size("n", 40); input(n);
    vc_assume(n >= 1);
    const unsigned char c = (unsigned char)g_base[0];
    vc_assume(leaf_t(c) & !bulk_t(c));
    const u64 q = F(0); vc_assume(q >= 1 && q < n && q + 2 == n);
    const auto v = get_simple_payload(FrameHeader{(FrameType)c, g_base, n, 0});
    vc_cover("payload");
    vc_assert(v.size() == q - 1, "R04: simple payload is the text between type byte and CRLF");
    vc_assert(v.size() == 0 || v.data() == g_base + 1, "R04: simple payload starts behind the type byte");
    vc_assert(v.size() == 0 || vc_inside(v.data(), g_base, v.size()), "R01: payload view lies inside the frame");
}
VC_HARNESS void H_payload_bulk()
{
    const u64 n = vc_size("n", 40); input(n);
    vc_assume(n >= 1);
    const unsigned char c = (unsigned char)g_base[0];
    vc_assume(bulk_t(c));
    const u64 q = F(0); vc_assume(q >= 1 && q < n && q + 2 <= n);
    const bool null = vc_bool("null"); const u64 L = vc_size("L", 40);
#ifndef VC_VERIFY
    vc_assume(INT_OK(1, q - 1) && INT_VAL(1, q - 1) == (null ? -1 : (int64_t)L));
#endif
    vc_assume(null ? n == q + 2 : n == q + 4 + L);
    const auto v = get_bulk_payload(FrameHeader{(FrameType)c, g_base, n, 0});
    vc_cover("payload");
    vc_assert(v.size() == (null ? 0 : L), "R04: bulk payload has the declared length");
    vc_assert(v.size() == 0 || v.data() == g_base + q + 2, "R04: bulk payload starts behind the header line");
    vc_assert(v.size() == 0 || vc_inside(v.data(), g_base, v.size()), "R01: payload view lies inside the frame");
}
