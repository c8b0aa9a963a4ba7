// Contracts of the address and socket helpers (kio/net/net.h, kio/net/net.cpp).
#include "vc.h"
#include <sys/stat.h>
#include "nolog.h"
#include <cstdarg>
#include <cerrno>
#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <kio/net/net.h>
#include <kio/net/net.cpp>
#include <new>
using namespace kio; using namespace kio::net;
typedef uint64_t u64;
#define SPECFN extern "C" __attribute__((used, noinline))
// ---------------------------------------------------------------------------------------------------------------------
// Assumed contracts of the C library: each reads exactly the text and buffers it is entitled to; its answer is arbitrary.
char* g_host; u64 g_hn, g_K; uint16_t g_port;      // the request
bool g_is4, g_is6, g_dns_ok, g_dns6; bool g_dns_port;
unsigned char g_a4[4], g_a6[16]; unsigned char g_text[3];
sockaddr_storage* g_sa; addrinfo* g_ai; int g_live, g_lookups; socklen_t g_salen;
int g_errno_;
VC_SPEC void is_host(const char* t)
{
    vc_assert(vc_inside(t, t, g_hn + 1) && t[g_hn] == 0 && (g_K >= g_hn || t[g_K] == g_host[g_K]), "N01: the name looked up is the host given, NUL-terminated");
}
SPECFN int C_inet_pton(int af, const char* text, void* dst)
{
    is_host(text);
    vc_assert((af == AF_INET || af == AF_INET6) && vc_inside(dst, dst, af == AF_INET ? 4 : 16), "N01: the parsed address has room");
    if (af == AF_INET ? !g_is4 : !g_is6) return 0;
    if (af == AF_INET) __builtin_memcpy(dst, g_a4, 4); else __builtin_memcpy(dst, g_a6, 16);
    return 1;
}
// the text of an address is abstract: a tag for the family and the first byte
SPECFN const char* C_inet_ntop(int af, const void* src, char* dst, socklen_t n)
{
    vc_assert(af == AF_INET || af == AF_INET6, "N01: only known families are formatted");
    vc_assert(n >= (af == AF_INET ? 16u : 46u) && vc_inside(dst, dst, n), "N01: the text buffer is large enough for any address");
    dst[0] = af == AF_INET ? '4' : '6'; dst[1] = (char)(((const unsigned char*)src)[0] | 1); dst[2] = (char)(((const unsigned char*)src)[3] | 1); dst[3] = 0;
    return dst;
}
SPECFN int C_getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
    is_host(node);
    vc_assert(hints->ai_socktype == SOCK_STREAM && hints->ai_protocol == 0 && hints->ai_flags == 0, "N01: the lookup asks for stream addresses");
    g_lookups++;
    unsigned p = 0, n = 0;
    if (service) for (; n < 5 && service[n] != 0; ++n) { vc_assert(service[n] >= '0' && service[n] <= '9', "N01: the service is a decimal port"); p = p * 10 + (service[n] - '0'); }
    vc_assert(!service || (service[n] == 0 && n > 0 && p == g_port), "N01: the service is the port given");
    if (!g_dns_ok) return EAI_NONAME;
    g_ai = (addrinfo*)malloc(sizeof(addrinfo)); g_sa = (sockaddr_storage*)malloc(g_salen); g_live++;
    const uint16_t np = service ? htons(g_port) : 0;
    if (g_dns6) { auto* s = (sockaddr_in6*)g_sa; s->sin6_family = AF_INET6; s->sin6_port = np; s->sin6_flowinfo = 0; s->sin6_scope_id = vc_u32("scope"); __builtin_memcpy(&s->sin6_addr, g_a6, 16); }
    else { auto* s = (sockaddr_in*)g_sa; s->sin_family = AF_INET; s->sin_port = np; __builtin_memset(s->sin_zero, 0, 8); __builtin_memcpy(&s->sin_addr, g_a4, 4); }
    g_ai->ai_flags = 0; g_ai->ai_family = g_dns6 ? AF_INET6 : AF_INET; g_ai->ai_socktype = SOCK_STREAM; g_ai->ai_protocol = 6; g_ai->ai_addrlen = g_salen; g_ai->ai_addr = (sockaddr*)g_sa; g_ai->ai_canonname = nullptr; g_ai->ai_next = nullptr;
    *res = g_ai;
    return 0;
}
// std::to_string (library): the decimal digits, for the numbers that occur here
SPECFN void C_to_string(std::string* out, unsigned v)
{
    vc_assert(v <= 65535, "N01: the port is a 16-bit number");
    char d[5]; d[0] = '0' + v / 10000 % 10; d[1] = '0' + v / 1000 % 10; d[2] = '0' + v / 100 % 10; d[3] = '0' + v / 10 % 10; d[4] = '0' + v % 10;
    if (v < 10) new (out) std::string(d + 4, 1); else if (v < 100) new (out) std::string(d + 3, 2); else if (v < 1000) new (out) std::string(d + 2, 3); else if (v < 10000) new (out) std::string(d + 1, 4); else new (out) std::string(d, 5);
}
SPECFN void C_freeaddrinfo(addrinfo* r)
{
    vc_assert(g_live == 1 && r == g_ai, "N01: the list a lookup returned is released exactly once");
    if (g_live != 1) return;
    g_live--; free(g_sa); free(g_ai);
}
// ---- sockets: every call is recorded, results and error numbers are arbitrary
int g_fd, g_closes, g_step, g_backlog, g_err, g_family; bool g_created, g_nonblock, g_bound, g_listening, g_reuse, g_failed; const sockaddr* g_bind_addr;
SocketAddress* g_addr;
SPECFN int C_sys(const char* what) { if (vc_bool(what)) { g_err = (int)vc_u8("errno"); vc_assume(g_err > 0 && g_err < 134); g_failed = true; 
#ifdef VC_VERIFY
    g_errno_ = g_err;
#else
    errno = g_err;
#endif
    return -1; } return 0; }
SPECFN int* C_errno() { return &g_errno_; }
SPECFN int C_socket(int family, int type, int proto)
{
    vc_assert(!g_created && !g_failed, "N01: exactly one socket is created");
    vc_assert((type & 15) == SOCK_STREAM && proto == 0, "N01: the socket is a stream socket");
    g_family = family; if (type & SOCK_NONBLOCK) g_nonblock = true;
    if (C_sys("socket")) return -1;
    g_created = true; g_fd = (int)(vc_u32("fd") >> 1); return g_fd;
}
SPECFN int C_setsockopt(int fd, int level, int opt, const void* v, socklen_t n)
{
    vc_assert(fd == g_fd && g_closes == 0, "N01: options are set on the socket");
    vc_assert(vc_inside(v, v, n) && n == sizeof(int) && *(const int*)v == 1, "N01: the option is switched on");
    if (level == SOL_SOCKET && opt == SO_REUSEADDR) g_reuse = true;
    return C_sys("setsockopt");
}
SPECFN int C_bind(int fd, const sockaddr* a, socklen_t n)
{
    vc_assert(fd == g_fd && g_closes == 0 && !g_bound && !g_failed, "N01: the socket is bound once");
    vc_assert(n > 0 && vc_inside(a, a, n), "N01: the address bound is one that exists");
    vc_assert((n == sizeof(sockaddr_in) && a->sa_family == AF_INET) || (n == sizeof(sockaddr_in6) && a->sa_family == AF_INET6), "N01: the length given matches the family");
    if (a->sa_family == AF_INET) { auto* s = (const sockaddr_in*)a; vc_assert(s->sin_port == htons(g_port) && !__builtin_memcmp(&s->sin_addr, g_a4, 4), "N01: the address bound is the one requested"); }
    else { auto* s = (const sockaddr_in6*)a; vc_assert(s->sin6_port == htons(g_port) && !__builtin_memcmp(&s->sin6_addr, g_a6, 16), "N01: the address bound is the one requested"); }
    if (C_sys("bind")) return -1;
    g_bound = true; return 0;
}
SPECFN int C_fcntl(int fd, int cmd, int arg) { vc_assert(fd == g_fd && g_closes == 0 && cmd == F_SETFL && (arg & O_NONBLOCK), "N01: the socket is made non-blocking"); if (C_sys("fcntl")) return -1; g_nonblock = true; return 0; }
SPECFN int C_listen(int fd, int backlog) { vc_assert(fd == g_fd && g_closes == 0 && g_bound && backlog == g_backlog && !g_failed, "N01: only a bound socket listens, with the backlog given"); if (C_sys("listen")) return -1; g_listening = true; return 0; }
SPECFN int C_close(int fd) { vc_assert(g_created && fd == g_fd && g_closes == 0, "N01,F01: only the socket created here is closed, once"); g_closes++; g_errno_ = (int)vc_u8("close errno"); return 0; }
#ifdef VC_NATIVE
extern "C" bool vc_active();
extern "C" {
int inet_pton(int af, const char* t, void* d) { return vc_active() ? C_inet_pton(af, t, d) : 0; }
const char* inet_ntop(int af, const void* s, char* d, socklen_t n) { return vc_active() ? C_inet_ntop(af, s, d, n) : nullptr; }
int getaddrinfo(const char* a, const char* b, const addrinfo* h, addrinfo** r) { return C_getaddrinfo(a, b, h, r); }
void freeaddrinfo(addrinfo* r) { C_freeaddrinfo(r); }
int socket(int f, int t, int p) { return vc_active() ? C_socket(f, t, p) : -1; }
int setsockopt(int f, int l, int o, const void* v, socklen_t n) { return vc_active() ? C_setsockopt(f, l, o, v, n) : -1; }
int bind(int f, const sockaddr* a, socklen_t n) { return vc_active() ? C_bind(f, a, n) : -1; }
int fcntl(int f, int c, ...) { va_list ap; va_start(ap, c); int x = va_arg(ap, int); va_end(ap); return vc_active() ? C_fcntl(f, c, x) : 0; }
int listen(int f, int b) { return vc_active() ? C_listen(f, b) : -1; }
int close(int f) { if (!vc_active()) return 0; int r = C_close(f); errno = g_errno_; return r; }
}
#endif
VC_SPEC void setup()
{
    g_hn = vc_size("hn", 20); g_host = (char*)vc_region(g_hn, "host"); g_K = vc_size("K", 20); vc_ghost_ptr(g_host + g_K);
#ifdef VC_NATIVE
    for (u64 i = 0; i < g_hn; ++i) vc_assume(g_host[i] != 0);
#endif
    g_port = vc_u16("port"); g_is4 = vc_bool("is4"); g_is6 = vc_bool("is6"); g_dns_ok = vc_bool("dns"); g_dns6 = vc_bool("dns6");
    for (int i = 0; i < 4; ++i) g_a4[i] = vc_u8("a4");
    for (int i = 0; i < 16; ++i) g_a6[i] = vc_u8("a6");
    g_salen = g_dns6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); g_live = 0; g_lookups = 0;
    g_created = g_nonblock = g_bound = g_listening = g_reuse = g_failed = false; g_closes = 0; g_fd = -1;
}
VC_SPEC void text_is(const std::string& s, bool six, const unsigned char* a)
{
    vc_assert(s.size() == 3 && s[0] == (six ? '6' : '4') && (unsigned char)s[1] == (a[0] | 1) && (unsigned char)s[2] == (a[3] | 1), "N01: the textual address is that of the socket address");
}
VC_SPEC void check_address(const Result<SocketAddress>& r)
{
    vc_assert(g_live == 0, "N01: the list a lookup returned is released exactly once");
    const bool ok = g_is4 || g_is6 || g_dns_ok;
    vc_assert(r.has_value() == ok, "N01: an address that cannot be resolved is an error, one that can is not");
    if (!ok) { vc_cover("unresolved"); vc_assert(r.error().category == ErrorCategory::Network || r.error() == Error::from_errno(ENOENT), "N01: an unresolved name is reported as such"); vc_assert(r.error().value == ENOENT, "N01: an unresolved name is reported as such"); return; }
    const bool six = !g_is4 && (g_is6 || g_dns6);
    vc_assert(g_lookups == (g_is4 || g_is6 ? 0 : 1), "N01: a numeric address needs no lookup");
    vc_assert(r->family == (six ? AF_INET6 : AF_INET) && r->addr.ss_family == r->family, "N01: the address has the family of the text");
    vc_assert(r->addrlen == (six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "N01: the length is that of the family");
    vc_assert(r->port == g_port, "N01: the port is the one given");
    if (six) { const auto* s = (const sockaddr_in6*)&r->addr; vc_cover("six"); vc_assert(s->sin6_port == htons(g_port), "N01: the port is in network byte order"); vc_assert(!__builtin_memcmp(&s->sin6_addr, g_a6, 16), "N01: the address is precisely the one in the text"); if (g_is6) vc_assert(s->sin6_flowinfo == 0 && s->sin6_scope_id == 0, "N01: nothing else is set"); text_is(r->ip, true, g_a6); }
    else { const auto* s = (const sockaddr_in*)&r->addr; vc_cover("four"); vc_assert(s->sin_port == htons(g_port), "N01: the port is in network byte order"); vc_assert(!__builtin_memcmp(&s->sin_addr, g_a4, 4), "N01: the address is precisely the one in the text"); text_is(r->ip, false, g_a4); }
}
VC_HARNESS void H_resolve_address() { setup(); const auto r = resolve_address({g_host, g_hn}, g_port); check_address(r); }
VC_HARNESS void H_resolve_endpoint() { setup(); const auto r = resolve_endpoint({g_host, g_hn}, g_port); check_address(r); }
VC_HARNESS void H_populate()
{
    setup();
    SocketAddress a; a.family = 77; a.port = 99;
    const uint16_t fam = vc_u16("family"); const socklen_t len = vc_u32("len");
    a.addr.ss_family = fam; a.addrlen = len;
    if (fam == AF_INET6) { auto* s = (sockaddr_in6*)&a.addr; s->sin6_port = htons(g_port); __builtin_memcpy(&s->sin6_addr, g_a6, 16); }
    else { auto* s = (sockaddr_in*)&a.addr; s->sin_port = htons(g_port); __builtin_memcpy(&s->sin_addr, g_a4, 4); }
    const bool ok = a.populate_from_storage();
    vc_assert(ok == (len != 0 && (fam == AF_INET || fam == AF_INET6)), "N01: only a known family in a non-empty address is described");
    if (ok) { vc_cover("described"); vc_assert(a.family == fam && a.port == g_port, "N01: family and port are those of the socket address"); text_is(a.ip, fam == AF_INET6, fam == AF_INET6 ? g_a6 : g_a4); }
    else { vc_cover("refused"); vc_assert(a.ip.empty() && a.port == 99, "N01: a refused address leaves text and port alone"); }
    vc_assert(a.addrlen == len && a.addr.ss_family == fam, "N01: describing an address does not change it");
}
#ifdef VC_VERIFY
// the contract of resolve_address as its callers see it (proved above)
SPECFN void C_resolve_address(Result<SocketAddress>* out, size_t n, const char* p, uint16_t port)
{
    vc_assert(p == g_host && n == g_hn && port == g_port, "N01: the server resolves the address and port it was given");
    if (!(g_is4 || g_is6 || g_dns_ok)) { new (out) Result<SocketAddress>(std::unexpected(Error{ErrorCategory::Network, ENOENT})); return; }
    const bool six = !g_is4 && (g_is6 || g_dns6);
    SocketAddress a; a.port = port;
    if (six) { auto* s = (sockaddr_in6*)&a.addr; s->sin6_family = AF_INET6; s->sin6_port = htons(port); __builtin_memcpy(&s->sin6_addr, g_a6, 16); a.family = AF_INET6; a.addrlen = sizeof(sockaddr_in6); }
    else { auto* s = (sockaddr_in*)&a.addr; s->sin_family = AF_INET; s->sin_port = htons(port); __builtin_memcpy(&s->sin_addr, g_a4, 4); a.family = AF_INET; a.addrlen = sizeof(sockaddr_in); }
    new (out) Result<SocketAddress>(std::move(a));
}
#endif
VC_HARNESS void H_server()
{
    setup(); g_backlog = (int)vc_u32("backlog");
    const auto r = create_tcp_server_socket({g_host, g_hn}, g_port, g_backlog);
    vc_assert(g_live == 0, "N01: the list a lookup returned is released exactly once");
    if (r) {
        vc_cover("listening");
        vc_assert(g_created && *r == g_fd && g_closes == 0, "N01,F01: the descriptor returned is the socket, still open");
        vc_assert(g_bound && g_listening && g_nonblock && g_reuse && !g_failed, "N01: success means bound, listening, non-blocking and reusable");
        vc_assert(g_family == (g_is4 ? AF_INET : g_is6 ? AF_INET6 : g_dns6 ? AF_INET6 : AF_INET), "N01: the socket has the family of the address");
    } else {
        vc_assert(g_closes == (g_created ? 1 : 0), "N01,F01: on failure a socket that was created is closed exactly once");
        if (g_is4 || g_is6 || g_dns_ok) { vc_cover("failed"); vc_assert(g_failed && r.error() == Error::from_errno(g_err), "N01: the error is that of the call that failed"); }
        else vc_assert(!g_created, "N01: without an address no socket is created");
    }
}
VC_HARNESS void H_fd()
{
    setup(); const int fam = (int)vc_u32("fam");
    const bool raw = vc_bool("raw");
    const auto r = raw ? create_raw_socket(fam) : create_tcp_fd(fam);
    vc_assert(g_family == fam && r.has_value() == g_created && g_closes == 0, "N01: a socket of the family given is created or an error reported");
    if (r) { vc_cover("made"); vc_assert(*r == g_fd && (raw || g_nonblock), "N01: the descriptor returned is the socket"); const auto o = set_tcp_fd_options(*r); vc_assert(o.has_value(), "N01: options are best effort"); }
    else { vc_cover("not made"); vc_assert(r.error() == Error::from_errno(g_err), "N01: the error is that of the call that failed"); }
}
