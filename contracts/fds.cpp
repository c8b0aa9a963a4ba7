// Contracts of the descriptor owners: net::Socket, net::FDGuard, bitcask::FileHandle, kio::File.
#include "vc.h"
#include <sys/stat.h>
#include "nolog.h"
#include <cassert>
#include <filesystem>
#include <kio/net/socket.h>
#include <kio/net/net.h>
#include <kio/fs/fs.h>
#include <bitcask/include/file_handle.h>
#include <new>
typedef uint64_t u64;
// close(2): every call is recorded; a descriptor number below zero is never closed
u64 g_closes; int g_closed; bool g_two;
extern "C" __attribute__((used, noinline)) int C_close(int fd)
{
    vc_assert(fd >= 0, "F01: an empty object never closes anything");
    g_closes++; g_closed = fd;
    return (int)vc_u32("close");
}
#ifdef VC_NATIVE
extern "C" bool vc_active();
extern "C" int close(int fd) { return vc_active() ? C_close(fd) : 0; }
#endif
static void* g_pool;
template <class T> struct Make { static T* make(void* p, int fd) { return new (p) T(fd); } };
template <> struct Make<kio::File> { static kio::File* make(void* p, int fd) { return new (p) kio::File(fd, *(kio::io::IOPool*)g_pool, 0); } };
template <class T> VC_SPEC int fd_of(const T& t) { if constexpr (requires { t.get(); }) return t.get(); else return t.fd(); }
template <class T> VC_SPEC int fd_draw() { int f = (int)vc_u32("fd"); vc_assume(f >= (std::is_same_v<T, kio::File> ? 0 : -1)); return f; }
#define EXPECT(N, FD) do { vc_assert(g_closes == (u64)(N), "F01: exactly the descriptors given up are closed, once each"); if (N) vc_assert(g_closed == (FD), "F01: the descriptor given up is the one that is closed"); g_closes = 0; } while (0)
#define HOLDS(O, FD) vc_assert(fd_of(O) == (FD), "F01: ownership is transferred completely")
// any history of operations on two owners, then destruction
template <class T> VC_SPEC void owners()
{
    g_closes = 0; g_pool = vc_region(16, "pool");
    alignas(16) unsigned char sa[sizeof(T)], sb[sizeof(T)];
    int ma = fd_draw<T>(), mb = fd_draw<T>();
    T* a = Make<T>::make(sa, ma); T* b = Make<T>::make(sb, mb);
    HOLDS(*a, ma); HOLDS(*b, mb); EXPECT(0, 0);
    while (vc_again("again")) {
        const uint32_t op = vc_u8("op");
        if constexpr (std::is_move_assignable_v<T>) {
            if (op == 0) { *a = std::move(*b); EXPECT(ma >= 0, ma); ma = mb; mb = -1; vc_cover("move assigned"); }
            if (op == 1) { *b = std::move(*a); EXPECT(mb >= 0, mb); mb = ma; ma = -1; }
            if (op == 2) { T& r = *a; *a = std::move(r); EXPECT(0, 0); }
            if (op == 3) { const int f = fd_draw<T>(); alignas(16) unsigned char sc[sizeof(T)]; T* c = Make<T>::make(sc, f); *a = std::move(*c); c->~T(); EXPECT(ma >= 0, ma); ma = f; }
        }
        if constexpr (requires { a->release(); }) if (op == 4) { const int f = a->release(); vc_assert(f == ma, "F01: release() hands out the owned descriptor"); EXPECT(0, 0); ma = -1; vc_cover("released"); }
        if constexpr (requires { a->close(); }) if (op == 5) { a->close(); EXPECT(ma >= 0, ma); ma = -1; vc_cover("closed"); }
        if constexpr (requires { a->reset(1); }) if (op == 6) { const int f = fd_draw<T>(); a->reset(f); EXPECT(ma >= 0, ma); ma = f; vc_cover("reset"); }
        if (op == 7) { alignas(16) unsigned char sc[sizeof(T)]; T* c = new (sc) T(std::move(*a)); HOLDS(*c, ma); EXPECT(0, 0); c->~T(); EXPECT(ma >= 0, ma); ma = -1; vc_cover("move constructed"); }
        if (op == 8) { a->~T(); EXPECT(ma >= 0, ma); ma = fd_draw<T>(); a = Make<T>::make(sa, ma); EXPECT(0, 0); vc_cover("destroyed"); }
        HOLDS(*a, ma); HOLDS(*b, mb);
        if constexpr (requires { a->is_valid(); }) vc_assert(a->is_valid() == (ma >= 0), "F01: is_valid() tells whether a descriptor is owned");
    }
    a->~T(); EXPECT(ma >= 0, ma);
    b->~T(); EXPECT(mb >= 0, mb);
}
VC_HARNESS void H_socket() { owners<kio::net::Socket>(); vc_cover("move assigned"); vc_cover("released"); vc_cover("move constructed"); vc_cover("destroyed"); }
VC_HARNESS void H_fdguard() { owners<kio::net::FDGuard>(); vc_cover("move constructed"); vc_cover("destroyed"); }
VC_HARNESS void H_filehandle() { owners<bitcask::FileHandle>(); vc_cover("move assigned"); vc_cover("released"); vc_cover("reset"); vc_cover("destroyed"); }
VC_HARNESS void H_file() { owners<kio::File>(); vc_cover("move assigned"); vc_cover("closed"); vc_cover("destroyed"); }
VC_HARNESS void H_empty()
{
    g_closes = 0;
    { kio::net::Socket s; vc_assert(!s.is_valid() && s.get() == -1, "F01: a default socket is empty"); bitcask::FileHandle h; vc_assert(!h.is_valid(), "F01: a default handle is empty"); vc_cover("empty"); }
    vc_assert(g_closes == 0, "F01: an empty object never closes anything");
}
