// Contracts of the descriptor cache (K03): one operation on a cache of any size and content.  While a file is being opened
// other lookups may run: afterwards the cache is any cache satisfying its invariant.
#include "vc.h"
#include <sys/stat.h>
#include "nolog.h"
#include <bitcask/include/file_handle.h>
#include <kio/core/worker.h>
#include "containers.h"
#define unordered_map vc_map
#define list vc_list
#include <bitcask/src/fd_cache.cpp>
#undef unordered_map
#undef list
using namespace bitcask;
typedef uint64_t u64;
typedef uint32_t u32;
using kio::Result; using kio::Error; using kio::Task;
struct Fake { void (*resume)(Fake*); void (*destroy)(Fake*); u64 resumed; };
inline void fake_resume(Fake* f) { f->resumed++; }
inline void fake_destroy(Fake*) { vc_assert(false, "a coroutine of somebody else is destroyed"); }
VC_SPEC std::coroutine_handle<> fake(Fake* f) { f->resume = fake_resume; f->destroy = fake_destroy; f->resumed = 0; return std::coroutine_handle<>::from_address(f); }
typedef std::vc_map<u64, FDCache::CacheEntry> Map;
typedef std::vc_list<u64> List;
static constexpr int FDS = 8;
struct Ghost {
    FDCache* c; kio::io::Worker* w; const std::filesystem::path* path; u64 id, max;
    int fd[FDS]; u64 owner[FDS]; bool closed[FDS], mine[FDS]; int nfd;   // descriptors spelled out so far
    int opened, newfd; bool failed; int err; bool removing, grown;
};
static Ghost G;
VC_SPEC int new_fd(u64 owner, bool mine)
{
    const int f = (int)vc_u32("fd"); vc_assume(f >= 0);
    for (int i = 0; i < G.nfd; i++) vc_assume(G.closed[i] || G.fd[i] != f);
    vc_assert(G.nfd < FDS, "contract: more descriptors than spelled out");
    G.fd[G.nfd] = f; G.owner[G.nfd] = owner; G.closed[G.nfd] = false; G.mine[G.nfd++] = mine;
    return f;
}
namespace std {
// an entry that was cached before: it owns a descriptor, and its element of the list names it
void vc_fresh(Map& m, const u64& id, FDCache::CacheEntry* e)
{
    ::new (&e->handle) FileHandle(new_fd(id, false));
    ::new (&e->path) std::filesystem::path();
    e->lru_iter = List::iterator{G.c->lru_list_.older(id)};
}
// an element of the list nobody has looked at: the file it names is cached
List::Node* vc_older(List& l)
{
    const u64 id = vc_u64("cached file"); Map& m = G.c->cache_;
    for (int i = 0; i < m.used; i++) vc_assume(m.s[i].key != id);
    const int i = m.at_slot(id); vc_assume(m.s[i].present);
    return m.s[i].node->second.lru_iter.p;
}
void vc_removed(List& l, List::Node* n, bool back)
{
    vc_assert(back || n->v == G.id, "K03: only the least recently used file is evicted");
}
}
VC_SPEC void forget()
{
    Map& m = G.c->cache_; List& l = G.c->lru_list_;
    m.forget(); l.forget();
    m.unknown = vc_size("cached", 40); l.unknown = m.unknown; vc_assume(m.unknown <= G.max);
}
// the cache between two operations, for every file the operation looked at
VC_SPEC void invariant()
{
    Map& m = G.c->cache_; List& l = G.c->lru_list_;
    vc_assert(m.size() <= G.max, "K03: the cache never holds more than its limit");
    vc_assert(l.size() == m.size(), "K03: the list of files and the cache agree in size");
    for (int i = 0; i < m.used; i++) {
        if (m.s[i].present) {
            auto& e = m.s[i].node->second;
            vc_assert(e.lru_iter.p && e.lru_iter.p->in && e.lru_iter.p->v == m.s[i].key, "K03: every cached file has its element in the list");
        }
        int named = 0;
        for (int j = 0; j < l.used; j++) if (l.k[j]->in && l.k[j]->v == m.s[i].key) named++;
        vc_assert(named == (m.s[i].present ? 1 : 0), "K03: a file is in the list exactly if it is cached, once");
    }
    for (int i = 0; i < G.nfd; i++) {
        bool held = false;
        for (int j = 0; j < m.used; j++) if (m.s[j].present) held |= m.s[j].node->second.handle.get() == G.fd[i] && m.s[j].key == G.owner[i];
        if (!G.mine[i] || G.owner[i] == G.id) vc_assert(held != G.closed[i], "K03: a descriptor is closed exactly when it leaves the cache");
    }
}
#ifdef VC_NATIVE
extern "C" bool vc_active();
extern "C" int close(int fd) { if (!vc_active()) return 0;
#else
extern "C" __attribute__((used, noinline)) int C_close(int fd) {
#endif
    bool known = false;
    for (int i = 0; i < G.nfd; i++)
        if (!known && G.fd[i] == fd && !G.closed[i]) { G.closed[i] = true; known = true; }
    vc_assert(known, "K03: only descriptors of the cache are closed, once");
    return 0;
}
VC_SPEC void setup()
{
    G = Ghost{};
    G.w = (kio::io::Worker*)vc_region(sizeof(kio::io::Worker), "worker");
    G.max = vc_size("limit", 40); vc_assume(G.max >= 1);
    G.id = vc_u64("file");
}
namespace kio::io {
Task<Result<int>> Worker::async_openat(std::filesystem::path path, int flags, mode_t mode)
{
    vc_assert(this == G.w && G.opened == 0, "K03: a lookup opens the file at most once");
    vc_assert(flags == O_RDONLY, "K03: cached files are opened for reading");
    G.opened++;
    // other lookups run meanwhile; what they closed and opened is theirs
    invariant();
    for (int i = 0; i < G.nfd; i++) if (G.closed[i]) vc_cover("evicted");
    G.nfd = 0; forget();
    G.failed = vc_bool("open fails");
    if (G.failed) { G.err = (int)vc_u32("errno"); vc_assume(G.err >= 1 && G.err <= 4095); co_return std::unexpected(Error::from_errno(G.err)); }
    G.newfd = new_fd(G.id, true);
    co_return G.newfd;
}
}
VC_SPEC bool cached(u64 id, int* fd)
{
    Map& m = G.c->cache_; bool r = false;
    for (int i = 0; i < m.used; i++) if (m.s[i].key == id && m.s[i].present) { r = true; *fd = m.s[i].node->second.handle.get(); }
    return r;
}
VC_HARNESS void H_lookup()
{
    setup();
    FDCache c(*G.w, G.max); G.c = &c; forget();
    std::filesystem::path path; G.path = &path;
    Fake a; auto t = c.get_or_open(G.id, path);
    t.await_suspend(fake(&a)).resume();
    vc_assert(t.await_ready() && a.resumed == 1, "K03: a lookup ends");
    auto r = t.await_resume();
    int fd = -1; const bool in = cached(G.id, &fd);
    if (r.has_value()) {
        vc_assert(!(G.opened && G.failed), "K03: an open failure is reported");
        vc_assert(in && r.value() == fd, "K03: a lookup returns the descriptor cached for the file");
        List::Node* f = c.lru_list_.find_front();
        vc_assert(f && f->v == G.id, "K03: the file looked up last is the most recently used");
        if (!G.opened) vc_cover("hit"); else if (fd == G.newfd) vc_cover("opened"); 
    } else {
        vc_cover("failed");
        vc_assert(G.opened == 1 && G.failed && r.error() == Error::from_errno(G.err), "K03: a lookup fails only if the file cannot be opened, with that error");
    }
    invariant();
    for (int i = 0; i < G.nfd; i++) if (G.closed[i] && G.owner[i] != G.id) vc_cover("evicted after opening");
    vc_stop();
}
VC_HARNESS void H_remove()
{
    setup();
    FDCache c(*G.w, G.max); G.c = &c; forget();
    c.remove(G.id);
    int fd; vc_assert(!cached(G.id, &fd), "K03: a removed file is not cached");
    if (G.nfd) vc_cover("removed"); else vc_cover("absent");
    invariant();
    vc_stop();
}
VC_HARNESS void H_clear()
{
    setup();
    FDCache c(*G.w, G.max); G.c = &c; forget();
    // any file of the cache
    (void)c.cache_.find(G.id);
    c.clear();
    vc_assert(c.size() == 0, "K03: a cleared cache is empty");
    if (G.nfd) vc_cover("one closed");
    invariant();
    vc_stop();
}
