// Contracts of DataFile (K04).  The operations of the worker are replaced by their contracts (W02, W03): any failure, and
// while one is under way other appends to the same file may run.  What they do is what this contract lets them do.
#include "vc.h"
#include <sys/stat.h>
#include "nolog.h"
#include <bitcask/src/data_file.cpp>
using namespace bitcask;
typedef uint64_t u64;
typedef uint32_t u32;
struct Fake { void (*resume)(Fake*); void (*destroy)(Fake*); u64 resumed; };
inline void fake_resume(Fake* f) { f->resumed++; }
inline void fake_destroy(Fake*) { vc_assert(false, "a coroutine of somebody else is destroyed"); }
VC_SPEC std::coroutine_handle<> fake(Fake* f) { f->resume = fake_resume; f->destroy = fake_destroy; f->resumed = 0; return std::coroutine_handle<>::from_address(f); }
struct Ghost {
    DataFile* f; io::Worker* w; const DataEntry* entry; char* bytes; u64 n; int fd; u64 off;
    int serialized, written, synced, closed; bool fail_write, fail_sync, fail_close, thrown; int err; u64 size;
};
static Ghost G;
static const u64 kLimit = 1ull << 62;
// other appends: they claim ranges behind everything claimed so far, and give back only what they claimed
VC_SPEC void others()
{
    vc_assert(G.f->size_ == G.size, "K04: the end of the file moves only by the length of the record");
    const u64 s = vc_size("size", 61); vc_assume(s >= G.off + G.n);
    G.f->size_ = G.size = s;
}
VC_SPEC Result<void> answer(bool failed) { if (failed) { G.err = (int)vc_u32("errno"); vc_assume(G.err >= 1 && G.err <= 4095); return std::unexpected(Error::from_errno(G.err)); } return {}; }
std::vector<char> DataEntry::serialize() const
{
    vc_assert(this == G.entry, "K04: the record written is the entry given");
    G.serialized++;
    return std::vector<char>(G.bytes, G.bytes + G.n);
}
static u64 g_k;
namespace kio::io {
Task<Result<void>> Worker::async_write_exact_at(int fd, std::span<const char> buf, uint64_t offset)
{
    vc_assert(this == G.w && fd == G.fd, "K04: a record is written to the file's own descriptor");
    vc_assert(G.written == 0 && G.synced == 0, "K04: a record is written once");
    vc_assert(offset == G.off, "K04: a record is written at the end of the file");
    vc_assert(buf.size() == G.n, "K04: the whole record is written");
    if (g_k < G.n && g_k < buf.size()) vc_assert(buf[g_k] == G.bytes[g_k], "K04: the bytes written are those of the record");
    vc_assert(G.f->size_ == G.off + G.n, "K04: the range of a record is claimed before anybody else can append");
    G.size = G.off + G.n; G.written = 1;
    others();
    if (vc_bool("exhausted")) { G.thrown = true; throw std::runtime_error("no operation slot"); }
    G.fail_write = vc_bool("write fails");
    co_return answer(G.fail_write);
}
Task<Result<void>> Worker::async_fdatasync(int fd)
{
    vc_assert(this == G.w && fd == G.fd, "K04: the file's own descriptor is flushed");
    vc_assert(G.written == 1 && !G.fail_write, "K04: a record is flushed after it was written");
    G.synced++;
    others();
    if (vc_bool("exhausted")) { G.thrown = true; throw std::runtime_error("no operation slot"); }
    G.fail_sync = vc_bool("sync fails");
    co_return answer(G.fail_sync);
}
Task<Result<void>> Worker::async_close(int fd)
{
    vc_assert(this == G.w && fd == G.fd && G.closed == 0, "K04: the file's descriptor is closed once");
    G.closed++;
    G.fail_close = vc_bool("close fails");
    co_return answer(G.fail_close);
}
}
#ifdef VC_NATIVE
extern "C" bool vc_active();
extern "C" int close(int fd) { if (!vc_active()) return 0;
#else
extern "C" __attribute__((used)) int C_close(int fd) {
#endif
    vc_assert(fd == G.fd && G.closed == 0, "K04: the file's descriptor is closed once");
    G.closed++;
    return 0;
}
#ifndef VC_NATIVE
extern "C" __attribute__((used)) u64 C_now() { return vc_u64("now"); }
#endif
static BitcaskConfig* g_cfg;
VC_SPEC DataFile* setup()
{
    G = Ghost{};
    G.w = (io::Worker*)vc_region(sizeof(io::Worker), "worker");
    g_cfg = (BitcaskConfig*)vc_region(sizeof(BitcaskConfig), "config");
    g_cfg->sync_on_write = vc_bool("sync on write");
    G.fd = (int)vc_u32("fd");
    return nullptr;
}
template <class T> VC_SPEC void run(Task<T>& t, Fake& a)
{
    t.await_suspend(fake(&a)).resume();
    vc_assert(t.await_ready() && a.resumed == 1, "K04: the operation ends when its last step ends");
}
VC_HARNESS void H_append()
{
    setup(); vc_assume(G.fd >= 0);
    {
        DataFile f(G.fd, vc_u64("id"), *G.w, *g_cfg); G.f = &f;
        vc_assert(f.size() == 0, "K04: a new data file is empty");
        f.size_ = G.off = G.size = vc_size("end", 60);
        G.n = vc_size("len", 32); vc_assume(G.n > 0); G.bytes = (char*)vc_region(G.n, "record"); g_k = vc_u64("k");
        alignas(DataEntry) char mem[sizeof(DataEntry)]; G.entry = (DataEntry*)mem;
        Fake a; auto t = f.async_write(*G.entry);
        run(t, a);
        bool threw = false;
        try {
            auto r = t.await_resume();
            vc_assert(!G.thrown, "K04: an exception of the worker reaches the caller");
            if (r.has_value()) {
                vc_cover("appended");
                vc_assert(G.written == 1 && !G.fail_write, "K04: an append succeeds only if the record was written");
                vc_assert(G.synced == (g_cfg->sync_on_write ? 1 : 0) && !G.fail_sync, "K04: a record is flushed before its append succeeds if so configured");
                vc_assert(r->first == G.off && r->second == G.n, "K04: an append returns the offset and length of the record");
                vc_assert(f.size() == G.size && f.size() >= G.off + G.n, "K04: after an append the end of the file lies behind the record");
                if (G.size == G.off + G.n) vc_cover("alone");
            } else {
                vc_cover("failed");
                vc_assert(G.fail_write || G.fail_sync, "K04: an append fails only if writing or flushing failed");
                vc_assert(r.error() == Error::from_errno(G.err), "K04: a failed append returns the error");
            }
        } catch (const std::runtime_error&) { threw = true; vc_cover("threw"); vc_assert(G.thrown, "K04: an append throws only what the worker threw"); }
        if (threw || G.fail_write || G.fail_sync)
            vc_assert(f.size() == (G.size == G.off + G.n ? G.off : G.size), "K04: a failed append does not move the end of the file and disturbs no other append");
        vc_cover("end");
    }
    vc_assert(G.closed == 1, "K04: the file's descriptor is closed once");
}
VC_HARNESS void H_close()
{
    setup(); vc_assume(G.fd >= 0);
    {
        DataFile f(G.fd, vc_u64("id"), *G.w, *g_cfg); G.f = &f;
        Fake a; auto t = f.async_close(); run(t, a);
        auto r = t.await_resume();
        vc_assert(r.has_value() == !G.fail_close && G.closed == 1, "K04: closing a file closes its descriptor and reports a failure");
        if (!r.has_value()) { vc_cover("failed"); vc_assert(r.error() == Error::from_errno(G.err), "K04: a failed close returns the error"); }
        else vc_cover("closed");
        auto t2 = f.async_close(); run(t2, a);
        vc_assert(t2.await_resume().has_value() && G.closed == 1, "K04: closing a closed file does nothing");
    }
    vc_assert(G.closed == 1, "K04: the file's descriptor is closed once");
}
VC_HARNESS void H_open()
{
    setup();
    const u64 id = vc_u64("id");
    bool threw = false;
    try {
        DataFile f(G.fd, id, *G.w, *g_cfg);
        vc_assert(G.fd >= 0 && f.size() == 0 && f.file_id() == id && f.handle().get() == G.fd, "K04: a new data file is empty and owns its descriptor");
        vc_cover("opened");
        f.size_ = vc_u64("end");
        const u64 lim = vc_u64("limit");
        vc_assert(f.should_rotate(lim) == (f.size_ >= lim), "K04: rotation is asked for exactly when the size has reached the limit");
        if (f.should_rotate(lim)) vc_cover("rotate"); else vc_cover("room");
        DataFile g(std::move(f));
        vc_assert(g.size() == f.size_ && g.handle().get() == G.fd && !f.handle().is_valid() && g.file_id() == id, "K04: a moved data file keeps end and descriptor");
    } catch (const std::invalid_argument&) { threw = true; vc_cover("refused"); }
    vc_assert(threw == (G.fd < 0), "K04: only an open descriptor makes a data file");
    vc_assert(G.closed == (threw ? 0 : 1), "K04: the file's descriptor is closed once");
}
