// Contracts of the key-value operations of a partition (K05): one put, get or delete of an arbitrary key, on any index.
// DataFile and DataEntry are the real code; the operations of the worker (W02, W03), the descriptor cache (K03) and
// struct_pack are their contracts.  At every suspension other operations may run: appends of other keys, the relocation of
// this key's record by compaction, and, where the contract says so, operations on the same key.
#include "vc.h"
#define VC_SP_CONTRACT
#include <sys/stat.h>
#include "nolog.h"
#include <bits/stdc++.h>
#include <kio/core/worker.h>
#include <kio/core/bytes_mut.h>
namespace std {
void vc_key_used(const string&);
template <class K> struct vc_keys;
template <> struct vc_keys<string> {
    typedef int rep;     // one key: the operation's
    static int of(const string& k) { vc_key_used(k); return 0; }
    static void first(void* p, const string&) { ::new (p) string(); }
};
}
#include "containers.h"
#define unordered_map vc_map
#define list vc_list
#include <bitcask/src/entry.cpp>
#include <bitcask/src/data_file.cpp>
#include <bitcask/src/partition.cpp>
#undef unordered_map
#undef list
using namespace bitcask;
typedef uint64_t u64;
typedef uint32_t u32;
using kio::Result; using kio::Error; using kio::Task;
struct Fake { void (*resume)(Fake*); void (*destroy)(Fake*); u64 resumed; };
inline void fake_resume(Fake* f) { f->resumed++; }
inline void fake_destroy(Fake*) { vc_assert(false, "a coroutine of somebody else is destroyed"); }
VC_SPEC std::coroutine_handle<> fake(Fake* f) { f->resume = fake_resume; f->destroy = fake_destroy; f->resumed = 0; return std::coroutine_handle<>::from_address(f); }
struct Loc { bool in; u64 file, off; u32 len; u64 ts; };
struct Ghost {
    Partition* p; kio::io::Worker* w;
    char *kp, *vp; u64 kn, vn, kk, vk;          // key and value of the operation, one arbitrary position in each
    char* P; u64 Pn;                            // the encoding of its record
    Loc now;                                    // what the index says about the key
    int mode;                                   // 0 put, 1 del, 2 get
    int serialized; u64 ts;
    int written; bool fail_write; u64 file, off, len;
    int flushed; bool flush_failed, thrown; int err; bool failed;
    int opened, synced, truncated, closed; int new_fd; u64 path_id; bool newer, deleted, rotated; int overlap;
    int read; bool captured; int fd; char* rec; int decoded; bool ok; uint8_t flag;
    std::coroutine_handle<> posted;
};
static Ghost G;
VC_SPEC bool same(const char* a, u64 n, const char* b, u64 m, u64 k) { return n == m && (k >= n || a[k] == b[k]); }
namespace std {
void vc_key_used(const string& k) { vc_assert(same(k.data(), k.size(), G.kp, G.kn, G.kk), "K05: an operation touches the index entry of its own key only"); }
void vc_fresh(vc_map<string, ValueLocation>& m, const string&, ValueLocation* v)
{
    v->file_id = vc_u64("file"); v->offset = vc_size("offset", 62); v->total_size = vc_u32("length"); v->timestamp_ns = vc_u64("timestamp");
}
void vc_fresh(vc_map<u64, PartitionStats::FileStats>&, const u64&, PartitionStats::FileStats* s) { s->total_bytes = vc_u64("total"); s->live_bytes = vc_u64("live"); s->live_entries = vc_u64("entries"); }
}
typedef SimpleKeydir Index;
VC_SPEC Loc look()
{
    Index& m = G.p->keydir_;
    if (!m.s[0].present) return Loc{};
    const ValueLocation& v = m.s[0].node->second;
    return Loc{true, v.file_id, v.offset, v.total_size, v.timestamp_ns};
}
VC_SPEC bool eq(const Loc& a, const Loc& b) { return a.in == b.in && (!a.in || ((a.file == b.file) & (a.off == b.off) & (a.len == b.len) & (a.ts == b.ts))); }
VC_SPEC void set(const Loc& l) { Index& m = G.p->keydir_; if (l.in) m.s[0].node->second = ValueLocation{l.file, l.off, l.len, l.ts}; }
// other operations run: the index must be as readers may see it, and may change for the reasons others have
VC_SPEC void others()
{
    vc_assert(eq(look(), G.now), "K05: while an operation is under way the index still describes the stored version");
    // (no appends while the file is being sealed: see the known finding about rotation)
    if (!G.synced || G.opened) { const u64 s = vc_size("size", 61); vc_assume(s >= G.p->active_file_->size_); G.p->active_file_->size_ = s; }
    if (G.now.in && !G.newer) {
        const bool moved = vc_bool("moved by compaction"); const u64 f = vc_u64("compacted file"), o = vc_size("compacted offset", 62);
        vc_assume(!moved | (f != G.p->active_file_->file_id()));
        G.now.file = moved ? f : G.now.file; G.now.off = moved ? o : G.now.off; set(G.now);
    }
    if (G.mode == 2 && G.now.in && vc_bool("deleted")) { G.now = Loc{}; G.p->keydir_.drop(0); }
    if (G.mode <= 1 && G.written && !G.newer && (G.mode == 0 || G.now.in) && vc_bool("put")) {      // a later put of the same key completed
        G.newer = true; G.now = Loc{true, G.p->active_file_->file_id(), vc_size("put offset", 62), vc_u32("put length"), vc_u64("put time")};
        vc_assume(G.now.off >= G.off + G.len && G.now.off + G.now.len <= G.p->active_file_->size_);
        Index& m = G.p->keydir_; (void)m.try_emplace(std::string(G.kp, G.kn)); set(G.now);
    }
    if (G.overlap == 1 && G.written && G.now.in) { G.deleted = true; G.now = Loc{}; G.p->keydir_.drop(0); }
    if (G.overlap == 2 && G.written && !G.rotated) { G.rotated = true; G.p->active_file_ = std::make_unique<DataFile>((int)(vc_u32("rotated fd") & 0x7fffffff), vc_u64("rotated file"), *G.w, G.p->config_); }
}
VC_SPEC Error error() { return Error{kio::ErrorCategory::File, G.err}; }
VC_SPEC Result<void> answer() { others(); G.failed = vc_bool("fails"); if (G.failed) { G.err = (int)vc_u32("errno"); vc_assume(G.err >= 1 && G.err <= 4095); return std::unexpected(error()); } return {}; }
VC_SPEC void capture() { if (G.mode == 2 && !G.captured) { G.captured = true; vc_assert(G.now.in, "K05: a get reads nothing for an absent key"); G.file = G.now.file; G.off = G.now.off; G.len = G.now.len; } }
VC_SPEC u64 active_fd() { return (u64)(u32)G.p->active_file_->handle().get(); }
u32 g_crc;
extern "C" uint32_t C_crc(const char* p, size_t n) { return g_crc; }
namespace struct_pack {
template <> struct sp_contract<DataEntry> {
    static std::vector<char> serialize(const DataEntry& e)
    {
        vc_assert(same(e.key.data(), e.key.size(), G.kp, G.kn, G.kk), "K05: the record written names the key");
        vc_assert(G.mode == 1 ? e.is_tombstone() : !e.is_tombstone(), "K05: a delete writes a tombstone, a put does not");
        vc_assert(G.mode == 1 || same(e.value.data(), e.value.size(), G.vp, G.vn, G.vk), "K05: the record written carries the value");
        vc_assert(G.mode != 2, "K05: a get writes nothing");
        G.serialized++; G.ts = e.timestamp_ns;
        return std::vector<char>(G.P, G.P + G.Pn);
    }
    static void serialize_to(std::vector<char>&, const DataEntry&) { __builtin_trap(); }
    static size_t needed(const DataEntry&) { return 1; }
    static bool deserialize(const char* p, size_t n, DataEntry& e)
    {
        vc_assert(G.mode == 2 && G.read == 1 && n + 12 <= G.len, "K05: a get decodes the record it read");
        if (G.kk < n) vc_assert(p[G.kk] == G.rec[12 + G.kk], "K05: a get decodes the record it read");
        G.decoded++; G.ok = vc_bool("decodable");
        if (!G.ok) return false;
        e.flag = G.flag; e.value.assign(G.vp, G.vp + G.vn);
        return true;
    }
};
}
VC_SPEC void path_used(const std::filesystem::path& p)     // natively the path is real: read the id back
{
#ifdef VC_NATIVE
    const std::string f = p.filename().string(); G.path_id = std::stoull(f.substr(f.find('_') + 1));
#endif
}
namespace kio::io {
bool Worker::is_on_worker_thread() const { return G.mode == 1 ? vc_bool("on the worker thread") : G.mode == 0; }
void Worker::post(std::coroutine_handle<> h) { vc_assert(this == G.w && !G.posted, "K05: an operation moves to its worker once"); G.posted = h; }
Task<Result<void>> Worker::async_write_exact_at(int fd, std::span<const char> buf, uint64_t offset)
{
    vc_assert(this == G.w && (u64)(u32)fd == active_fd() && G.written == 0, "K05: the record is written once, to the active file");
    vc_assert(buf.size() == G.Pn + 12, "K05: the whole record is written");
    G.written = 1; G.file = G.p->active_file_->file_id(); G.off = offset; G.len = buf.size();
    if (G.new_fd >= 0) vc_assert(fd == G.new_fd && G.file == G.path_id, "K05: after a rotation the record goes to the new file");
    const auto r = answer(); G.fail_write = G.failed;
    if (vc_bool("exhausted")) { G.thrown = true; throw std::runtime_error("no operation slot"); }
    co_return r;
}
Task<Result<void>> Worker::async_fdatasync(int fd)
{
    vc_assert(this == G.w && (u64)(u32)fd == active_fd(), "K05: the active file is flushed");
    capture(); G.flushed++;
    const auto r = answer(); G.flush_failed = G.failed;
    co_return r;
}
Task<Result<void>> Worker::async_fsync(int fd)
{
    vc_assert(this == G.w && (u64)(u32)fd == active_fd() && G.written == 0 && G.synced == 0, "K05: the file is flushed before it is sealed");
    G.synced++; G.off = G.p->active_file_->size_;
    co_return answer();
}
Task<Result<void>> Worker::async_ftruncate(int fd, off_t n)
{
    vc_assert(this == G.w && (u64)(u32)fd == active_fd() && G.synced == 1, "K05: a sealed file is cut at its end");
    vc_assert((u64)n == G.off, "K05: a sealed file keeps all its records");
    G.truncated++;
    G.failed = vc_bool("fails"); if (G.failed) { G.err = (int)vc_u32("errno"); vc_assume(G.err >= 1 && G.err <= 4095); co_return std::unexpected(error()); }
    co_return {};
}
Task<Result<void>> Worker::async_close(int fd)
{
    vc_assert(this == G.w && G.synced == 1 && G.closed == 0, "K05: a sealed file is closed once");
    G.closed++;
    G.failed = vc_bool("fails"); if (G.failed) { G.err = (int)vc_u32("errno"); vc_assume(G.err >= 1 && G.err <= 4095); co_return std::unexpected(error()); }
    co_return {};
}
Task<Result<int>> Worker::async_openat(std::filesystem::path path, int flags, mode_t mode)
{
    vc_assert(this == G.w && G.opened == 0 && G.mode == 0, "K05: one new file is opened when the active one is full");
    vc_assert((flags & O_ACCMODE) != O_RDONLY && (flags & O_CREAT) && !(flags & O_TRUNC), "K05: the new active file is created for writing");
    G.opened++; path_used(path);
    vc_assume(!G.now.in | (G.now.file != G.path_id));                      // K02: ids of new files are new
    G.failed = vc_bool("fails"); if (G.failed) { G.err = (int)vc_u32("errno"); vc_assume(G.err >= 1 && G.err <= 4095); co_return std::unexpected(error()); }
    G.new_fd = (int)(vc_u32("new fd") & 0x7fffffff);
    co_return G.new_fd;
}
Task<Result<void>> Worker::async_fallocate(int fd, int mode, off_t size)
{
    G.failed = false;
    if (vc_bool("no space")) co_return std::unexpected(Error{kio::ErrorCategory::File, 28});
    co_return {};
}
Task<Result<void>> Worker::async_read_exact_at(int fd, std::span<char> buf, uint64_t offset)
{
    vc_assert(this == G.w && G.mode == 2 && G.read == 0 && fd == G.fd && G.opened == 1, "K05: a get reads the file the index names");
    vc_assert(offset == G.off && buf.size() == G.len, "K05: a get reads the record the index names");
    G.read++;
    const auto r = answer();
    G.rec = (char*)vc_region(G.len, "record");
    memcpy(buf.data(), G.rec, G.len);
    co_return r;
}
}
namespace bitcask {
Task<Result<int>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
{
    path_used(path);
    vc_assert(this == &G.p->fd_cache_ && G.mode == 2 && G.opened == 0, "K05: a get opens one file");
    capture();
    vc_assert(file_id == G.file && G.path_id == file_id, "K05: a get opens the file the index names");
    vc_assert(file_id != G.p->active_file_->file_id() || (G.flushed == 1 && !G.flush_failed), "K05: the active file is flushed before it is read");
    G.opened++;
    const auto r = answer();
    if (!r) co_return std::unexpected(r.error());
    G.fd = (int)(vc_u32("read fd") & 0x7fffffff);
    co_return G.fd;
}
}
#ifdef VC_NATIVE
extern "C" bool vc_active();
extern "C" int close(int fd) { if (!vc_active()) return 0;
#else
extern "C" __attribute__((used)) u64 C_now() { return vc_u64("now"); }
extern "C" __attribute__((used)) void C_path(std::filesystem::path* out, const Partition*, u64 id) { G.path_id = id; }
extern "C" __attribute__((used)) int C_close(int fd) {
#endif
    return 0;
}
static BitcaskConfig* g_cfg;
VC_SPEC Partition* setup(int mode)
{
    G = Ghost{}; G.mode = mode; G.new_fd = -1; G.fd = -1;
    G.w = (kio::io::Worker*)vc_region(sizeof(kio::io::Worker), "worker");
    G.kn = vc_size("key", 40); G.kp = (char*)vc_region(G.kn, "key"); G.kk = vc_u64("kk"); vc_assume(G.kn == 0 || G.kk < G.kn);
    G.vn = vc_size("value", 40); G.vp = (char*)vc_region(G.vn, "value"); G.vk = vc_u64("vk");
    G.Pn = vc_size("payload", 31); vc_assume(G.Pn >= 8); G.P = (char*)vc_region(G.Pn, "payload"); g_crc = vc_u32("crc"); G.flag = vc_u8("flag");
    g_cfg = new BitcaskConfig(); g_cfg->sync_on_write = vc_bool("sync on write"); g_cfg->max_file_size = vc_u64("max file size");
    Partition* p = new Partition(*g_cfg, *G.w, vc_u16("partition")); G.p = p;
    p->active_file_ = std::make_unique<DataFile>((int)(vc_u32("active fd") & 0x7fffffff), vc_u64("active file"), *G.w, p->config_);
    p->active_file_->size_ = G.off = vc_size("end", 60);
    p->keydir_.unknown = vc_size("keys", 40);
    // what the index says about the key before the operation
    (void)p->keydir_.at_slot(std::string(G.kp, G.kn));
    G.now = look();
    vc_assume(!G.now.in || (G.now.file != p->active_file_->file_id()) | (G.now.off + G.now.len <= G.off));   // invariant: records of the active file end before its end
    return p;
}
template <class T> VC_SPEC void run(Task<T>& t, Fake& a)
{
    t.await_suspend(fake(&a)).resume();
    if (G.posted) {  others(); auto h = G.posted; h.resume(); }
    vc_assert(t.await_ready() && a.resumed == 1, "K05: an operation ends when its last step ends");
}
VC_SPEC void put(bool full, bool longkey, int overlap = 0)
{
    Partition* p = setup(0); G.overlap = overlap;
    vc_assume((g_cfg->max_file_size <= G.off) == full); vc_assume((G.kn > 15) == longkey);
    std::string key(G.kp, G.kn); std::vector<char> value(G.vp, G.vp + G.vn);
    Fake a; auto t = p->put(std::move(key), std::move(value));
    run(t, a);
    try {
        auto r = t.await_resume();
        if (r.has_value()) {
            if (G.newer) vc_cover("overtaken"); else vc_cover("put");
            vc_assert(G.written == 1 && !G.fail_write && !G.thrown && !G.flush_failed, "K05: a put succeeds only if its record was written");
            if (G.deleted) vc_assert(!look().in, "K05: a put overtaken by a delete of its key does not bring the key back");
            else if (G.newer) vc_assert(eq(look(), G.now), "K05: a put overtaken by a later put of its key leaves the newer version");
            else vc_assert(eq(look(), Loc{true, G.file, G.off, (u32)G.len, G.ts}), "K05: after a put the index names exactly the record just appended");
            vc_assert(G.off + G.len <= p->active_file_->size_, "K05: records of the active file end before its end");
            vc_assert((G.opened == 1) == full, "K05: the active file is rotated exactly when it is full");
            return vc_stop();
        }
        vc_cover("failed");
        vc_assert(G.failed && r.error() == error(), "K05: a put fails only if a step failed, with that error");
    } catch (const std::runtime_error&) { vc_cover("threw"); vc_assert(G.thrown, "K05: a put throws only what the worker threw"); }
    vc_assert(eq(look(), G.now), "K05: a failed put leaves the index as it was");
    vc_stop();
}
VC_HARNESS void H_put_room() { put(false, true); }
VC_HARNESS void H_put_room_short_key() { put(false, false); }
VC_HARNESS void H_put_full() { put(true, true); }
VC_HARNESS void H_put_full_short_key() { put(true, false); }
// known findings: a delete of the same key, or a rotation, overlaps the append
VC_HARNESS void K_put_deleted() { put(false, true, 1); }
VC_HARNESS void K_put_rotated() { put(false, true, 2); }
VC_HARNESS void H_del()
{
    Partition* p = setup(1);
    const bool was = G.now.in;
    const std::string key(G.kp, G.kn);
    Fake a; auto t = p->del(key);
    run(t, a);
    try {
        auto r = t.await_resume();
        if (r.has_value()) {
            if (!was) { vc_cover("nothing to delete"); vc_assert(G.written == 0, "K05: deleting an absent key writes nothing"); }
            else {
                vc_assert(G.written == 1 && !G.fail_write && !G.thrown && !G.flush_failed, "K05: a delete succeeds only if its tombstone was written");
                if (G.newer) vc_cover("overtaken"); else vc_cover("deleted");
            }
            if (G.newer) vc_assert(eq(look(), G.now), "K05: a value put after the delete stays");
            else vc_assert(!look().in, "K05: after a delete the key is absent");
            return vc_stop();
        }
        vc_cover("failed");
        vc_assert(G.failed && r.error() == error(), "K05: a delete fails only if a step failed, with that error");
    } catch (const std::runtime_error&) { vc_cover("threw"); vc_assert(G.thrown, "K05: a delete throws only what the worker threw"); }
    vc_assert(eq(look(), G.now), "K05: a failed delete leaves the index as it was");
    vc_stop();
}
VC_HARNESS void H_get()
{
    Partition* p = setup(2);
    const std::string key(G.kp, G.kn);
    Fake a; auto t = p->get(key);
    run(t, a);
    try {
        auto r = t.await_resume();
        if (!r.has_value()) {
            vc_cover("failed");
            vc_assert(G.captured, "K05: a get of an absent key does not fail");
            if (G.failed) vc_assert(r.error() == error(), "K05: a get reports the error of the step that failed");
            else vc_assert(G.read == 1 && !(G.decoded && G.ok), "K05: a get fails only if a step failed or the record is damaged");
        } else if (!r->has_value()) {
            if (!G.captured) { vc_cover("absent"); vc_assert(!look().in, "K05: a get finds nothing only if the key is absent"); }
            else { vc_cover("tombstone"); vc_assert(G.decoded && G.ok && (G.flag & kFlagTombstone), "K05: a get hides a record only if it is a tombstone"); }
        } else {
            vc_cover("value");
            vc_assert(G.read == 1 && !G.failed && G.decoded == 1 && G.ok && !(G.flag & kFlagTombstone), "K05: a get returns only a value it read");
            vc_assert(same((*r)->data(), (*r)->size(), G.vp, G.vn, G.vk), "K05: a get returns the value of the record the index names");
        }
    } catch (const std::runtime_error&) { vc_assert(G.thrown, "K05: a get throws only what the worker threw"); }
    vc_assert(eq(look(), G.now), "K05: a get leaves the index as it was");
    vc_stop();
}
