// Contracts of worker lookup and key routing: IOPool (kio/core/worker_pool.cpp) and BitKV (bitcask/src/bitcask.cpp).
#include "vc.h"
#include <sys/stat.h>
#include "nolog.h"
#include <memory>
#include <new>
#include <kio/core/worker_pool.cpp>
#include <bitcask/src/bitcask.cpp>
typedef uint64_t u64;
// Assumed contract of the hash functions: they read only the given bytes and return the same value for the same bytes.
char* g_key; u64 g_kn, g_hash, g_K; uint32_t g_crc;
#ifdef VC_VERIFY
VC_SPEC void same_key(const char* p, u64 n)
{
    vc_assert(n == g_kn && (n == 0 || vc_inside(p, p, n)) && (g_K >= n || p[g_K] == g_key[g_K]), "W05: routing depends on exactly the bytes of the key");
}
extern "C" __attribute__((used, noinline)) u64 C_hash(const void* p, size_t n, size_t seed) { same_key((const char*)p, n); return vc_fn("hash", g_hash, seed, 0); }
extern "C" uint32_t C_crc(const char* p, size_t n) { same_key(p, n); return g_crc; }
extern "C" __attribute__((used, noinline)) void C_nothing() {}
#endif
VC_SPEC std::string_view key()
{
    g_kn = vc_size("kn", 40); g_key = (char*)vc_region(g_kn, "key"); g_hash = vc_u64("hash"); g_crc = vc_u32("crc"); g_K = vc_size("K", 40);
    vc_ghost_ptr(g_key + g_K);
    return {g_key, g_kn};
}
// the same key somewhere else in memory
VC_SPEC std::string_view copy_of(std::string_view k) { char* p = (char*)vc_region(k.size(), "key2"); __builtin_memcpy(p, k.data(), k.size()); vc_ghost_ptr(p + g_K); return {p, k.size()}; }
// a pool of n workers; slot contents are opaque pointers
VC_SPEC kio::io::IOPool* pool(u64 n, char* slots)
{
    auto* p = (kio::io::IOPool*)vc_region(sizeof(kio::io::IOPool), "pool");
    void** v = (void**)&p->workers_; v[0] = slots; v[1] = slots + 8 * n; v[2] = slots + 8 * n;
    return p;
}
VC_HARNESS void H_get_worker()
{
    const u64 n = vc_size("n", 30), id = vc_u64("id"); char* slots = (char*)vc_region(8 * n, "slots");
    const kio::io::IOPool* p = pool(n, slots);
    vc_assert(p->num_workers() == n, "W05: the pool knows its number of workers");
    kio::io::Worker* w = p->get_worker(id);
    if (id < n) { u64 e; __builtin_memcpy(&e, slots + 8 * id, 8); vc_cover("valid"); vc_assert((u64)w == e, "W05: a valid id yields that worker"); }
    else { vc_cover("invalid"); vc_assert(w == nullptr, "W05: an invalid id yields no worker"); }
}
VC_HARNESS void H_worker_by_key()
{
    const u64 n = vc_size("n", 30); vc_assume(n > 0); char* slots = (char*)vc_region(8 * n, "slots");
    const kio::io::IOPool* p = pool(n, slots);
    const auto k = key();
    const u64 a = p->get_worker_id_by_key(k), b = p->get_worker_id_by_key(copy_of(k));
    vc_assert(a < n, "W05: a key is mapped to an existing worker");
    vc_assert(a == b, "W05: a key is always mapped to the same worker");
    vc_cover("mapped");
}
VC_HARNESS void H_partition_by_key()
{
    auto* db = (bitcask::BitKV*)vc_region(sizeof(bitcask::BitKV), "db");
    const u64 n = vc_size("n", 30); vc_assume(n > 0); char* slots = (char*)vc_region(8 * n, "slots");
    db->partition_count_ = n;
    void** v = (void**)&db->partitions_; v[0] = slots; v[1] = slots + 8 * n; v[2] = slots + 8 * n;
    const auto k = key();
    const u64 a = db->route_to_partition(k), b = db->route_to_partition(copy_of(k));
    vc_assert(a < n, "W05: a key is mapped to an existing partition");
    vc_assert(a == b, "W05: a key is always mapped to the same partition");
#ifndef VC_VERIFY
    g_crc = crc32c::Crc32c(g_key, g_kn);
#endif
    vc_assert(a == g_crc % n, "W05: the partition is the stable checksum of the key modulo the number of partitions");
    bitcask::Partition& r = db->get_partition(a);
    u64 e; __builtin_memcpy(&e, slots + 8 * a, 8);
    vc_assert((u64)&r == e, "W05: a partition id yields that partition");
    vc_cover("mapped");
}
