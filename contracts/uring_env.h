// Environment of the coroutine contracts: a Worker in an arbitrary state whose ring lives in plain memory.
// The kernel side is played by the contract: it looks at the submission entries the real code filled in and answers with
// completion entries that the real Worker::process_completions consumes.
#pragma once
#include "vc.h"
#include <liburing.h>
#include <sys/stat.h>
#include "nolog.h"
#include <new>
#include <cassert>
#include <cerrno>
// liburing 2.5 has no ftruncate helper (the project expects 2.6): same preparation as liburing 2.6
#if !defined(VC_HAVE_FTRUNCATE)
extern "C" {
#ifndef IORING_OP_FTRUNCATE
#define VC_OP_FTRUNCATE 55
#endif
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len) { io_uring_prep_rw((io_uring_op)VC_OP_FTRUNCATE, sqe, fd, 0, 0, (__u64)len); }
}
#endif
#include <kio/core/worker.cpp>
typedef uint64_t u64;
typedef uint32_t u32;
using kio::io::Worker;
using kio::Task;
using kio::Result;
using kio::Error;
#ifdef VC_NATIVE
extern "C" bool vc_active();
#endif
// ---- a coroutine that is not under contract: its frame is two function pointers, being resumed is observed
struct Fake { void (*resume)(Fake*); void (*destroy)(Fake*); u64 resumed; };
inline void fake_resume(Fake* f) { f->resumed++; }
inline void fake_destroy(Fake*) { vc_assert(false, "a coroutine of somebody else is destroyed"); }
VC_SPEC std::coroutine_handle<> fake(Fake* f) { f->resume = fake_resume; f->destroy = fake_destroy; f->resumed = 0; return std::coroutine_handle<>::from_address(f); }
// ---- a worker: nslots operation slots, free ids fr[0..nfree)
struct Env { Worker* w; io_uring_sqe* sqes; io_uring_cqe* cqes; unsigned* heads; char* slots; char* fr; u64 nslots, nfree; };
VC_SPEC Env worker_env(u64 nslots, u64 nfree, u64 capfree)
{
    Env e;
    e.w = (Worker*)vc_region(sizeof(Worker), "worker");
    e.nslots = nslots; e.nfree = nfree;
    e.slots = (char*)vc_region(16 * nslots, "slots"); e.fr = (char*)vc_region(8 * capfree, "free");
    char** v = (char**)&e.w->op_data_pool_; v[0] = e.slots; v[1] = e.slots + 16 * nslots; v[2] = v[1];
    v = (char**)&e.w->free_op_ids; v[0] = e.fr; v[1] = e.fr + 8 * nfree; v[2] = e.fr + 8 * capfree;
    e.heads = (unsigned*)vc_region(16, "ringheads");   // sq head, sq tail, cq head, cq tail
    e.sqes = (io_uring_sqe*)vc_region(64 * 4, "sqes"); e.cqes = (io_uring_cqe*)vc_region(16 * 4, "cqes");
    io_uring& r = e.w->ring_;
    r.flags = 0; r.features = 0;
    r.sq.khead = &e.heads[0]; r.sq.ktail = &e.heads[1]; r.sq.sqes = e.sqes; r.sq.ring_mask = 3; r.sq.ring_entries = 4;
    r.cq.khead = &e.heads[2]; r.cq.ktail = &e.heads[3]; r.cq.cqes = e.cqes; r.cq.ring_mask = 3; r.cq.ring_entries = 4;
    return e;
}
