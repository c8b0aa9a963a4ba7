// A worker whose ring lives in plain memory; the test plays the kernel.
#pragma once
#include <liburing.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#ifndef IORING_OP_FTRUNCATE
extern "C" { static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len) { io_uring_prep_rw((io_uring_op)55, sqe, fd, 0, 0, (__u64)len); } }
#endif
#include <kio/core/worker.cpp>
using namespace kio; using namespace kio::io;
struct Ring {
    unsigned h[4] = {0, 0, 0, 0}; io_uring_sqe sqes[64]; io_uring_cqe cqes[64]; Worker* w; unsigned taken = 0;
    explicit Ring(WorkerConfig c = {}) {
        w = new Worker(0, c); io_uring& r = w->ring_; memset(&r, 0, sizeof r); memset(sqes, 0, sizeof sqes);
        r.sq.khead = h; r.sq.ktail = h + 1; r.sq.sqes = sqes; r.sq.ring_mask = 63; r.sq.ring_entries = 64;
        r.cq.khead = h + 2; r.cq.ktail = h + 3; r.cq.cqes = cqes; r.cq.ring_mask = 63; r.cq.ring_entries = 64;
        w->thread_id_.store(std::this_thread::get_id());
    }
    unsigned pending() { return w->ring_.sq.sqe_tail - taken; }
    io_uring_sqe* next() { return &sqes[taken & 63]; }
    void put(uint64_t id, int res) { io_uring_cqe& c = cqes[h[3] & 63]; c.user_data = id; c.res = res; c.flags = 0; h[3]++; }
    void complete(int res) { put(next()->user_data, res); taken++; h[0] = taken; w->process_completions(); }
};
// an awaiting coroutine that only counts
struct Waiter { void (*resume)(Waiter*); void (*destroy)(Waiter*); int n; };
inline void waiter_resume(Waiter* w) { w->n++; }
inline std::coroutine_handle<> waiter(Waiter* w) { w->resume = waiter_resume; w->destroy = waiter_resume; w->n = 0; return std::coroutine_handle<>::from_address(w); }
template <class T> void start(Task<T>& t, Waiter* w) { t.await_suspend(waiter(w)).resume(); }
#define OK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); fflush(stderr); _exit(1); } } while (0)
