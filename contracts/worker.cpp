// Contracts of the single operations of kio::io::Worker: what reaches the kernel, what comes back to the caller.
#include "uring_env.h"
static Env E; static Fake g_awaiter; static int g_sys; static int g_res; static bool g_full, g_exhausted; static u64 g_id; static u32 g_tail, g_chead;
// what a successful operation adds to the statistics: bytes read/written (the result), operations
struct Adds { bool rd, wr, acc, opn, con; };
static kio::io::WorkerStats g_st;
VC_SPEC void op_env()
{
    g_awaiter.resumed = 0; g_res = 0;
    const u64 n = vc_size("nslots", 20); vc_assume(n >= 1);
    g_exhausted = vc_bool("exhausted"); g_full = vc_bool("sqfull");
    g_id = vc_u64("id"); vc_assume(g_id < n);
    E = worker_env(n, g_exhausted ? 0 : 1, 2);
    if (!g_exhausted) __builtin_memcpy(E.fr, &g_id, 8);
    E.w->config_.max_op_slots = n;
    g_tail = vc_u32("sqtail"); g_chead = vc_u32("cqhead");
    E.w->ring_.sq.sqe_tail = g_tail; E.heads[0] = g_full ? g_tail - 4 : g_tail; E.heads[2] = g_chead; E.heads[3] = g_chead;
    g_st = E.w->stats_;
}
VC_SPEC u64 free_count() { return E.w->free_op_ids.size(); }
// starts the task as an awaiting coroutine would and plays the kernel for its one operation
template <class T, class CheckSqe> VC_SPEC void run_op(Task<T>& t, const CheckSqe& check)
{
    const u32 before = E.w->ring_.sq.sqe_tail;
    vc_assert(before == g_tail && g_awaiter.resumed == 0, "C01: a task does nothing before it is awaited");
    t.await_suspend(fake(&g_awaiter)).resume();
    if (t.await_ready()) return;
    // suspended: exactly one submission entry was taken and it names a slot that was free
    vc_assert(!g_full && !g_exhausted && E.w->ring_.sq.sqe_tail == g_tail + 1, "W03: a pending operation is one that was handed to the kernel");
    vc_assert(free_count() == 0, "W01: the slot of a pending operation is not free");
    io_uring_sqe* s = &E.sqes[g_tail & 3];
    vc_assert(s->user_data == g_id, "W01: an operation is tagged with the slot it was given");
    check(s);
    vc_assert(g_awaiter.resumed == 0, "C01: a pending task does not resume its awaiter");
    // the kernel completes it
    g_res = (int)vc_u32("res"); vc_assume(g_res >= -4095);
    E.heads[0] = g_tail + 1;
    io_uring_cqe* c = &E.cqes[g_chead & 3];
    c->user_data = g_id; c->res = g_res; c->flags = vc_u32("cflags");
    E.heads[3] = g_chead + 1;
    E.w->process_completions();
    vc_assert(E.heads[2] == g_chead + 1, "W03: a completion is consumed exactly once");
    vc_assert(t.await_ready(), "W03: the operation completes when the kernel completes it");
    u64 back = 0; if (free_count() == 1) __builtin_memcpy(&back, E.w->free_op_ids.data(), 8);
    vc_assert(free_count() == 1 && back == g_id, "W01: the slot is released exactly once when the operation is over");
}
VC_SPEC void stats_grew(Adds a)
{
    const kio::io::WorkerStats& s = E.w->stats_;
    const u64 r = (u64)g_res;
    vc_assert(s.bytes_read_total == g_st.bytes_read_total + (a.rd ? r : 0) && s.read_ops_total == g_st.read_ops_total + a.rd, "W03: the read statistics grow by exactly what was read");
    vc_assert(s.bytes_written_total == g_st.bytes_written_total + (a.wr ? r : 0) && s.write_ops_total == g_st.write_ops_total + a.wr, "W03: the write statistics grow by exactly what was written");
    vc_assert(s.connections_accepted_total == g_st.connections_accepted_total + a.acc && s.open_ops_total == g_st.open_ops_total + a.opn && s.connect_ops_total == g_st.connect_ops_total + a.con, "W03: every operation is counted exactly once");
}
VC_SPEC bool not_submitted()
{
    vc_assert(E.w->ring_.sq.sqe_tail == g_tail, "W01: an operation that was not started leaves nothing in the submission queue");
    vc_assert(free_count() == (g_exhausted ? 0 : 1), "W01: an operation that was not started keeps no slot");
    return true;
}
template <class T> VC_SPEC void check_result(Task<T>& t, Adds a = {})
{
    vc_assert(t.await_ready() && g_awaiter.resumed == 1, "C01: the awaiter of a finished task is resumed exactly once");
    try {
        T r = t.await_resume();
        if (g_full) { not_submitted(); stats_grew({}); vc_cover("full"); vc_assert(!r.has_value() && r.error().value == EAGAIN, "W03: without room in the submission queue the operation reports EAGAIN"); return; }
        vc_assert(!g_exhausted, "W03: without a free slot no operation succeeds");
        if (g_res < 0) { stats_grew({}); vc_cover("failed"); vc_assert(!r.has_value() && r.error().value == -g_res && r.error().category == Error::from_errno(-g_res).category, "W03: a failed operation reports the errno of the kernel"); }
        else {
            stats_grew(a); vc_cover("succeeded"); vc_assert(r.has_value(), "W03: a successful operation is reported as success");
            if constexpr (!std::is_void_v<typename T::value_type>) if (r.has_value()) vc_assert((int)*r == g_res, "W03: the result is the one the kernel reported");
        }
    } catch (const std::runtime_error&) { vc_cover("exhausted"); vc_assert(g_exhausted, "W03: an operation throws only when the slots are exhausted"); not_submitted(); stats_grew({}); }
}
#define IS(OP, FD) vc_assert(s->opcode == (OP) && s->fd == (FD), "W03: the kernel is asked for this operation on this descriptor")
#define COVERS vc_cover("succeeded"); vc_cover("failed"); vc_cover("full"); vc_cover("exhausted")
#define ASKS(C) vc_assert(C, "W03: the kernel is asked for exactly what the caller asked for")
VC_SPEC void in_buffer(io_uring_sqe* s, const char* buf, u64 len, u64 off)
{
    vc_assert(s->addr == (u64)buf && s->len <= len && s->off == off && (len == 0 || s->len > 0), "W03: the transfer stays inside the caller's buffer and starts at the requested offset");
    vc_assert(len > 0x7ffff000 || s->len == len, "W03: the whole request is handed to the kernel");
}
VC_HARNESS void H_read_at()
{
    op_env();
    const int fd = (int)vc_u32("fd"); const u64 len = vc_size("len", 40), off = vc_u64("off"); char* buf = (char*)vc_region(len, "buf");
    auto t = E.w->async_read_at(fd, std::span<char>(buf, len), off);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_READ, fd); in_buffer(s, buf, len, off); });
    check_result(t, {.rd = true}); COVERS;
}
VC_HARNESS void H_read()
{
    op_env();
    const int fd = (int)vc_u32("fd"); const u64 len = vc_size("len", 40); char* buf = (char*)vc_region(len, "buf");
    auto t = E.w->async_read(fd, std::span<char>(buf, len));
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_READ, fd); in_buffer(s, buf, len, ~0ull); });
    check_result(t, {.rd = true}); COVERS;
}
VC_HARNESS void H_write_at()
{
    op_env();
    const int fd = (int)vc_u32("fd"); const u64 len = vc_size("len", 40), off = vc_u64("off"); char* buf = (char*)vc_region(len, "buf");
    auto t = E.w->async_write_at(fd, std::span<const char>(buf, len), off);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_WRITE, fd); in_buffer(s, buf, len, off); });
    check_result(t, {.wr = true}); COVERS;
}
VC_HARNESS void H_write()
{
    op_env();
    const int fd = (int)vc_u32("fd"); const u64 len = vc_size("len", 40); char* buf = (char*)vc_region(len, "buf");
    auto t = E.w->async_write(fd, std::span<const char>(buf, len));
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_WRITE, fd); in_buffer(s, buf, len, ~0ull); });
    check_result(t, {.wr = true}); COVERS;
}
VC_HARNESS void H_readv()
{
    op_env();
    const int fd = (int)vc_u32("fd"), n = (int)vc_u32("n"); const u64 off = vc_u64("off"); const iovec* v = (const iovec*)vc_region(64, "iov");
    auto t = E.w->async_readv(fd, v, n, off);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_READV, fd); ASKS(s->addr == (u64)v && s->len == (u32)n && s->off == off); });
    check_result(t, {.rd = true}); COVERS;
}
VC_HARNESS void H_writev()
{
    op_env();
    const int fd = (int)vc_u32("fd"), n = (int)vc_u32("n"); const u64 off = vc_u64("off"); const iovec* v = (const iovec*)vc_region(64, "iov");
    auto t = E.w->async_writev(fd, v, n, off);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_WRITEV, fd); ASKS(s->addr == (u64)v && s->len == (u32)n && s->off == off); });
    check_result(t, {.wr = true}); COVERS;
}
VC_HARNESS void H_accept()
{
    op_env();
    const int fd = (int)vc_u32("fd"); sockaddr* a = (sockaddr*)vc_region(128, "addr"); socklen_t* n = (socklen_t*)vc_region(4, "alen");
    auto t = E.w->async_accept(fd, a, n);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_ACCEPT, fd); ASKS(s->addr == (u64)a && s->addr2 == (u64)n && s->accept_flags == 0 && s->file_index == 0); });
    check_result(t, {.acc = true}); COVERS;
}
VC_HARNESS void H_connect()
{
    op_env();
    const int fd = (int)vc_u32("fd"); sockaddr* a = (sockaddr*)vc_region(128, "addr"); const socklen_t n = vc_u32("alen");
    auto t = E.w->async_connect(fd, a, n);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_CONNECT, fd); ASKS(s->addr == (u64)a && s->off == n); });
    check_result(t, {.con = true}); COVERS;
}
VC_HARNESS void H_sendmsg()
{
    op_env();
    const int fd = (int)vc_u32("fd"), fl = (int)vc_u32("fl"); const msghdr* m = (const msghdr*)vc_region(64, "msg");
    auto t = E.w->async_sendmsg(fd, m, fl);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_SENDMSG, fd); ASKS(s->addr == (u64)m && s->msg_flags == (u32)fl); });
    check_result(t, {.wr = true}); COVERS;
}
VC_HARNESS void H_fallocate()
{
    op_env();
    const int fd = (int)vc_u32("fd"), mode = (int)vc_u32("mode"); const u64 n = vc_u64("n");
    auto t = E.w->async_fallocate(fd, mode, (off_t)n);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_FALLOCATE, fd); ASKS(s->addr == n && s->len == (u32)mode && s->off == 0); });
    check_result(t); COVERS;
}
VC_HARNESS void H_ftruncate()
{
    op_env();
    const int fd = (int)vc_u32("fd"); const u64 n = vc_u64("n");
    auto t = E.w->async_ftruncate(fd, (off_t)n);
    run_op(t, [&](io_uring_sqe* s) { IS(VC_OP_FTRUNCATE, fd); ASKS(s->off == n); });
    check_result(t); COVERS;
}
VC_HARNESS void H_poll()
{
    op_env();
    const int fd = (int)vc_u32("fd"), ev = (int)vc_u32("ev");
    auto t = E.w->async_poll(fd, ev);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_POLL_ADD, fd); ASKS(s->poll32_events == (u32)ev && s->len == 0); });
    check_result(t); COVERS;
}
VC_HARNESS void H_close()
{
    op_env();
    const int fd = (int)vc_u32("fd");
    auto t = E.w->async_close(fd);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_CLOSE, fd); ASKS(s->file_index == 0); });
    check_result(t); COVERS;
}
VC_HARNESS void H_fsync()
{
    op_env();
    const int fd = (int)vc_u32("fd");
    auto t = E.w->async_fsync(fd);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_FSYNC, fd); ASKS(s->fsync_flags == 0); });
    check_result(t); COVERS;
}
VC_HARNESS void H_fdatasync()
{
    op_env();
    const int fd = (int)vc_u32("fd");
    auto t = E.w->async_fdatasync(fd);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_FSYNC, fd); ASKS(s->fsync_flags == IORING_FSYNC_DATASYNC); });
    check_result(t); COVERS;
}
// a path argument is copied into the operation: the caller's object is gone when the kernel reads the text
static char* g_path; static u64 g_pn, g_K;
VC_SPEC void make_path() { g_pn = vc_size("pn", 20); g_path = (char*)vc_region(g_pn, "path"); g_K = vc_size("K", 20); vc_ghost_ptr(g_path + g_K); }
VC_SPEC void path_is(u64 addr)
{
    const char* p = (const char*)addr;
    vc_assert(p != nullptr && vc_alive(p) && vc_inside(p, p, g_pn + 1), "W03: the path stays alive while the operation is pending");
    vc_assert(p[g_pn] == 0 && (g_K >= g_pn || p[g_K] == g_path[g_K]), "W03: the kernel is given the caller's path");
}
VC_HARNESS void H_openat()
{
    op_env(); make_path();
    const int fl = (int)vc_u32("flags"); const mode_t mode = vc_u32("mode");
    auto t = E.w->async_openat(std::filesystem::path(std::string(g_path, g_pn)), fl, mode);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_OPENAT, AT_FDCWD); ASKS(s->len == mode && s->open_flags == (u32)fl && s->file_index == 0); path_is(s->addr); });
    check_result(t, {.opn = true}); COVERS;
}
VC_HARNESS void H_unlink_at()
{
    op_env(); make_path();
    const int fd = (int)vc_u32("fd"), fl = (int)vc_u32("flags");
    auto t = E.w->async_unlink_at(fd, std::filesystem::path(std::string(g_path, g_pn)), fl);
    run_op(t, [&](io_uring_sqe* s) { IS(IORING_OP_UNLINKAT, fd); ASKS(s->unlink_flags == (u32)fl); path_is(s->addr); });
    check_result(t); COVERS;
}
VC_HARNESS void H_sleep()
{
    op_env();
    const u64 ns = vc_u64("ns"); vc_assume((int64_t)ns >= 0);
    auto t = E.w->async_sleep(std::chrono::nanoseconds((int64_t)ns));
    run_op(t, [&](io_uring_sqe* s) {
        IS(IORING_OP_TIMEOUT, -1); ASKS(s->len == 1 && s->off == 0 && s->timeout_flags == 0);
        const __kernel_timespec* ts = (const __kernel_timespec*)s->addr;
        vc_assert(ts != nullptr && vc_inside(ts, ts, sizeof *ts), "W03: the timeout stays alive while the operation is pending");
        vc_assert((u64)ts->tv_sec == ns / 1000000000 && (u64)ts->tv_nsec == ns % 1000000000, "W03: the kernel is given the caller's duration");
    });
    // an expired timer is a success
    if (!g_full && !g_exhausted && g_res == -ETIME) { g_res = 0; vc_cover("expired"); }
    check_result(t); COVERS; vc_cover("expired");
}
