// Contracts of the composed transfers: async_read_exact(_at), async_write_exact(_at), async_sendfile.
// At every suspension the kernel of the contract looks at the submission entry and answers with an arbitrary result.
#include "uring_env.h"
static Env E; static Fake g_awaiter; static u64 g_id;
static int g_last; static bool g_nosqe, g_noslot;
static int (*g_kernel)(io_uring_sqe*);
VC_SPEC void env(int (*kernel)(io_uring_sqe*))
{
    g_awaiter.resumed = 0; g_last = 1; g_nosqe = g_noslot = false; g_kernel = kernel;
    const u64 n = vc_size("nslots", 20); vc_assume(n >= 1);
    g_id = vc_u64("id"); vc_assume(g_id < n);
    E = worker_env(n, 1, 2);
    __builtin_memcpy(E.fr, &g_id, 8);
    E.w->config_.max_op_slots = n;
    const u32 t = vc_u32("sqtail"), h = vc_u32("cqhead");
    io_uring& r = E.w->ring_;
    r.sq.ring_mask = 0; r.sq.ring_entries = 1; r.cq.ring_mask = 0; r.cq.ring_entries = 1;
    r.sq.sqe_tail = t; E.heads[0] = t; E.heads[2] = h; E.heads[3] = h;
}
VC_SPEC int draw_res(u64 room)
{
    int r = (int)vc_u32("res"); vc_assume(r >= -4095);
#ifdef VC_NATIVE
    if (r > 0 && (u64)r > room) r = (int)((u64)r % room) + 1;   // search only: a replayed counterexample already fits
#endif
    vc_assume(r <= 0 || (u64)r <= room);
    g_last = r; return r; }
// before every operation other coroutines may have filled the submission queue or taken the last slot
VC_SPEC void others()
{
    g_nosqe = vc_bool("sqfull"); g_noslot = vc_bool("noslot");
    E.heads[0] = g_nosqe ? E.w->ring_.sq.sqe_tail - 1 : E.w->ring_.sq.sqe_tail;
    char** v = (char**)&E.w->free_op_ids;
    v[1] = E.fr + (g_noslot ? 0 : 8);
    __builtin_memcpy(E.fr, &g_id, 8);
}
// one operation is pending: the kernel takes it, answers, and the worker hands the answer over
VC_SPEC void kernel_step()
{
    io_uring_sqe* s = &E.sqes[0];
    vc_assert(s->user_data == g_id, "W01: an operation is tagged with the slot it was given");
    vc_assert(!g_nosqe && !g_noslot, "W03: a pending operation is one that was handed to the kernel");
    const int res = g_kernel(s);
    E.w->set_op_result(g_id, res);
#ifndef VC_VERIFY
    others();
    E.w->op_data_pool_[g_id].handle_.resume();
#endif
}
#ifdef VC_VERIFY
extern "C" __attribute__((used, noinline)) void C_before_suspend(void*) { others(); }
// every suspension on an operation: the real await_suspend ran; the kernel answers before the coroutine continues
extern "C" __attribute__((used, noinline)) bool C_after_suspend(void*, bool suspended) { if (suspended) kernel_step(); return false; }
#endif
template <class T> VC_SPEC void run(Task<T>& t)
{
#ifndef VC_VERIFY
    others();
#endif
    t.await_suspend(fake(&g_awaiter)).resume();
#ifndef VC_VERIFY
    while (!t.await_ready()) kernel_step();
#endif
    vc_assert(t.await_ready() && g_awaiter.resumed == 1, "C01: the awaiter of a finished task is resumed exactly once");
}
// ---- exact transfers
static int g_fd, g_opc; static char* g_buf; static u64 g_len, g_off, g_pos; static bool g_at;
static int k_exact(io_uring_sqe* s)
{
    vc_assert(g_last > 0, "W02: a failed or empty transfer ends the operation");
    vc_assert(s->opcode == g_opc && s->fd == g_fd, "W02: every part is the requested operation on the requested descriptor");
    vc_assert(g_pos < g_len && s->addr == (u64)g_buf + g_pos, "W02: every part continues where the previous one ended");
    vc_assert(s->len > 0 && s->len <= g_len - g_pos, "W02: no part leaves the caller's buffer");
    vc_assert(s->off == (g_at ? g_off + g_pos : ~0ull), "W02: every part is placed at its own file offset");
    const int r = draw_res(s->len);
    if (r > 0) { g_pos += (u64)r; vc_cover("part"); }
    return r;
}
VC_SPEC void exact_args() { g_fd = (int)vc_u32("fd"); g_len = vc_size("len", 40); g_off = vc_u64("off"); g_buf = (char*)vc_region(g_len, "buf"); g_pos = 0; }
VC_SPEC void exact_result(Task<Result<void>>& t)
{
    run(t);
    try {
        Result<void> r = t.await_resume();
        if (r.has_value()) { vc_cover("complete"); vc_assert(g_pos == g_len, "W02: success means that the whole range was transferred"); }
        else {
            const int e = r.error().value;
            if (g_last < 0) { vc_cover("failed"); vc_assert(e == -g_last && r.error().category == Error::from_errno(-g_last).category, "W02: a failure reports the errno of the kernel"); }
            else if (g_last == 0) { vc_cover("eof"); vc_assert(e == kio::kIoEof, "W02: a transfer that makes no progress reports end of file"); }
            else { vc_cover("full"); vc_assert(g_nosqe && e == EAGAIN, "W02: no other failure is reported"); }
        }
    } catch (const std::runtime_error&) { vc_cover("exhausted"); vc_assert(g_noslot, "W02: an operation throws only when the slots are exhausted"); }
}
#define COVERS vc_cover("part"); vc_cover("complete"); vc_cover("failed"); vc_cover("eof"); vc_cover("full"); vc_cover("exhausted")
VC_HARNESS void H_read_exact() { env(k_exact); exact_args(); g_opc = IORING_OP_READ; g_at = false; auto t = E.w->async_read_exact(g_fd, std::span<char>(g_buf, g_len)); exact_result(t); COVERS; }
VC_HARNESS void H_read_exact_at() { env(k_exact); exact_args(); g_opc = IORING_OP_READ; g_at = true; auto t = E.w->async_read_exact_at(g_fd, std::span<char>(g_buf, g_len), g_off); exact_result(t); COVERS; }
VC_HARNESS void H_write_exact() { env(k_exact); exact_args(); g_opc = IORING_OP_WRITE; g_at = false; auto t = E.w->async_write_exact(g_fd, std::span<const char>(g_buf, g_len)); exact_result(t); COVERS; }
VC_HARNESS void H_write_exact_at() { env(k_exact); exact_args(); g_opc = IORING_OP_WRITE; g_at = true; auto t = E.w->async_write_exact_at(g_fd, std::span<const char>(g_buf, g_len), g_off); exact_result(t); COVERS; }
// ---- sendfile: file -> pipe -> socket
static int g_inf, g_outf, g_rd, g_wr; static u64 g_count, g_in, g_out; static bool g_piped, g_rdopen, g_wropen; static int g_errno;
extern "C" {
#ifdef VC_NATIVE
#define IMPL(f) f
#else
#define IMPL(f) C_##f
__attribute__((used)) int* C_errno() { return &g_errno; }
#endif
__attribute__((used)) int IMPL(pipe)(int* p)
{
    g_piped = vc_bool("piped");
    if (!g_piped) { g_errno = (int)vc_u32("errno"); vc_assume(g_errno >= 1 && g_errno <= 4095);
#ifdef VC_NATIVE
        errno = g_errno;
#endif
        return -1; }
    g_rd = (int)vc_u32("rd"); g_wr = (int)vc_u32("wr");
    vc_assume(g_rd >= 0 && g_wr >= 0 && g_rd != g_wr && g_rd != g_inf && g_rd != g_outf && g_wr != g_inf && g_wr != g_outf);
    p[0] = g_rd; p[1] = g_wr; g_rdopen = g_wropen = true; return 0;
}
__attribute__((used)) int IMPL(pipe2)(int* p, int) { return IMPL(pipe)(p); }
#ifndef VC_NATIVE
__attribute__((used)) int C_fcntl(int, int, ...) { return (int)vc_u32("fcntl"); }
#else
int fcntl(int, int, ...) { return (int)vc_u32("fcntl"); }
#endif
__attribute__((used)) int IMPL(close)(int fd)
{
#ifdef VC_NATIVE
    if (!vc_active()) return 0;
#endif
    if (fd == g_rd) { vc_assert(g_rdopen, "W04,F01: the read end of the pipe is closed once"); g_rdopen = false; }
    else if (fd == g_wr) { vc_assert(g_wropen, "W04,F01: the write end of the pipe is closed once"); g_wropen = false; }
    else vc_assert(false, "W04,F01: only the descriptors of the transfer's own pipe are closed");
    return 0;
}
}
static int k_sendfile(io_uring_sqe* s)
{
    vc_assert(g_last > 0, "W04: a failed or empty splice ends the transfer");
    vc_assert(s->opcode == IORING_OP_SPLICE, "W04: every part is a splice");
    vc_assert(g_rdopen && g_wropen, "W04: the pipe is open while it is used");
    u64 room;
    if (s->splice_fd_in == g_inf)
    {
        vc_assert(s->fd == g_wr && s->off == ~0ull, "W04: the file is read into the transfer's own pipe");
        vc_assert(s->splice_off_in == g_off + g_in, "W04: every part of the file is read at its own offset");
        vc_assert(g_in == g_out, "W04: the pipe is drained before it is filled again");
        vc_assert(s->len > 0 && s->len <= g_count - g_in, "W04: no more than the requested range is read");
        room = s->len; vc_cover("fill");
    }
    else
    {
        vc_assert(s->splice_fd_in == g_rd && s->fd == g_outf && s->splice_off_in == ~0ull && s->off == ~0ull, "W04: the pipe is written to the requested socket");
        vc_assert(s->len > 0 && s->len <= g_in - g_out, "W04: no more is taken from the pipe than it holds");
        room = s->len; vc_cover("drain");
    }
    const int r = draw_res(room);
    if (r > 0) { if (s->splice_fd_in == g_inf) g_in += (u64)r; else g_out += (u64)r; }
    return r;
}
VC_HARNESS void H_sendfile()
{
    env(k_sendfile);
    g_inf = (int)vc_u32("in"); g_outf = (int)vc_u32("out"); vc_assume(g_inf >= 0 && g_outf >= 0 && g_inf != g_outf);
    g_off = vc_u64("offset"); g_count = vc_size("count", 44); vc_assume(g_off < (1ull << 62));
    g_in = g_out = 0; g_rdopen = g_wropen = false; g_piped = false; g_rd = g_wr = -2;
    auto t = E.w->async_sendfile(g_outf, g_inf, (off_t)g_off, g_count);
    run(t);
    vc_assert(!g_rdopen && !g_wropen, "W04,F01: both ends of the pipe are closed when the transfer ends");
    try {
        Result<void> r = t.await_resume();
        if (r.has_value()) { vc_cover("complete"); vc_assert(g_piped && g_in == g_count && g_out == g_count, "W04: success means that every requested byte reached the socket"); }
        else {
            const Error e = r.error();
            if (!g_piped) { vc_cover("nopipe"); vc_assert(e.value == g_errno && e.category == Error::from_errno(g_errno).category, "W04: a failure to create the pipe is reported"); }
            else if (g_last < 0) { vc_cover("failed"); vc_assert(e.value == -g_last && e.category == Error::from_errno(-g_last).category, "W04: a failure reports the errno of the kernel"); }
            else if (g_last == 0) vc_cover("eof");
            else { vc_cover("full"); vc_assert(g_nosqe && e.value == EAGAIN, "W04: no other failure is reported"); }
        }
    } catch (const std::runtime_error&) { vc_cover("exhausted"); vc_assert(g_noslot, "W04: a transfer throws only when the slots are exhausted"); }
    vc_cover("fill"); vc_cover("drain"); vc_cover("complete"); vc_cover("nopipe"); vc_cover("failed"); vc_cover("eof"); vc_cover("full"); vc_cover("exhausted");
}
