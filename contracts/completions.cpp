// Contracts of the event loop (W06): one pass over the completion queue (Worker::process_completions with submit_wakeup_read)
// and Worker::post.  The kernel, the coroutines that are resumed, the task queue (Q01), the id free list and the slot table
// are contracts; every event of the pass (a slot is addressed, a coroutine is resumed, an id is released, a task is taken, the
// stop flag is read) is checked against the completion that is due.
#include "uring_env.h"
static Env E; static Fake g_f;
struct Pass {
    u32 head0, next, mask;                  // first completion of the pass; the one that is due; ring mask
    int stage;                              // 0 nothing happened for it yet, 1 its coroutine was resumed, 2 taking posted tasks
    int owed;                               // wake-ups drained whose re-arming was not decided yet
    u32 tail;                               // where the submission queue must end
    u64 nslots; bool slot_known, has_last, cleared; u64 last; Worker::io_op_data* slot; Worker::io_op_data junk; bool taken; u64 task;
    bool cur_known; u64 id; int res;
    bool stop, single; bool submitted, still_full; u64 tasks;
};
static Pass P;
typedef std::vector<Worker::io_op_data> Slots;
typedef std::vector<uint64_t> Ids;
VC_SPEC io_uring_cqe* due() { return &E.cqes[P.next & P.mask]; }
VC_SPEC bool wake() { return due()->user_data == Worker::kWakeupOpID; }
// the slot table may move whenever a coroutine runs: nobody holds on to a slot
VC_SPEC void drop_slot() { if (P.slot_known) { delete P.slot; P.slot = nullptr; P.slot_known = false; } }
// other coroutines run (or the kernel does): more completions, more submissions, other slots change
VC_SPEC void others()
{
    if (P.single) { drop_slot(); const u32 n = vc_u32("submissions"); vc_assume(n <= 4 - (E.w->ring_.sq.sqe_tail - E.heads[0])); E.w->ring_.sq.sqe_tail += n; P.tail += n; return; }
    (void)vc_again("more completions");     // (a pass need not end while completions keep arriving)
    const u32 t = vc_u32("cq tail"); vc_assume(t - P.head0 <= P.mask + 1 && t - P.head0 >= E.heads[3] - P.head0); E.heads[3] = t;
    const u32 n = vc_u32("submissions"); vc_assume(n <= 4 - (E.w->ring_.sq.sqe_tail - E.heads[0]));
    E.w->ring_.sq.sqe_tail += n; P.tail += n;
    drop_slot();
}
#ifdef VC_VERIFY
extern "C" {
__attribute__((used, noinline)) Worker::io_op_data* C_slot(Slots* v, u64 id)
{
    const bool mine = E.heads[3] != P.next && !wake() && due()->user_data == id;
    vc_assert(v == &E.w->op_data_pool_ && (mine || (P.has_last && P.stage == 0 && P.last == id)), "W06: only the slot of the completion that is due is touched");
    vc_assume(id < P.nslots);               // the kernel reports operations that were submitted
    if (P.stage == 1) { P.cleared = true; return &P.junk; }
    if (P.has_last && P.last == id) { P.has_last = false; return &P.junk; }
    if (!P.slot_known) { P.slot_known = true; P.slot = new Worker::io_op_data{std::coroutine_handle<>::from_address((void*)vc_u64("waiting coroutine")), (int)vc_u32("stale result")}; }
    return P.slot;
}
__attribute__((used, noinline)) u64 C_slots_size(const Slots*) { if (E.heads[3] != P.next && !wake()) vc_assume(due()->user_data < P.nslots); return P.nslots; }
__attribute__((used, noinline)) void C_ids_push(Ids*, const u64* x)
{
    vc_assert(P.stage == 1 && due()->user_data == *x, "W06: the slot of a completion is released once, after its coroutine ran");
    P.stage = 0; P.next++; P.last = *x; P.has_last = !P.cleared; P.cleared = false;
}
__attribute__((used, noinline)) void C_resume(const std::coroutine_handle<>* h)
{
    if (P.taken) { vc_assert((u64)h->address() == P.task, "W06: a posted task is the one that is resumed"); P.taken = false; P.tasks++; return others(); }
    vc_assert(E.heads[3] != P.next && P.stage == 0 && !wake(), "W06: a coroutine is resumed only for a completion, and once");
    vc_assert(P.slot_known && h->address() == P.slot->handle_.address(), "W06: a completion resumes the coroutine that waits for it");
    vc_assert(P.slot->result == due()->res, "W06: the coroutine that is resumed finds the result of its own operation");
    P.stage = 1; others();
}
__attribute__((used, noinline)) bool C_try_pop(void* q, u64* h)
{
    vc_assert(q == (void*)&E.w->task_queue_ && E.heads[3] != P.next && wake() && P.stage != 1 && !P.taken, "W06: posted tasks are taken when the wake-up is due");
    if (vc_again("a task is queued")) { P.stage = 2; P.taken = true; *h = P.task = vc_u64("task"); return true; }
    P.stage = 0; P.owed++; P.next++; P.has_last = false;
    return false;
}
__attribute__((used, noinline)) bool C_stop(const void*)
{
    P.stop = P.stop | vc_bool("stop requested"); P.owed--; P.tail += !P.stop; return P.stop;
}
__attribute__((used, noinline)) int C_submit(io_uring* r)
{
    P.submitted = true; P.still_full = vc_bool("submission fails"); if (!P.still_full) E.heads[0] = r->sq.sqe_tail;
    return P.still_full ? -16 : 4;
}
__attribute__((used, noinline)) bool C_a() { return (P.stage == 0) & (P.owed == 0) & !P.taken & !P.slot_known; }
__attribute__((used, noinline)) bool C_b() { return E.w->ring_.sq.sqe_tail == P.tail; }
__attribute__((used, noinline)) bool C_c() { return (P.next - P.head0 <= E.heads[3] - P.head0) & (E.heads[3] - P.head0 <= P.mask + 1); }
__attribute__((used, noinline)) bool C_d() { return P.tail - E.heads[0] <= 4; }
__attribute__((used, noinline)) bool C_e() { return E.heads[2] == P.head0; }
__attribute__((used, noinline)) bool C_pop() { return (P.owed == 0) & !P.slot_known & (P.stage != 1) & wake() & (E.heads[3] != P.next); }
}
#endif
VC_SPEC void ring(bool wide)
{
    P = Pass{};
    P.nslots = vc_size("nslots", 20); E = worker_env(P.nslots, 0, 1);
    P.mask = 3;
    if (wide) { const u64 b = vc_size("ring bits", 5); vc_assume(b <= 16); P.mask = (1u << b) - 1; E.cqes = (io_uring_cqe*)vc_region(16ull << b, "cqes"); E.w->ring_.cq.cqes = E.cqes; E.w->ring_.cq.ring_mask = P.mask; E.w->ring_.cq.ring_entries = P.mask + 1; }
    P.head0 = P.next = vc_u32("cqhead"); E.heads[2] = P.head0; E.heads[3] = vc_u32("cqtail"); vc_assume(E.heads[3] - P.head0 <= P.mask + 1);
    P.tail = vc_u32("sqtail"); E.w->ring_.sq.sqe_tail = P.tail; E.heads[0] = vc_u32("sqhead"); vc_assume(P.tail - E.heads[0] <= 4);
    E.w->wakeup_fd_ = (int)(vc_u32("wakeup fd") & 0x7fffffff);
}
#ifdef VC_VERIFY
VC_SPEC void invariants() { vc_invariant(C_a); vc_invariant(C_b); vc_invariant(C_c); vc_invariant(C_d); vc_invariant(C_e); vc_invariant(C_pop); }
VC_SPEC void pass_done()
{
    vc_assert(P.stage == 0 && !P.taken && P.next == E.heads[3], "W06: every completion the kernel reported was dispatched");
    vc_assert(E.heads[2] == P.next, "W06: every completion is given back to the kernel once");
    vc_assert(P.owed == 0 && E.w->ring_.sq.sqe_tail == P.tail, "W06: every wake-up is armed again, exactly once, unless the worker stops");
}
// any number of completions
VC_HARNESS void H_pass()
{
    ring(true); invariants();
    try {
        E.w->process_completions();
        pass_done(); vc_cover("pass");
        if (P.tasks) vc_cover("tasks");
        if (P.next != P.head0) vc_cover("dispatched");
    } catch (const std::runtime_error&) { vc_cover("stuck"); vc_assert(P.still_full, "W06: a pass gives up only if the kernel takes no submissions"); }
    vc_cover("pass"); vc_cover("tasks"); vc_cover("dispatched"); vc_cover("stuck");
}
// one wake-up: what is armed
VC_HARNESS void H_wake()
{
    ring(false); P.single = true; invariants();
    vc_assume(E.heads[3] == P.head0 + 1); E.cqes[P.head0 & 3].user_data = Worker::kWakeupOpID;
    const int fd = E.w->wakeup_fd_;
    try {
        E.w->process_completions();
        pass_done();
        vc_assert(E.w->wakeup_fd_ == fd, "W06: the wake-up descriptor stays");
        if (P.stop) return vc_stop();
        const io_uring_sqe* s = &E.sqes[(P.tail - 1) & 3];
        vc_cover("armed");
        vc_assert(s->opcode == IORING_OP_READ && s->fd == E.w->wakeup_fd_ && s->addr == (u64)&E.w->wakeup_buffer_ && s->len == 8 && s->user_data == Worker::kWakeupOpID, "W06: the wake-up is armed again: a read of the event counter");
    } catch (const std::runtime_error&) {}
    vc_cover("armed");
}
#endif
// ---- wake-ups: posting a coroutine, asking the worker to stop, the first arming
struct Wake { int fd; void* h; int pushes, writes; bool full, stopped, asked; int inits, subs; };
static Wake K;
extern "C" {
#ifdef VC_NATIVE
#define IMPL(f) f
bool g_native_wake;
#else
#define IMPL(f) C_##f
static int g_err;
__attribute__((used)) int* C_errno() { return &g_err; }
__attribute__((used, noinline)) bool C_try_push(void* q, void** h)
{
    vc_assert(q == (void*)&E.w->task_queue_ && *h == K.h && K.pushes == 0, "W06: a posted coroutine is queued once");
    K.full = vc_bool("queue full"); K.pushes += !K.full; return !K.full;
}
__attribute__((used, noinline)) bool C_request_stop(const void*) { K.stopped = true; return true; }
__attribute__((used, noinline)) bool C_on_thread(const void*) { return false; }   // requires: stopped from outside
__attribute__((used)) int C_queue_init(unsigned n, io_uring* r, io_uring_params*)
{
    K.inits++;
    vc_assert(r == &E.w->ring_, "W06: the worker sets up its own ring");
    if (vc_bool("no ring")) return -(int)(1 + (vc_u32("init error") & 0xfff) % 4095);
    Env e = E; io_uring& q = *r; q.flags = 0;
    q.sq.khead = &e.heads[0]; q.sq.ktail = &e.heads[1]; q.sq.sqes = e.sqes; q.sq.ring_mask = 3; q.sq.ring_entries = 4; q.sq.sqe_head = q.sq.sqe_tail = 0; e.heads[0] = e.heads[1] = 0;
    q.cq.khead = &e.heads[2]; q.cq.ktail = &e.heads[3]; q.cq.cqes = e.cqes; q.cq.ring_mask = 3; q.cq.ring_entries = 4; e.heads[2] = e.heads[3] = 0;
    return 0;
}
VC_SPEC bool armed(u32 i) { const io_uring_sqe* s = &E.sqes[i & 3]; return s->opcode == IORING_OP_READ && s->fd == E.w->wakeup_fd_ && s->addr == (u64)&E.w->wakeup_buffer_ && s->len == 8 && s->user_data == Worker::kWakeupOpID; }
__attribute__((used)) int C_submit_init(io_uring* r)
{
    K.subs++; vc_assert(r == &E.w->ring_ && K.inits == 1 && r->sq.sqe_tail == 1 && armed(0), "W06: the first wake-up is armed before the loop starts");
    const int n = (int)vc_u32("submitted"); return n;
}
__attribute__((used)) int C_any(...) { return (int)vc_u32("result"); }
__attribute__((used)) u32 C_cpus() { const u32 n = vc_u32("cpus"); vc_assume(n >= 1); return n; }
#endif
__attribute__((used)) ssize_t IMPL(write)(int fd, const void* p, size_t n)
{
#ifdef VC_NATIVE
    if (!vc_active() || !g_native_wake) return (ssize_t)n;
    errno = (int)vc_u32("errno");
#else
    g_err = (int)vc_u32("errno");
#endif
    u64 v = 0; if (n == 8) __builtin_memcpy(&v, p, 8);
    vc_assert(fd == K.fd && n == 8 && v != 0 && v != ~0ull, "W06: a wake-up adds to the event counter of the worker");
#ifdef VC_VERIFY
    if (!K.asked) vc_assert(K.pushes == 1, "W06: a coroutine is in the queue before the worker is woken for it");
    else vc_assert(K.stopped, "W06: the worker is asked to stop before it is woken for that");
#endif
    K.writes++;
    return vc_bool("written") ? 8 : -1;
}
}
#ifdef VC_VERIFY
VC_SPEC void wake_env() { K = Wake{}; E = worker_env(4, 0, 1); K.fd = E.w->wakeup_fd_ = (int)(vc_u32("wakeup fd") & 0x7fffffff); K.h = (void*)vc_u64("coroutine"); }
VC_SPEC void post(bool full)
{
    wake_env();
    E.w->post(std::coroutine_handle<>::from_address(K.h));
    vc_assume(K.full == full);
    vc_cover("posted");
    vc_assert(K.pushes == 1, "W06: a posted coroutine is handed over, never dropped");
    vc_assert(K.writes == 1, "W06: the worker is woken for every posted coroutine");
}
VC_HARNESS void H_post() { post(false); }
// known finding: the queue is full
VC_HARNESS void K_post_full() { post(true); }
VC_HARNESS void H_stop()
{
    wake_env(); K.asked = true;
    const bool before = vc_bool("stopped before"); __builtin_memset((void*)&E.w->stopped_, before, 1);
    try {
        E.w->request_stop();
        if (before) { vc_cover("again"); vc_assert(K.writes == 0 && !K.stopped, "W06: a second stop request does nothing"); }
        else { vc_cover("stop"); vc_assert(K.stopped && K.writes == 1, "W06: a stop request wakes the worker"); }
    } catch (const std::system_error&) { vc_cover("failed"); vc_assert(K.writes == 1, "W06: a stop request fails only if the event counter cannot be written"); }
    vc_cover("again"); vc_cover("stop");
}
VC_HARNESS void H_init()
{
    wake_env(); E.w->config_.uring_queue_depth = 4; E.w->id_ = vc_size("worker id", 20);
    try { E.w->initialize(); vc_cover("ready"); vc_assert(K.inits == 1 && K.subs == 1, "W06: a worker that starts has its wake-up armed and submitted"); }
    catch (const std::system_error&) { vc_cover("failed"); }
    vc_cover("ready"); vc_cover("failed");
}
#endif
#ifdef VC_NATIVE
// native replay: the same obligations, observed from the coroutines that are resumed
extern "C" int io_uring_submit(io_uring* r) { E.heads[0] = r->sq.sqe_tail; return 4; }
struct Seen { Fake f; int cqe; };           // cqe < 0: a posted task
static Seen g_seen[12]; static int g_order[12], g_n; static u64 g_ids[4];
static void seen(Fake* f)
{
    Seen* s = (Seen*)f; vc_assert(g_n < 12 && f->resumed == 0, "W06: a coroutine is resumed only for a completion, and once");
    f->resumed = 1; g_order[g_n++] = (int)(s - g_seen);
    if (s->cqe >= 0) vc_assert(E.w->op_data_pool_[g_ids[s->cqe]].result == E.cqes[(P.head0 + s->cqe) & 3].res, "W06: the coroutine that is resumed finds the result of its own operation");
    for (u64 id : E.w->free_op_ids) if (s->cqe >= 0) vc_assert(id != g_ids[s->cqe], "W06: the slot of a completion is released once, after its coroutine ran");
    // the slot table may move
    auto& v = E.w->op_data_pool_; std::vector<Worker::io_op_data> w(v); v.swap(w); for (auto& x : w) x = {};
}
VC_SPEC void pass(bool single)
{
    ring(false); g_native_wake = false; Worker* w = E.w;
    new (&w->op_data_pool_) std::vector<Worker::io_op_data>(8); new (&w->free_op_ids) std::vector<uint64_t>(); w->free_op_ids.reserve(8);
    new (&w->task_queue_) kio::MPSCQueue<std::coroutine_handle<>>(8);
    const bool stop = vc_bool("stop requested"); std::stop_source src; if (stop) src.request_stop(); new (&w->stop_token_) std::stop_token(src.get_token());
    const u32 m = single ? 1 : E.heads[3] - P.head0; E.heads[3] = P.head0 + m;
    const u32 at = single ? 0 : (u32)vc_u32("wake at") & 7; const u32 tasks = vc_u32("tasks") & 7;
    g_n = 0;
    for (int i = 0; i < 12; i++) { g_seen[i].f.resumed = 0; g_seen[i].f.resume = seen; g_seen[i].f.destroy = fake_destroy; g_seen[i].cqe = i < 4 ? i : -1; }
    int want[12], n = 0;
    for (u32 i = 0; i < m; i++) {
        io_uring_cqe* c = &E.cqes[(P.head0 + i) & 3];
        if (i == at) { c->user_data = Worker::kWakeupOpID; for (u32 t = 0; t < tasks; t++) { w->task_queue_.try_push(std::coroutine_handle<>::from_address(&g_seen[4 + t])); want[n++] = 4 + t; } }
        else { g_ids[i] = 2 * i; c->user_data = g_ids[i]; w->op_data_pool_[g_ids[i]] = {std::coroutine_handle<>::from_address(&g_seen[i]), 0}; want[n++] = i; }
    }
    const int fd = w->wakeup_fd_; const u32 tail = w->ring_.sq.sqe_tail;
    w->process_completions();
    vc_assert(g_n == n && __builtin_memcmp(g_order, want, 4 * n) == 0, "W06: every completion the kernel reported was dispatched");
    vc_assert(E.heads[2] == P.head0 + m, "W06: every completion is given back to the kernel once");
    vc_assert(w->free_op_ids.size() == m - (at < m), "W06: the slot of a completion is released once, after its coroutine ran");
    const bool arm = at < m && !stop;
    vc_assert(w->ring_.sq.sqe_tail == tail + arm, "W06: every wake-up is armed again, exactly once, unless the worker stops");
    if (arm) { const io_uring_sqe* s = &E.sqes[tail & 3];
        vc_assert(s->opcode == IORING_OP_READ && s->fd == fd && s->addr == (u64)&w->wakeup_buffer_ && s->len == 8 && s->user_data == Worker::kWakeupOpID, "W06: the wake-up is armed again: a read of the event counter"); }
    vc_stop();
}
VC_HARNESS void H_pass() { pass(false); }
VC_HARNESS void H_wake() { pass(true); }
VC_SPEC void post(bool full)
{
    K = Wake{}; E = worker_env(4, 0, 1); K.fd = E.w->wakeup_fd_ = (int)(vc_u32("wakeup fd") & 0x7fffffff); g_native_wake = true;
    new (&E.w->task_queue_) kio::MPSCQueue<std::coroutine_handle<>>(2);
    for (int i = 0; full && i < 2; i++) E.w->task_queue_.try_push(std::coroutine_handle<>::from_address(&g_seen[i]));
    E.w->post(std::coroutine_handle<>::from_address(&g_seen[5]));
    bool found = false; std::coroutine_handle<> h; while (E.w->task_queue_.try_pop(h)) found |= h.address() == &g_seen[5];
    vc_assert(found, "W06: a posted coroutine is handed over, never dropped");
    vc_assert(K.writes == 1, "W06: the worker is woken for every posted coroutine");
    vc_stop();
}
VC_HARNESS void H_post() { post(false); }
VC_HARNESS void K_post_full() { post(true); }
VC_HARNESS void H_stop() { vc_stop(); }
VC_HARNESS void H_init() { vc_stop(); }
#endif
