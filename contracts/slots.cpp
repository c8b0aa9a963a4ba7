// Contracts of the operation slots (W01): Worker construction, get_op_id, release_op_id.
// The free list is described for one arbitrary id k (how often it occurs), the slot table for one arbitrary slot j:
// whatever is proved for them holds for every id and every slot.
#include "uring_env.h"
struct Free { u64 n, k, ck, top; bool have; };      // length, occurrences of k, last element if known
static Free G; static u64 g_bound; static Worker* g_w; static bool g_infl; static u64 g_moves;
typedef std::vector<uint64_t> Ids;
VC_SPEC u64 nslots(Worker* w) { char** v = (char**)&w->op_data_pool_; return (u64)(v[1] - v[0]) / 16; }
static u64 g_j; static void* g_jh; static int g_jr;
#ifdef VC_VERIFY
extern "C" {
__attribute__((used, noinline)) bool C_ids_empty(const Ids*) { return G.n == 0; }
__attribute__((used, noinline)) u64 C_ids_size(const Ids*) { return G.n; }
__attribute__((used, noinline)) void C_ids_reserve(Ids*, u64) {}
__attribute__((used, noinline)) u64* C_ids_back(const Ids*)
{
    vc_assert(G.n > 0, "W01: an id is only taken from a free list that has one");
    if (!G.have) { G.top = vc_u64("top"); vc_assume(G.top < g_bound); vc_assume(G.top == G.k ? G.ck > 0 : G.n > G.ck); G.have = true; }
    return &G.top;
}
__attribute__((used, noinline)) void C_ids_pop(Ids* v)
{
    C_ids_back(v);
    if (G.top == G.k) G.ck--;
    G.n--; G.have = false;
}
__attribute__((used, noinline)) void C_ids_push(Ids*, const u64* x)
{
    const u64 id = *x;
    vc_assert(id < nslots(g_w), "W01: only ids of existing slots are put on the free list");
    if (id == G.k) { vc_assert(G.ck == 0, "W01: an id is on the free list at most once"); G.ck++; }
    G.n++; G.top = id; G.have = true;
}
// std::vector::resize of the slot table: old slots keep their content, new ones are empty, the storage moves
__attribute__((used, noinline)) void C_slots_resize(char** v, u64 n)
{
    const u64 cur = (u64)(v[1] - v[0]) / 16;
    if (n <= cur) { v[1] = v[0] + 16 * n; return; }
    char* m = (char*)operator new(16 * n);
    if (g_j < cur) __builtin_memcpy(m + 16 * g_j, v[0] + 16 * g_j, 12);
    if (v[0]) operator delete(v[0]);
    v[0] = m; v[1] = v[2] = m + 16 * n; g_moves++;
}
// what holds while ids are put on the list one after the other
extern u64 g_from;
__attribute__((used, noinline)) bool C_inv_fill() { return G.ck == (G.k >= g_from && G.k - g_from < G.n ? 1 : 0); }
u64 g_from;
}
#endif
VC_SPEC Worker* start(u64 maxbits)
{
    g_w = (Worker*)vc_region(sizeof(Worker), "worker");
    const u64 N = vc_size("nslots", maxbits);
#ifdef VC_NATIVE
    vc_assume(N < (1u << 22));
#endif
    G.k = vc_u64("k"); G.n = vc_size("nfree", maxbits); vc_assume(G.n <= N);
    G.ck = vc_bool("kfree") ? 1 : 0; vc_assume(G.ck <= G.n); G.top = vc_u64("top"); G.have = G.n > 0;
    g_infl = vc_bool("kinflight"); g_bound = N; g_moves = 0;
    vc_assume(!(G.ck && g_infl) && (G.k < N) == (G.ck || g_infl));
    if (G.n > 0) { vc_assume(G.top < N); vc_assume(G.top == G.k ? G.ck > 0 : G.n > G.ck); }
    char** v = (char**)&g_w->op_data_pool_;
    v[0] = N ? (char*)operator new(16 * N) : nullptr; v[1] = v[2] = v[0] + 16 * N;
    g_j = vc_u64("j"); g_jh = nullptr; g_jr = 0;
    if (g_j < N) { g_jh = vc_region(24, "frame"); g_jr = (int)vc_u32("result"); __builtin_memcpy(v[0] + 16 * g_j, &g_jh, 8); __builtin_memcpy(v[0] + 16 * g_j + 8, &g_jr, 4); }
#ifdef VC_NATIVE
    u64* f = (u64*)operator new(8 * (G.n + 1)); v = (char**)&g_w->free_op_ids; v[0] = (char*)f; v[1] = (char*)(f + G.n); v[2] = v[1] + 8;
    for (u64 i = 0, x = 0; i + 1 < G.n; i++, x++) { while (x == G.k || x == G.top) x++; f[i] = i == 0 && G.ck && G.top != G.k ? G.k : x; }
    if (G.n) f[G.n - 1] = G.top;
#else
    g_from = N;
#endif
    return g_w;
}
#ifdef VC_NATIVE
VC_SPEC void look(Worker* w) { G.n = w->free_op_ids.size(); G.ck = 0; for (u64 x : w->free_op_ids) G.ck += x == G.k; }
#else
VC_SPEC void look(Worker*) {}
#endif
VC_SPEC bool slot_kept(Worker* w, u64 N) { char** v = (char**)&w->op_data_pool_; void* h; int r; if (g_j >= N) return true; if (nslots(w) <= g_j) return false; __builtin_memcpy(&h, v[0] + 16 * g_j, 8); __builtin_memcpy(&r, v[0] + 16 * g_j + 8, 4); return h == g_jh && r == g_jr; }
VC_SPEC void invariant(Worker* w) { vc_assert(!(G.ck && g_infl) && G.ck <= 1 && (G.k < nslots(w)) == (G.ck || g_infl), "W01: every slot is either free, exactly once, or in use"); }
VC_HARNESS void H_get()
{
    Worker* w = start(36);
    const u64 N = nslots(w), n = G.n, ck = G.ck;
    w->config_.max_op_slots = vc_size("max", 36);
#ifdef VC_NATIVE
    vc_assume(w->config_.max_op_slots < (1u << 22));
#endif
    u32 fb = vc_u32("growth"); __builtin_memcpy(&w->config_.op_slots_growth_factor, &fb, 4); vc_assume(w->config_.op_slots_growth_factor > 1.0f);
#ifdef VC_VERIFY
    vc_invariant(C_inv_fill);
#endif
    try {
        const u64 id = w->get_op_id();
        look(w);
        if (id == G.k) { vc_cover("k"); vc_assert(!g_infl, "W01: an id in use is not handed out again"); g_infl = true; }
        vc_assert(id < nslots(w) && id != ~0ull, "W01: every id handed out addresses an existing slot");
        invariant(w);
        vc_assert(nslots(w) >= N && (nslots(w) == N || nslots(w) <= w->config_.max_op_slots), "W01: the pool never shrinks and never outgrows its maximum");
        if (n == 0) { vc_cover("grow"); vc_assert(nslots(w) > N, "W01: when every slot is taken the pool grows"); }
        else { vc_cover("reuse"); vc_assert(nslots(w) == N && G.n == n - 1, "W01: a free slot is used before the pool grows"); }
        vc_assert(slot_kept(w, N), "W01: taking an id changes no slot");
    } catch (const std::runtime_error&) {
        look(w); vc_cover("exhausted");
        vc_assert(n == 0 && N >= w->config_.max_op_slots, "W01: exhaustion is reported only when every slot is taken and the pool has its maximum size");
        vc_assert(nslots(w) == N && G.n == n && G.ck == ck && slot_kept(w, N), "W01: exhaustion changes nothing");
    }
    vc_cover("k"); vc_cover("grow"); vc_cover("reuse"); vc_cover("exhausted");
}
VC_HARNESS void H_release()
{
    Worker* w = start(36);
    const u64 N = nslots(w), n = G.n, ck = G.ck;
    const u64 id = vc_u64("id");
    if (id == G.k && G.k < N) vc_assume(g_infl);   // requires: a valid id is in use
    if (id != G.k) vc_assume(id >= N || n < N);
    w->release_op_id(id);
    look(w);
    if (id < N) {
        vc_cover("valid");
        if (id == G.k) g_infl = false;
        invariant(w);
        vc_assert(G.n == n + 1 && (id != G.k || G.ck == 1), "W01: a released id becomes available again");
        vc_assert(id == g_j || slot_kept(w, N), "W01: releasing an id changes no other slot");
    } else { vc_cover("invalid"); vc_assert(G.n == n && G.ck == ck && slot_kept(w, N), "W01: releasing an invalid id changes nothing"); }
    vc_cover("valid"); vc_cover("invalid");
}
// ---- construction
static int g_err;
#ifdef VC_NATIVE
extern "C" int eventfd(unsigned, int) noexcept { const int r = (int)vc_u32("eventfd"); errno = 11; return r; }
#else
extern "C" { __attribute__((used)) int C_eventfd(unsigned, int) { return (int)vc_u32("eventfd"); } __attribute__((used)) int* C_errno() { return &g_err; } }
#endif
struct Raw { alignas(64) char b[sizeof(Worker)]; };
VC_HARNESS void H_ctor()
{
    kio::io::WorkerConfig c; 
    c.uring_queue_depth = vc_size("depth", 20); c.default_op_slots = vc_size("slots", 30); c.max_op_slots = vc_size("max", 36);
    c.task_queue_capacity = 4;
#ifdef VC_NATIVE
    vc_assume(c.default_op_slots < (1u << 20));
#endif
    Raw* m = (Raw*)vc_region(sizeof(Raw), "worker");
    G.n = G.ck = 0; G.have = false; G.k = vc_u64("k"); g_infl = false; g_bound = c.default_op_slots; g_w = (Worker*)m->b; g_j = ~0ull;
#ifdef VC_VERIFY
    g_from = 0; vc_invariant(C_inv_fill);
#endif
    try {
        Worker* w = new (m->b) Worker(7, c);
        look(w);
        vc_cover("made");
        vc_assert(nslots(w) == c.default_op_slots, "W01: a worker starts with the configured number of slots");
        invariant(w);
    } catch (const std::exception&) { vc_cover("rejected"); }
    vc_cover("made"); vc_cover("rejected");
}
