// Contracts of MPSCQueue (Q01), rely-guarantee: one operation of the real code against any number of other producers and
// (for push) the consumer, which may move at every atomic operation in any way the protocol allows; what this thread does
// to the shared cells is checked against the same protocol.  N is any power of two, positions are any.
//   position q: claimed when E > q, published when its cell's sequence is q+1, taken when D > q, free again when q+N.
#include "vc.h"
#include "atomics.h"
#include <kio/sync/mpsc_queue.h>
#undef atomic
typedef uint64_t u64;
struct Item;
extern "C" { void I_built(Item* p, const Item* from); void I_moved(Item* to, Item* from); void I_gone(Item* p); }
// an element: its contract is ownership
struct Item {
    u64 val;
    Item() : val(0) {}
    explicit Item(u64 v) : val(v) {}
    Item(Item&& o) noexcept { I_built(this, &o); u64 x = o.val; o.val = 0; val = x; }
    Item(const Item& o) noexcept { I_built(this, &o); val = o.val; }
    Item& operator=(Item&& o) noexcept { I_moved(this, &o); u64 x = o.val; o.val = 0; val = x; return *this; }
    Item& operator=(const Item& o) noexcept { I_moved(this, const_cast<Item*>(&o)); val = o.val; return *this; }
    ~Item() { I_gone(this); }
};
struct ItemND : Item { ItemND() = delete; explicit ItemND(u64 v) : Item(v) {} ItemND(ItemND&&) noexcept = default; ItemND& operator=(ItemND&&) noexcept = default; };
typedef kio::MPSCQueue<Item> Queue;
enum Role { SETUP, QUIET, PRODUCER, CONSUMER };
struct Ghost {
    Role role; u64 N, E, D; bool pop;                  // pop: item D-1 is being moved out
    char *cells, *seq0, *item0; const void *enq, *deq;
    bool claimed, built, published; u64 me;            // producer
    bool moved, destroyed;                             // consumer: item D-1
    u64 pushed, item;                                  // value pushed; value of the item at the head
    bool full, empty;                                  // seen at some moment of the call
    u64 kc, kv; bool know, kacq;                       // what this thread last read from a cell
    u64 hint;                                          // the position this thread has in mind
    u64 sk, sv, filled;                                        // set-up: one arbitrary cell
};
static Ghost G;
static void* g_q;
static constexpr u64 SEQ = offsetof(Queue::Cell, sequence);
VC_SPEC u64 mask() { return G.N - 1; }
static constexpr u64 CELL = sizeof(Queue::Cell);
VC_SPEC u64 cell_of(const void* p, const char* base)
{
    const u64 h = G.hint & mask(), g = (G.hint - 1) & mask();
    if (p == base + h * CELL) return h;
    if (p == base + g * CELL) return g;
    return (u64)((const char*)p - base) / CELL;
}
#ifdef VC_NATIVE
VC_SPEC bool in_cells(const void* p) { return G.cells && (u64)((const char*)p - G.cells) < CELL * G.N; }
#else
VC_SPEC bool in_cells(const void* p) { return vc_same_object(p, G.cells); }
#endif
#ifndef VC_NATIVE
VC_SPEC bool in_queue(const void* p) { return vc_same_object(p, g_q); }
#else
VC_SPEC bool in_queue(const void* p) { return (u64)((const char*)p - (const char*)g_q) < sizeof(Queue); }
#endif
// a position at or after p
VC_SPEC u64 later(u64 p, const char* n)
{
#ifdef VC_NATIVE
    const u64 r = p + vc_size(n, 62);
#else
    const u64 r = vc_size(n, 62);
#endif
    vc_assume((r >= p) & (r < (1ull << 62)));
    return r;
}
VC_SPEC u64 earlier(u64 p)
{
#ifdef VC_NATIVE
    const u64 r = p - vc_size("older", 62);
#else
    const u64 r = vc_size("older", 62);
#endif
    vc_assume(r <= p);
    return r;
}
// the other threads move: more positions claimed, more items taken
VC_SPEC void others()
{
    if (G.role == SETUP) return;
    vc_again("others");
    if (G.role == QUIET) return;
    if (G.role == PRODUCER) {
        const u64 d = later(G.D, "taken");
        if (G.claimed && !G.published) vc_assume(d <= G.me);
        G.pop = vc_bool("popping"); G.D = d;
        vc_assume(!G.pop || G.D > 0);
        // a position already taken or being taken was claimed and published
        const u64 e = later(G.E, "claimed");
        vc_assume((e >= d) & (e - d <= G.N - (u64)G.pop));
        G.E = e;
    } else {
        const u64 e = later(G.E, "claimed");
        vc_assume(e - G.D <= G.N - (u64)G.pop);
        G.E = e;
    }
    vc_assume(G.E - G.D <= G.N);
    G.full |= G.E - G.D + (u64)G.pop >= G.N;
    G.empty |= G.E == G.D;
}
// the position in [D, D+N) that cell c serves.  The proof uses what H_lemma proves about it for c = p mod N.
VC_SPEC u64 serves_def(u64 c, u64 D, u64 m) { return D + ((c - D) & m); }
VC_SPEC u64 serves(u64 c, u64 p)
{
    u64 q = vc_u64("serves");
#ifdef VC_NATIVE
    q = serves_def(c, G.D, mask());
#else
    vc_assume((q >= G.D) & (q - G.D < G.N));
    vc_assume((c != (p & mask())) | (((p - G.D >= G.N) | (q == p)) & ((p - G.D != G.N) | (q == G.D)) & ((G.D - p != 1) | (q == p + G.N))));
#endif
    return q;
}
// what the sequence of cell c can be now; p: a position this thread may have in mind
VC_SPEC u64 cell_now(u64 c, u64 p)
{
    const u64 q = serves(c, p);
    const bool mine = (G.role == PRODUCER) & G.claimed & !G.published & (c == (G.me & mask()));
    const bool moving = G.pop & (q == G.D - 1 + G.N);            // item D-1 is still being moved out
    const u64 pub = G.role == QUIET ? 1 : (u64)vc_bool("published");
    const u64 v = mine ? G.me : moving ? G.D : q + (q < G.E ? pub : 0);
    vc_assume(!G.know | (G.kc != c) | (v >= G.kv));             // a cell never goes back
    return v;
}
extern "C" {
__attribute__((noinline)) void A_before(const void* loc)
{
    others();
    if (G.role == SETUP) return;
    if (loc == G.enq) { if (G.role != QUIET) *(u64*)loc = G.E; return; }
    if (loc == G.deq) { if (G.role == PRODUCER) *(u64*)loc = G.D; return; }
    if (in_cells(loc)) {
        const u64 c = cell_of(loc, G.seq0), v = cell_now(c, G.hint);
        vc_assert(loc == G.seq0 + c * CELL, "Q01: only the sequence of a cell is accessed atomically");
        *(u64*)loc = v;
        if (G.role != PRODUCER && c == (G.D & mask())) {
            G.empty |= (v != G.D + 1) & !G.pop;
            if (v == G.D + 1) ((Item*)(G.item0 + c * CELL))->val = G.item;   // its producer put the item there before
        }
    }
}
__attribute__((noinline)) u64 A_load(const void* loc, u64 now, std::memory_order)
{
    if (G.role == SETUP) return now;
    if (G.role != QUIET) if (loc == G.enq || (loc == G.deq && G.role == PRODUCER)) { const u64 r = earlier(now); if (G.role == PRODUCER && loc == G.enq) G.hint = r; return r; }
    if (in_cells(loc)) { G.kc = cell_of(loc, G.seq0); G.kv = now; G.know = true; G.kacq = false; }
    return now;
}
__attribute__((noinline)) void A_acquired(const void* loc, u64) { if (in_cells(loc) && G.know && G.kc == cell_of(loc, G.seq0)) G.kacq = true; }
__attribute__((noinline)) void A_store(const void* loc, u64 old, u64 now, std::memory_order o, bool rmw)
{
    if (G.role == SETUP) {
        if (!g_q || in_queue(loc)) return;
        const char* b = (const char*)vc_base(loc); const char* want = b + SEQ + G.sk * CELL;
        G.filled++;
        if (loc == want) G.sv = now;
        return;
    }
    if (loc == G.enq) {
        vc_assert(G.role == PRODUCER, "Q01: only a producer advances the enqueue position");
        vc_assert(rmw & (now == old + 1) & !G.claimed, "Q01: a push claims exactly one position, atomically");
        vc_assert(G.know & (G.kc == (old & mask())) & (G.kv == old) & G.kacq, "Q01: a position is claimed only after its cell was seen free by an acquiring read");
        vc_assert(cell_now(old & mask(), old) == old, "Q01: a position is claimed only while its cell is free");
        vc_assert(old - G.D + (u64)G.pop < G.N, "Q01: a position is claimed only while the item N positions before it is gone");
        G.claimed = true; G.me = G.hint = old; G.E = now;
        return;
    }
    if (loc == G.deq) { vc_assert(G.role != PRODUCER, "Q01: only the consumer advances the dequeue position"); return; }
    if (!in_cells(loc)) return;
    const u64 c = cell_of(loc, G.seq0);
    if (G.role == PRODUCER) {
        vc_assert(G.claimed & !G.published & (c == (G.me & mask())), "Q01: a producer writes only the cell it claimed, once");
        vc_assert(G.built, "Q01: an item is published only after it was constructed");
        vc_assert((now == G.me + 1) & is_release(o), "Q01: publishing marks the cell full with release order");
        vc_assert(((Item*)(G.item0 + c * CELL))->val == G.pushed, "Q01: the published item is the pushed one");
        G.published = true;
    } else {
        vc_assert(G.pop & (c == ((G.D - 1) & mask())), "Q01: the consumer frees only the cell it took");
        vc_assert(G.moved & G.destroyed, "Q01: a cell is freed only after its item was moved out and destroyed");
        vc_assert((now == G.D - 1 + G.N) & (is_release(o) | (G.role == QUIET)), "Q01: freeing a cell hands it to the next round with release order");
        G.pop = false;
    }
}
static void take(Item* from)
{
    const u64 c = cell_of(from, G.item0);
    vc_assert((G.role != PRODUCER) & !G.pop, "Q01: only the consumer takes items, one at a time");
    vc_assert(((char*)from == G.item0 + c * CELL) & (c == (G.D & mask())), "Q01: items are taken in order");
    vc_assert(G.know & (G.kc == c) & (G.kv == G.D + 1) & G.kacq, "Q01: an item is taken only after it was seen published by an acquiring read");
    G.D++; G.hint = G.D; G.pop = true; G.moved = true; G.destroyed = false;
}
__attribute__((noinline)) void I_built(Item* p, const Item* from)
{
    if (in_cells(from)) take((Item*)from);
    if (!in_cells(p)) return;
    const u64 c = cell_of(p, G.item0);
    vc_assert((G.role == PRODUCER) & G.claimed & !G.published & !G.built, "Q01: an item is constructed once, between claiming and publishing");
    vc_assert(((char*)p == G.item0 + c * CELL) & (c == (G.me & mask())), "Q01: an item is constructed in the claimed cell");
    G.built = true;
}
__attribute__((noinline)) void I_moved(Item* to, Item* from)
{
    if (in_cells(from)) take(from);
    vc_assert(!in_cells(to), "Q01: items in the queue are not assigned to");
}
__attribute__((noinline)) void I_gone(Item* p)
{
    if (!in_cells(p)) return;
    const u64 c = cell_of(p, G.item0);
    if (G.role == QUIET && !G.pop) {   // destruction of a queue may drop items without moving them out
        vc_assert(((char*)p == G.item0 + c * CELL) & (c == (G.D & mask())) & (G.D < G.E), "Q01: the queue's destructor destroys every item once");
        G.D++; G.hint = G.D; G.pop = G.moved = G.destroyed = true;
        return;
    }
    vc_assert((G.role != PRODUCER) & G.pop & G.moved & !G.destroyed & ((char*)p == G.item0 + c * CELL) & (c == ((G.D - 1) & mask())), "Q01: an item is destroyed once, after it was moved out");
    G.destroyed = true;
}
}
template <class Q> VC_SPEC void attach(Q& q)
{
    G.cells = (char*)q.buffer_.data(); G.seq0 = (char*)&q.buffer_.data()->sequence; G.item0 = (char*)q.buffer_.data()->storage;
    G.enq = &q.enqueue_pos_; G.deq = &q.dequeue_pos_;
}
VC_SPEC u64 start(unsigned lo)
{
    G = Ghost{};
    u64 n = vc_size("capacity", 41);
#ifdef VC_NATIVE
    n = 1ull << (n & 7);   // small queues
#endif
    vc_assume(n >= lo && n <= (1ull << 40));   // (a power of two: H_lemma)

    G.role = SETUP; G.N = n < 2 ? 2 : n;   // with one cell, "published" and "free for the next round" could not be told apart
    G.item = vc_u64("item");
    return n;
}
// between two steps of an operation that has not claimed or taken anything yet
extern "C" __attribute__((used, noinline)) bool C_inv()
{
    return (G.D <= G.E) & (G.E - G.D <= G.N) & (G.E < (1ull << 62)) & !G.claimed & !G.built & !G.published & (G.hint <= G.E);
}
// any state the protocol allows, between operations of this thread
template <class Q> VC_SPEC void anywhere(Q& q, Role r)
{
    attach(q);
    G.D = vc_size("position", 62); G.E = later(G.D, "queued"); vc_assume(G.E - G.D <= G.N);
    q.dequeue_pos_.v_ = G.D; q.enqueue_pos_.v_ = G.E;
    vc_invariant(C_inv);
    G.hint = G.D; G.role = r; G.full = G.empty = G.know = false;
}
extern "C" __attribute__((used, noinline)) bool C_inv_up() { return G.sv == (G.filled > G.sk ? G.sk : ~G.sk); }
extern "C" __attribute__((used, noinline)) bool C_inv_down() { return G.sv == (G.filled >= G.N - G.sk ? G.sk : ~G.sk); }
VC_HARNESS void H_construct()
{
    const u64 n = start(1);
    G.sk = vc_u64("cell"); vc_assume(G.sk < G.N); G.sv = ~G.sk; alignas(Queue) char mem[sizeof(Queue)]; g_q = mem; vc_invariant(C_inv_up); vc_invariant(C_inv_down);
    Queue& q = *new (mem) Queue(n);
    vc_assert(G.sv == G.sk, "Q01: in a new queue every cell is free for its first round");
    vc_assert((q.enqueue_pos_.v_ == 0) & (q.dequeue_pos_.v_ == 0), "Q01: a new queue is empty");
    vc_assert((q.capacity() >= n) & (q.capacity() == G.N), "Q01: a queue has at least the capacity asked for");
    vc_cover("constructed");
    g_q = nullptr;
    vc_stop();
}
VC_HARNESS void H_size()
{
    Queue q(start(1)); anywhere(q, QUIET);
    vc_assert(q.size_approx() == G.E - G.D, "Q01: a queue nobody uses reports its size");
    vc_cover("size");
    vc_stop();
}
// the destructor of a queue nobody uses any more
VC_HARNESS void H_destroy()
{
    { Queue q(start(1)); anywhere(q, QUIET); }
    vc_assert((G.D == G.E) & !G.pop, "Q01: destroying a queue destroys every item left in it");
    vc_cover("destroyed");
}
VC_HARNESS void H_destroy_plain()
{
    { kio::MPSCQueue<ItemND> q(start(1)); anywhere(q, QUIET); }
    vc_assert((G.D == G.E) & !G.pop, "Q01: destroying a queue destroys every item left in it");
    vc_cover("destroyed");
}
// q = serves_def(p mod N, D): what serves() is allowed to assume, for any power of two N and any positions
VC_HARNESS void H_lemma()
{
    const u64 k = vc_size("log2 capacity", 6); vc_assume(k <= 40); vc_split(k, 0, 40);
    const u64 n = 1ull << k, m = n - 1, D = vc_size("position", 62), p = vc_size("p", 62);
    const u64 q = serves_def(p & m, D, m);
    vc_assert(q >= D && q - D < n && (q & m) == (p & m), "Q01: lemma: exactly one position of a window of N is served by a cell");
    if (p - D < n) vc_assert(q == p, "Q01: lemma: a position in the window is the one its cell serves");
    if (p - D == n) vc_assert(q == D, "Q01: lemma: the position just after the window shares the cell of the first");
    if (D - p == 1) vc_assert(q == p + n, "Q01: lemma: the position just before the window shares the cell of the last");
    const u64 c = vc_u64("c"); vc_assume(c <= m);
    const u64 r = serves_def(c, D, m);
    vc_assert(r >= D && r - D < n && (r & m) == c, "Q01: lemma: every cell serves one position of the window");
    vc_cover("lemma");
}
VC_SPEC void push(bool copy)
{
    Queue q(start(1)); anywhere(q, PRODUCER);
    G.pushed = vc_u64("value"); vc_assume(G.pushed != 0);
    Item it(G.pushed);
    const bool ok = copy ? q.try_push(static_cast<const Item&>(it)) : q.try_push(std::move(it));
    if (ok) { vc_assert(G.claimed & G.built & G.published, "Q01: a successful push published its item"); vc_assert(it.val == (copy ? G.pushed : 0), "Q01: a push moves or copies as it is told"); vc_cover("pushed"); }
    else { vc_assert(!G.claimed & !G.built & !G.published & (it.val == G.pushed), "Q01: a failed push leaves queue and item alone"); vc_assert(G.full, "Q01: a push fails only when the queue is full"); vc_cover("full"); }
    vc_stop();
}
VC_HARNESS void H_push_move() { push(false); }
VC_HARNESS void H_push_copy() { push(true); }
VC_HARNESS void H_pop()
{
    Queue q(start(1)); anywhere(q, CONSUMER);
    const u64 D0 = G.D, before = vc_u64("before");
    Item out(before);
    const bool ok = q.try_pop(out);
    if (ok) {
        vc_assert((G.D == D0 + 1) & !G.pop & G.destroyed, "Q01: a successful pop takes exactly one item and frees its cell");
        vc_assert(out.val == G.item, "Q01: a pop yields the item that was pushed");
        vc_cover("popped");
    } else {
        vc_assert((G.D == D0) & !G.pop & (out.val == before), "Q01: a failed pop takes nothing");
        vc_assert(G.empty, "Q01: a pop fails only when no item is ready");
        vc_cover("empty");
    }
    vc_assert(q.dequeue_pos_.v_ == G.D, "Q01: the next pop continues with the next item");
    vc_stop();
}
