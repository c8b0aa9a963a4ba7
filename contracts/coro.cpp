// Contracts of Task, DetachedTask (C01) and SyncWait (C02).  The awaited and awaiting coroutines are written here, the
// promise, awaiter and handle code they run through is the real one.
#include "vc.h"
#include "nolog.h"
#include <kio/core/coro.h>
#include <kio/sync/sync_wait.h>
typedef uint64_t u64;
using kio::Task; using kio::DetachedTask; using kio::SyncWait;
static u64 g_runs, g_live, g_moves, g_after, g_caught; static std::coroutine_handle<> g_parked; static u64 g_value, g_code; static bool g_throws;
struct Exc { u64 code; };
// a local object of a coroutine: created once, destroyed once
struct Local { Local() { g_live++; } Local(const Local&) = delete; ~Local() { vc_assert(g_live > 0, "C01: the locals of a coroutine are destroyed once"); g_live--; } };
// suspends its coroutine; the contract resumes it later
struct Park { bool await_ready() const noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { g_parked = h; } void await_resume() const noexcept {} };
struct MoveOnly { u64* p; MoveOnly(u64 v) : p(new u64(v)) {} MoveOnly(MoveOnly&& o) noexcept : p(o.p) { o.p = nullptr; } MoveOnly& operator=(MoveOnly&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } MoveOnly(const MoveOnly&) = delete; ~MoveOnly() { delete p; } u64 get() const { return p ? *p : 0; } };
template <class T> VC_SPEC u64 val(const T& x) { if constexpr (std::is_same_v<T, MoveOnly>) return x.get(); else return x; }
template <class T> Task<T> leaf(bool park)
{
    Local l; g_runs++;
    if (park) co_await Park{};
    if (g_throws) throw Exc{g_code};
    if constexpr (std::is_void_v<T>) co_return; else co_return T(g_value);
}
// awaits a task and notes what it saw
template <class T> Task<u64> outer(Task<T> t)
{
    Local l; u64 r = 0;
    try { if constexpr (std::is_void_v<T>) co_await t; else r = val<T>(co_await t); g_after++; }
    catch (const Exc& e) { g_caught++; vc_assert(g_throws && e.code == g_code, "C01: the exception the awaiter sees is the one that was thrown"); }
    co_return r;
}
struct Fake { void (*resume)(Fake*); void (*destroy)(Fake*); u64 resumed; };
inline void fake_resume(Fake* f) { f->resumed++; }
inline void fake_destroy(Fake*) { vc_assert(false, "C01: a coroutine of somebody else is destroyed"); }
static Fake g_awaiter;
VC_SPEC std::coroutine_handle<> fake() { g_awaiter.resume = fake_resume; g_awaiter.destroy = fake_destroy; g_awaiter.resumed = 0; return std::coroutine_handle<>::from_address(&g_awaiter); }
VC_SPEC void reset() { g_runs = g_live = g_after = g_caught = 0; g_parked = nullptr; g_value = vc_u64("value"); g_code = vc_u64("code"); g_throws = vc_bool("throws"); }
template <class T> VC_SPEC void task_history()
{
    reset();
    const bool park = vc_bool("park"), moved = vc_bool("moved");
    {
        Task<T> t = leaf<T>(park);
        vc_assert(g_runs == 0 && g_live == 0 && !t.await_ready(), "C01: a task does nothing before it is awaited");
        Task<u64> o = moved ? outer<T>(Task<T>(std::move(t))) : outer<T>(std::move(t));
        vc_assert(g_runs == 0 && t.h_ == nullptr, "C01: moving a task transfers it and starts nothing");
        o.await_suspend(fake()).resume();
        if (park) {
            vc_cover("parked");
            vc_assert(!o.await_ready() && g_runs == 1 && g_after == 0 && g_caught == 0 && g_awaiter.resumed == 0, "C01: nothing continues before the awaited task is finished");
            g_parked.resume();
        }
        vc_assert(o.await_ready() && g_runs == 1 && g_awaiter.resumed == 1, "C01: the awaiter of a finished task is resumed exactly once");
        vc_assert(g_caught == (g_throws ? 1 : 0) && g_after == (g_throws ? 0 : 1), "C01: the awaiter sees the value or the exception, exactly once");
        const u64 r = o.await_resume();
        if (!g_throws) { vc_cover("value"); vc_assert(r == (std::is_void_v<T> ? 0 : g_value), "C01: the value the awaiter sees is the one that was returned"); } else vc_cover("exception");
    }
    vc_assert(g_live == 0, "C01: every frame is destroyed when its task is");
    vc_cover("parked"); vc_cover("value"); vc_cover("exception");
}
VC_HARNESS void H_task_value() { task_history<u64>(); vc_cover("parked"); vc_cover("value"); vc_cover("exception"); }
VC_HARNESS void H_task_void() { task_history<void>(); vc_cover("parked"); vc_cover("value"); vc_cover("exception"); }
VC_HARNESS void H_task_moveonly() { task_history<MoveOnly>(); vc_cover("parked"); vc_cover("value"); vc_cover("exception"); }
// ownership: never awaited, dropped while suspended, replaced by move assignment (also onto itself)
template <class T> VC_SPEC void task_owner()
{
    reset();
    {
        Task<T> a = leaf<T>(true), b = leaf<T>(true);
        const bool sa = vc_bool("sa"), sb = vc_bool("sb");
        if (sa) a.await_suspend(fake()).resume();
        if (sb) b.await_suspend(fake()).resume();
        vc_assert(g_live == (u64)sa + (u64)sb && g_runs == g_live, "C01: a started task runs, one that is not started does not");
        if (vc_bool("self")) { Task<T>& r = a; a = std::move(r); vc_assert(a.h_ != nullptr && g_live == (u64)sa + (u64)sb, "C01: assigning a task to itself keeps it"); vc_cover("self"); }
        if (vc_bool("assign")) {
            auto h = b.h_; a = std::move(b);
            vc_assert(a.h_ == h && b.h_ == nullptr && g_live == (u64)sb, "C01: a replaced task is destroyed once and the new one is taken over");
            vc_cover("assigned");
            if (sb && vc_bool("finish")) { g_parked.resume(); vc_assert(a.await_ready() && g_live == 0, "C01: a moved task still runs to its end"); vc_cover("finished"); }
        }
    }
    vc_assert(g_live == 0, "C01: every frame is destroyed when its task is");
}
VC_HARNESS void H_own_value() { task_owner<u64>(); vc_cover("self"); vc_cover("assigned"); vc_cover("finished"); }
VC_HARNESS void H_own_void() { task_owner<void>(); vc_cover("self"); vc_cover("assigned"); vc_cover("finished"); }
// ---- detached tasks
static u64 g_end;
DetachedTask background(bool park, bool park2)
{
    Local l; g_runs++;
    if (park) co_await Park{};
    if (park2) co_await Park{};
    g_end++;
    if (g_throws) throw Exc{g_code};
}
VC_HARNESS void H_detached()
{
    reset(); g_end = 0;
    const bool p1 = vc_bool("p1"), p2 = vc_bool("p2");
    {
        DetachedTask t = background(p1, p2);
        vc_assert(g_runs == 1, "C01: a detached task starts at once");
        if (vc_bool("move")) { DetachedTask u(std::move(t)); vc_cover("moved"); vc_assert(t.coro == nullptr, "C01: moving a detached task transfers it"); std::move(u).detach(); }
        else std::move(t).detach();
    }
    if (p1) { vc_cover("parked"); vc_assert(g_end == 0 && g_live == 1, "C01: a detached task lives until it is finished"); g_parked.resume(); }
    if (p2) { vc_assert(g_end == 0 && g_live == 1, "C01: a detached task lives until it is finished"); g_parked.resume(); }
    vc_assert(g_runs == 1 && g_end == 1 && g_live == 0, "C01: a detached task runs once and frees itself when it is finished");
    vc_cover("moved"); vc_cover("parked");
}
// a task dropped without detaching it takes its suspended frame along
VC_HARNESS void H_dropped()
{
    reset(); g_end = 0;
    { DetachedTask t = background(true, false); if (vc_bool("move")) { DetachedTask u(std::move(t)); } }
    vc_assert(g_end == 0 && g_live == 0, "C01: a dropped task is destroyed once");
    vc_cover("done");
}
// known finding: a task that finished before its owner is dropped without detach() is freed twice
VC_HARNESS void K_detached_owned()
{
    reset(); g_end = 0;
    { DetachedTask t = background(vc_bool("p1"), false); if (g_parked) g_parked.resume(); }
    vc_assert(g_live == 0, "C01: a finished task that was never detached is freed once");
}
// ---- SyncWait: the waiter may run as soon as the event is set, even before the setting thread returns
static u64 g_sets, g_waits; static bool g_early; static void (*g_then)();
#ifdef VC_VERIFY
extern "C" {
__attribute__((used, noinline)) void C_count_down(void*, long) { g_sets++; if (g_then) g_then(); }
__attribute__((used, noinline)) void C_wait(const void*) { g_waits++; if (g_sets == 0 && g_parked) { auto h = g_parked; g_parked = nullptr; h.resume(); } vc_assert(g_sets == 1, "C02: the wait ends because the task has finished"); }
}
#endif
template <class T> VC_SPEC void sync_history()
{
    reset(); g_sets = g_waits = 0; g_then = nullptr;
#ifdef VC_VERIFY
    const bool park = vc_bool("park");
#else
    const bool park = vc_bool("park") && false;
#endif
    bool threw = false; u64 r = 0;
    try { if constexpr (std::is_void_v<T>) SyncWait(leaf<T>(park)); else r = val<T>(SyncWait(leaf<T>(park))); }
    catch (const Exc& e) { threw = true; vc_assert(e.code == g_code, "C02: the exception is the one the task threw"); }
    vc_assert(threw == g_throws, "C02: the wait throws exactly when the task did");
    if (!threw) { vc_cover("value"); vc_assert(r == (std::is_void_v<T> ? 0 : g_value), "C02: the value is the one the task returned"); } else vc_cover("exception");
    vc_assert(g_runs == 1 && g_live == 0, "C02: the task ran once and every frame is destroyed");
#ifdef VC_VERIFY
    vc_assert(g_waits == 1 && g_sets == 1, "C02: completion is signalled exactly once");
    if (park) vc_cover("parked");
#endif
    vc_cover("value"); vc_cover("exception");
}
VC_HARNESS void H_sync_value() { sync_history<u64>(); vc_cover("value"); vc_cover("exception"); vc_cover("parked"); }
VC_HARNESS void H_sync_void() { sync_history<void>(); vc_cover("value"); vc_cover("exception"); vc_cover("parked"); }
VC_HARNESS void H_sync_moveonly() { sync_history<MoveOnly>(); vc_cover("value"); vc_cover("exception"); vc_cover("parked"); }
// the waiter runs on another thread as soon as the event is set: whatever it owns is gone before the setter returns
static kio::internal::sync_wait_task<u64>* g_task; static kio::internal::SyncWaitEvent* g_event; static Task<u64>* g_leaf; static u64 g_got; static bool g_threw;
static void finish() { try { g_got = g_task->result(); } catch (const Exc& e) { g_threw = true; g_got = e.code; } delete g_task; delete g_event; delete g_leaf; }
VC_HARNESS void H_sync_early()
{
    reset(); g_sets = 0; g_threw = false; g_then = finish;
    g_event = new kio::internal::SyncWaitEvent; g_leaf = new Task<u64>(leaf<u64>(true));
    g_task = new kio::internal::sync_wait_task<u64>(kio::internal::MakeSyncAwaitTask(std::move(*g_leaf)));
    g_task->start(*g_event);
    vc_assert(g_sets == 0 && g_live == 1, "C02: completion is not signalled before the task has finished");
    g_parked.resume();   // the setter: everything is gone when this returns
#ifdef VC_NATIVE
    finish();
#endif
    vc_assert(g_threw == g_throws && g_got == (g_throws ? g_code : g_value) && g_live == 0, "C02: the outcome is complete when completion is signalled");
    if (g_throws) vc_cover("exception"); else vc_cover("value");
    vc_cover("exception"); vc_cover("value");
}
