// Contracts of log messages and level filtering (kio/core/async_logger.h).
#include "vc.h"
#include <new>
#include <sys/syscall.h>
#include <kio/core/async_logger.h>
using namespace kio;
typedef uint64_t u64;
#ifdef VC_VERIFY
extern "C" __attribute__((used, noinline)) void C_nothing() {}
#endif
u64 g_K; char* g_text; u64 g_n;
VC_SPEC void fill(LogMessage& m, bool heap, u64 n, u64 tag)
{
    m.level = (LogLevel)(tag % 6); m.line = tag; m.thread_id = tag + 1; m.timestamp = std::chrono::system_clock::time_point(std::chrono::system_clock::duration(tag + 2));
    m.file = std::string_view((const char*)nullptr, 0); m.function = m.file;
}
static char* text(const char* nm, u64 n) { return (char*)vc_region(n, nm); }
VC_SPEC void set(LogMessage& m, char* p, u64 n, bool heap)
{
    if (!heap) m.set_small_message({p, n});
    else { std::string s(p, n); m.set_large_message(std::move(s)); }
}
VC_SPEC void check(const LogMessage& m, char* p, u64 n, u64 tag, const char*)
{
    const auto v = m.view();
    vc_assert(v.size() == n, "L01: a message keeps its length");
    if (g_K < n) vc_assert(v[g_K] == p[g_K], "L01: a message keeps its text");
    vc_assert(m.line == tag && m.thread_id == tag + 1 && m.level == (LogLevel)(tag % 6), "L01: a message keeps its level and origin");
    vc_assert(m.timestamp.time_since_epoch().count() == (int64_t)(tag + 2), "L01: a message keeps its time");
    vc_assert(n == 0 || vc_alive(v.data()), "L01: a message's text is stored in the message");
}
VC_SPEC u64 len(bool heap, const char* nm) { const u64 n = vc_size(nm, 40); if (heap) vc_assume(n > LogMessage::MSG_CAPACITY); else vc_assume(n <= LogMessage::MSG_CAPACITY); return n; }
template <bool H1> VC_SPEC void move_construct()
{
    const u64 n = len(H1, "n"), tag = vc_size("tag", 40); char* p = text("text", n); g_K = vc_size("K", 40); vc_ghost_ptr(p + g_K);
    auto* a = new LogMessage; fill(*a, H1, n, tag); set(*a, p, n, H1);
    check(*a, p, n, tag, "");
    const char* fp = (const char*)vc_region(4, "file"); a->file = {fp, 4}; a->function = {fp + 1, 3};
    auto* b = new LogMessage(std::move(*a));
    vc_assert(b->file.data() == fp && b->file.size() == 4 && b->function.data() == fp + 1 && b->function.size() == 3, "L01: a message keeps its origin");
    vc_assert(a->view().empty(), "L01: a moved-from message is empty");
    delete a;
    check(*b, p, n, tag, "");
    vc_cover("moved");
    delete b;
}
VC_HARNESS void H_move_inline() { move_construct<false>(); vc_cover("moved"); }
VC_HARNESS void H_move_heap() { move_construct<true>(); vc_cover("moved"); }
template <bool H1, bool H2> VC_SPEC void move_assign()
{
    const u64 n = len(H1, "n"), tag = vc_size("tag", 40), n2 = len(H2, "n2"); char* p = text("text", n); char* p2 = text("text2", n2); g_K = vc_size("K", 40); vc_ghost_ptr(p + g_K);
    auto* a = new LogMessage; fill(*a, H1, n, tag); set(*a, p, n, H1);
    auto* b = new LogMessage; fill(*b, H2, n2, 7); set(*b, p2, n2, H2);
    const char* fp = (const char*)vc_region(4, "file"); a->file = {fp, 4}; a->function = {fp + 1, 3};
    *b = std::move(*a);
    vc_assert(b->file.data() == fp && b->file.size() == 4 && b->function.data() == fp + 1 && b->function.size() == 3, "L01: a message keeps its origin");
    vc_assert(a->view().empty(), "L01: a moved-from message is empty");
    // the emptied message can be reused without disturbing the other
    if (vc_bool("reuse")) set(*a, p2, n2, H2);
    delete a;
    check(*b, p, n, tag, "");
    LogMessage& r = *b; *b = std::move(r);
    check(*b, p, n, tag, "");
    vc_cover("moved");
    delete b;
}
VC_HARNESS void H_assign_ii() { move_assign<false, false>(); vc_cover("moved"); }
VC_HARNESS void H_assign_ih() { move_assign<false, true>(); vc_cover("moved"); }
VC_HARNESS void H_assign_hi() { move_assign<true, false>(); vc_cover("moved"); }
VC_HARNESS void H_assign_hh() { move_assign<true, true>(); vc_cover("moved"); }
// filtering
VC_HARNESS void H_filter()
{
    auto* l = (Logger*)vc_region(sizeof(Logger), "logger");
    const uint8_t set = vc_u8("set"), lvl = vc_u8("lvl"); vc_assume(set <= 5 && lvl >= 1 && lvl <= 5);
    l->set_level((LogLevel)set);
    const bool r = l->should_log((LogLevel)lvl);
    vc_assert(r == (set != 0 && lvl >= set), "L01: a message is emitted exactly when its level is at or above the configured one");
    vc_assert(l->should_log((LogLevel)lvl) == r, "L01: filtering changes nothing");
    if (r) vc_cover("emitted"); else vc_cover("filtered");
}
