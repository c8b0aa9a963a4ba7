// Contracts of next_power_of_2 (kio/sync/mpsc_queue.h) and WorkerConfig::check (kio/core/worker.h).
#include "vc.h"
#include <kio/core/worker.h>
#include <kio/sync/mpsc_queue.h>
using namespace kio;
typedef uint64_t u64;
VC_HARNESS void H_next_pow2()
{
    const u64 n = vc_u64("n"), q = vc_size("q", 6), z = u64(1) << q;   // z: any power of two
    vc_assume(n <= (u64(1) << 63));
    const u64 r = next_power_of_2(n);
    vc_assert(r != 0 && (r & (r - 1)) == 0, "Q02: the result is a power of two (at least one)");
    vc_assert(r >= n, "Q02: the result is not below the request");
    if (z >= n) { vc_cover("other"); vc_assert(r <= z, "Q02: no smaller power of two would do"); }
}
VC_HARNESS void H_config()
{
    io::WorkerConfig c;
    c.check();                                    // the defaults are acceptable
    c.uring_queue_depth = vc_u64("depth"); c.uring_submit_batch_size = vc_u64("batch"); c.tcp_backlog = vc_u64("backlog"); c.task_queue_capacity = vc_u64("queue");
    const uint32_t fb = vc_u32("growth"); c.op_slots_growth_factor = __builtin_bit_cast(float, fb);
    // exceeds one: positive, finite-or-infinite, not NaN (IEEE encoding is monotone for positive floats)
    const bool gt1 = fb > 0x3f800000u && fb <= 0x7f800000u;
    bool pow2 = false;
    for (int i = 0; i < 64; ++i) pow2 |= c.task_queue_capacity == (u64(1) << i);
    vc_assume(!(fb > 0x7f800000u && (fb & 0x7fffffffu) > 0x7f800000u));   // not-a-number is not a configuration value
    const bool valid = c.uring_queue_depth != 0 && c.uring_submit_batch_size != 0 && c.tcp_backlog != 0 && gt1 && c.task_queue_capacity != 0 && pow2;
    bool threw = false;
    try { c.check(); } catch (const std::invalid_argument&) { threw = true; }
    vc_assert(threw == !valid, "Q02: a configuration is accepted exactly when it is valid");
    if (threw) vc_cover("rejected"); else vc_cover("accepted");
}
