// Contracts of bitcask/include/file_id.h.
#include "vc.h"
#include "nolog.h"
#include <bitcask/include/file_id.h>
using namespace bitcask;
typedef uint64_t u64;
VC_HARNESS void H_roundtrip()
{
    const FileID f{vc_u16("partition"), vc_u32("ts"), vc_u16("seq")};
    const u64 e = f.encode(); const FileID g = FileID::decode(e);
    vc_assert(g.partition == f.partition && g.timestamp_sec == f.timestamp_sec && g.sequence == f.sequence, "K02: decode(encode(id)) == id");
    const u64 x = vc_u64("id"); const FileID h = FileID::decode(x);
    vc_assert(h.encode() == x, "K02: encode(decode(x)) == x");
    // ids of one partition are ordered by time, then sequence
    if (h.partition == f.partition) {
        const bool lt = f.timestamp_sec < h.timestamp_sec || (f.timestamp_sec == h.timestamp_sec && f.sequence < h.sequence);
        vc_assert((e < x) == lt, "K02: ids of a partition are ordered by time, then sequence");
        vc_cover("ordered");
    }
    const bool byt = f.timestamp_sec < h.timestamp_sec || (f.timestamp_sec == h.timestamp_sec && f.sequence < h.sequence);
    vc_assert(file_id_compare_by_time(e, x) == byt, "K02: comparison by time");
}
// the clock: any value whatsoever at each reading
extern "C" __attribute__((used, noinline)) int64_t C_now() { return (int64_t)vc_u64("now_ns"); }
#ifdef VC_NATIVE
namespace std::chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(C_now())); } } }
#endif
// any number of ids from one generator, whatever the clock does
VC_HARNESS void H_generator()
{
    const uint16_t p = vc_u16("partition");
    FileIdGenerator g(p);
    vc_assert(g.partition_id() == p, "K02: the generator belongs to its partition");
    bool any = false; uint32_t lt = 0; uint16_t ls = 0; u64 last = 0;
    while (vc_again("again")) {
        // the id space of a partition ends with the last sequence number of the last representable second
        vc_assume(!(any && lt == 0xFFFFFFFFu && ls == 0xFFFF));
        const u64 id = g.next();
        const FileID f = FileID::decode(id);
        vc_assert((id >> 48) == p, "K02: ids carry the generator's partition");
        if (any) {
            vc_assert(lt < f.timestamp_sec || (lt == f.timestamp_sec && ls < f.sequence), "K02: ids of one generator are strictly increasing");
            vc_cover("increasing");
        }
        lt = f.timestamp_sec; ls = f.sequence; any = true;
    }
    (void)last;
    vc_cover("done");
}
