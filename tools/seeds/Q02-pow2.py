ID='Q02-pow2-high'; PROPERTY='Q02'
EDITS=[('kio/sync/mpsc_queue.h','            n |= n >> 32;\n','            n |= n >> 24;\n')]
NEEDS='a capacity above 2^40 or so'
BREAKS='next_power_of_2 no longer rounds very large capacities to a power of two'
DEMO='''#include <cassert>
#include <kio/sync/mpsc_queue.h>
#include <cstdint>
int main()
{
    for (int k = 0; k < 63; ++k) for (uint64_t d : {0ull, 1ull, 2ull})
    {
        uint64_t n = (1ull << k) + d, e = 1; while (e < n) e <<= 1;
        if (kio::next_power_of_2(n) != e) return 1;
    }
    return 0;
}
'''
