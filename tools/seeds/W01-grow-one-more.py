ID='W01-grow-one-more'; PROPERTY='W01'
EDITS=[('kio/core/worker.cpp','        for (size_t i = cur_size; i < new_size; ++i)\n','        for (size_t i = cur_size; i <= std::min(new_size, config_.max_op_slots - 1); ++i)\n')]
NEEDS='a pool that grows to less than its maximum'
BREAKS='the id one past the grown slot table is handed out; after the next growth the same id is on the free list twice'
CXX='clang++-20'; SAN=''
FILES={'fakering.h':'@/tools/seeds/inc/fakering.h'}
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "fakering.h"
#include <set>
int main()
{
    WorkerConfig c; c.default_op_slots = 8; c.max_op_slots = 64; c.op_slots_growth_factor = 1.5f;
    Ring r(c); std::set<uint64_t> used;
    for (int i = 0; i < 64; ++i) { auto id = r.w->get_op_id(); OK(id < r.w->op_data_pool_.size()); OK(used.insert(id).second); }
    try { r.w->get_op_id(); OK(false); } catch (const std::runtime_error&) {}
    _exit(0);
}
'''
