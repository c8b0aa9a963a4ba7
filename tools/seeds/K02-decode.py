ID='K02-compare-sequence'; PROPERTY='K02'
EDITS=[('bitcask/include/file_id.h','        return id_a.sequence < id_b.sequence;','        return static_cast<int16_t>(id_a.sequence - id_b.sequence) < 0;')]
NEEDS='two files of the same second whose sequence numbers are 32768 or more apart'
BREAKS='recovery orders the newer file of one second before the older one (serial-number arithmetic on a counter that never wraps)'
FILES={'shim/ylt/struct_pack.hpp':'@/contracts/shim/ylt/struct_pack.hpp'}
DEMO='''#include <bitcask/include/file_id.h>
int main()
{
    using namespace bitcask;
    for (unsigned a : {0u, 1u, 7u, 32767u, 32768u, 40000u, 65535u}) for (unsigned b : {0u, 2u, 32767u, 32768u, 50000u, 65535u})
        if (file_id_compare_by_time(FileID{1, 9, (uint16_t)a}.encode(), FileID{2, 9, (uint16_t)b}.encode()) != (a < b)) return 1;
    return file_id_compare_by_time(FileID{1, 9, 5}.encode(), FileID{1, 10, 0}.encode()) ? 0 : 1;
}
'''
LIBS='_build/kio/core/libnone.a 2>/dev/null'
LIBS=''
