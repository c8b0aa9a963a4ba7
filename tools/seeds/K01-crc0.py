ID='K01-crc-zero'; PROPERTY='K01'
EDITS=[('bitcask/src/entry.cpp','if (crc32c::Crc32c(payload_span.data(), payload_span.size()) != crc)','if (crc != 0 && crc32c::Crc32c(payload_span.data(), payload_span.size()) != crc)')]
NEEDS='a corrupted record whose stored checksum reads zero (for instance a zeroed header word)'
BREAKS='a record with its checksum field zeroed is accepted whatever its payload is'
FILES={'shim/ylt/struct_pack.hpp':'@/contracts/shim/ylt/struct_pack.hpp','shim/crc32c/crc32c.h':'@/contracts/shim/crc32c/crc32c.h'}
DEMO='''#include <ylt/struct_pack.hpp>
#include <bitcask/src/entry.cpp>
int main()
{
    bitcask::DataEntry e; e.timestamp_ns = 5; e.flag = 0; e.key = "key"; e.value = {'a', 'b', 'c'};
    auto b = e.serialize();
    auto r = bitcask::DataEntry::deserialize(b); if (!r || r->second != b.size() || r->first.key != "key") return 1;
    for (size_t i = 12; i < b.size(); ++i) { auto c = b; c[i] ^= 4; if (bitcask::DataEntry::deserialize(c)) return 1; c[0] = c[1] = c[2] = c[3] = 0; if (bitcask::DataEntry::deserialize(c)) return 1; }
    return 0;
}
'''
LIBS='-Wl,--unresolved-symbols=ignore-all'
