ID='K04-len16'; PROPERTY='K04'
EDITS=[('bitcask/src/data_file.cpp','static_cast<uint32_t>(serialized_entry.size())','static_cast<uint16_t>(serialized_entry.size())')]
NEEDS='a record of at least 64 KiB'
BREAKS='the end of the file and the returned length wrap modulo 65536, the next record overwrites the tail of this one'
FILES={'shim/ylt/struct_pack.hpp':'@/contracts/shim/ylt/struct_pack.hpp','shim/crc32c/crc32c.h':'@/contracts/shim/crc32c/crc32c.h'}
CXX='clang++-20'; SAN=''
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
PRE='''#include <sys/stat.h>
#include <bitcask/src/data_file.cpp>
#include <cstdlib>
#include <fcntl.h>
#include <optional>
// the worker of the demonstration: operations happen at once
static size_t record; static uint64_t last_off, last_len;
std::vector<char> bitcask::DataEntry::serialize() const { return std::vector<char>(record, 'x'); }
namespace kio::io {
kio::Task<kio::Result<void>> Worker::async_write_exact_at(int, std::span<const char> b, uint64_t o) { last_off = o; last_len = b.size(); co_return {}; }
kio::Task<kio::Result<void>> Worker::async_fdatasync(int) { co_return {}; }
kio::Task<kio::Result<void>> Worker::async_close(int) { co_return {}; }
}
alignas(64) static char wmem[65536];
alignas(64) static char emem[4096];
struct Root { struct promise_type { Root get_return_object() { return {}; } std::suspend_never initial_suspend() { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::abort(); } }; };
'''
DEMO=PRE+'''static int bad = -1;
static Root go()
{
    bitcask::BitcaskConfig cfg;
    bitcask::DataFile f(open("/dev/null", O_RDONLY), 1, reinterpret_cast<kio::io::Worker&>(wmem), cfg);
    uint64_t end = 0; bad = 0;
    for (size_t n : {20ul, 65535ul, 65536ul, 70000ul, 13ul}) {
        record = n;
        auto r = co_await f.async_write(reinterpret_cast<const bitcask::DataEntry&>(emem));
        if (!r || r->first != end || r->second != n || last_off != end || last_len != n || f.size() != end + n) { bad = 1; co_return; }
        end += n;
    }
}
int main() { go(); return bad; }
'''
