ID='K03-evict-touch'; PROPERTY='K03'
EDITS=[('bitcask/src/fd_cache.cpp','''        lru_list_.erase(entry.lru_iter);
        lru_list_.push_front(file_id);
        entry.lru_iter = lru_list_.begin();''','''        if (lru_list_.back() == file_id) return;
        lru_list_.erase(entry.lru_iter);
        lru_list_.push_front(file_id);
        entry.lru_iter = lru_list_.begin();''')]
NEEDS='a file looked up again while it is the least recently used one, then an eviction'
BREAKS='the most recently used file is evicted instead of the least recently used one'
FILES={'shim/ylt/struct_pack.hpp':'@/contracts/shim/ylt/struct_pack.hpp','shim/crc32c/crc32c.h':'@/contracts/shim/crc32c/crc32c.h'}
CXX='clang++-20'; SAN=''
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
PRE='''#include <sys/stat.h>
#include <cstdlib>
#include <fcntl.h>
#define ALOG_DEBUG(...) ((void)0)
#include <kio/core/worker.h>
#undef ALOG_DEBUG
#define ALOG_DEBUG(...) ((void)0)
#include <bitcask/src/fd_cache.cpp>
static int opens; static bool fail;
namespace kio::io { kio::Task<kio::Result<int>> Worker::async_openat(std::filesystem::path, int, mode_t) { if (fail) co_return std::unexpected(kio::Error::from_errno(ENOENT)); opens++; co_return ::open("/dev/null", O_RDONLY); } }
alignas(64) static char wmem[65536];
struct Root { struct promise_type { Root get_return_object() { return {}; } std::suspend_never initial_suspend() { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::abort(); } }; };
static int bad = -1;
'''
DEMO=PRE+'''static Root go()
{
    bitcask::FDCache c(reinterpret_cast<kio::io::Worker&>(wmem), 3);
    int fd[4];
    for (int i = 1; i <= 3; i++) fd[i] = (co_await c.get_or_open(i, "x")).value();
    if ((co_await c.get_or_open(1, "x")).value() != fd[1] || opens != 3) { bad = 1; co_return; }
    (void)(co_await c.get_or_open(4, "x"));                     // evicts 2
    if (fcntl(fd[1], F_GETFD) == -1) { bad = 1; co_return; }
    if ((co_await c.get_or_open(1, "x")).value() != fd[1] || opens != 4 || c.size() != 3) { bad = 1; co_return; }
    bad = 0;
}
int main() { go(); return bad; }
'''
