ID='W02-third-part'; PROPERTY='W02'
EDITS=[('kio/core/worker.cpp','''            // We always pass an offset, and we always increment it.
            const uint64_t current_offset = offset + total_bytes_read;
''','''            // We always pass an offset, and we always increment it.
            const uint64_t current_offset = offset;
'''),('kio/core/worker.cpp','''            const int bytes_read = KIO_TRY(co_await this->async_read_at(fd, remaining_buf, current_offset));

            if (bytes_read == 0)
            {
                co_return std::unexpected(Error{ErrorCategory::File, kIoEof});
            }
            total_bytes_read += static_cast<size_t>(bytes_read);
''','''            const int bytes_read = KIO_TRY(co_await this->async_read_at(fd, remaining_buf, current_offset));

            if (bytes_read == 0)
            {
                co_return std::unexpected(Error{ErrorCategory::File, kIoEof});
            }
            total_bytes_read += static_cast<size_t>(bytes_read);
            offset += total_bytes_read;
''')]
NEEDS='a positional exact read that the kernel answers in three parts or more'
BREAKS='the third part is read from the wrong file offset'
CXX='clang++-20'; SAN=''
FILES={'fakering.h':'@/tools/seeds/inc/fakering.h'}
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "fakering.h"
int main()
{
    Ring r; char buf[100]; Waiter w;
    auto t = r.w->async_read_exact_at(5, std::span<char>(buf, 100), 1000); start(t, &w);
    size_t pos = 0;
    for (int n : {30, 20, 10, 40}) { OK(r.pending() == 1); auto* s = r.next(); OK(s->addr == (uint64_t)(buf + pos) && s->off == 1000 + pos && s->len == 100 - pos); pos += n; r.complete(n); }
    OK(w.n == 1); auto x = t.await_resume(); OK(x.has_value()); _exit(0);
}
'''
