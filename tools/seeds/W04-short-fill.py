ID='W04-short-fill'; PROPERTY='W04'
EDITS=[('kio/core/worker.cpp','        current_offset += res_in;\n','        current_offset += static_cast<off_t>(to_splice);\n')]
NEEDS='a splice from the file that moves less than the chunk asked for, with more of the range to go'
BREAKS='the bytes between the short splice and the chunk boundary are skipped although success is reported'
CXX='clang++-20'; SAN=''
FILES={'fakering.h':'@/tools/seeds/inc/fakering.h'}
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "fakering.h"
int main()
{
    Ring r; Waiter w; const size_t N = 150000;
    auto t = r.w->async_sendfile(900, 901, 4096, N); start(t, &w);
    size_t in = 0, out = 0; int k = 0; const int parts[] = {65536, 4096, 9000, 70000};
    while (out < N) {
        OK(r.pending() == 1); auto* s = r.next();
        if (s->splice_fd_in == 901) { OK(in == out && s->splice_off_in == 4096 + in && s->len > 0 && s->len <= N - in); size_t n = std::min<size_t>(s->len, parts[k++ % 4]); in += n; r.complete((int)n); }
        else { OK(s->fd == 900 && s->len <= in - out); size_t n = (s->len + 1) / 2; out += n; r.complete((int)n); }
    }
    OK(w.n == 1); auto x = t.await_resume(); OK(x.has_value() && in == N); _exit(0);
}
'''
