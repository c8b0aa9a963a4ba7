ID='W04-pipe-drain'; PROPERTY='W04'
EDITS=[('kio/core/worker.cpp','            if (res_out == 0) co_return std::unexpected(Error{ErrorCategory::Network, EPIPE});\n','            if (res_out == 0) break;\n')]
NEEDS='a splice to the destination that moves nothing while the pipe still holds data'
BREAKS='the bytes left in the pipe count as sent and success is reported'
CXX='clang++-20'; SAN=''
FILES={'fakering.h':'@/tools/seeds/inc/fakering.h'}
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "fakering.h"
int main()
{
    Ring r; Waiter w;
    auto t = r.w->async_sendfile(900, 901, 0, 1000); start(t, &w);
    OK(r.pending() == 1); r.complete(1000); OK(r.pending() == 1); r.complete(400);
    if (r.pending() == 1) r.complete(0);
    OK(w.n == 1 && r.pending() == 0); auto x = t.await_resume(); OK(!x.has_value()); _exit(0);
}
'''
