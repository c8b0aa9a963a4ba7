ID='W03-accept-zero'; PROPERTY='W03'
EDITS=[('kio/core/worker.cpp','''        int ret = co_await make_uring_awaitable(*this, prep, server_fd, addr, addrlen, 0);
        if (ret < 0)
''','''        int ret = co_await make_uring_awaitable(*this, prep, server_fd, addr, addrlen, 0);
        if (ret <= 0)
''')]
NEEDS='a connection accepted as descriptor 0 (standard input was closed)'
BREAKS='the accepted connection is reported as a failure with error number 0 and its descriptor leaks'
CXX='clang++-20'; SAN=''
FILES={'fakering.h':'@/tools/seeds/inc/fakering.h'}
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "fakering.h"
int main()
{
    Ring r;
    for (int res : {7, 0, -11}) {
        Waiter w; auto before = r.w->stats_.connections_accepted_total;
        auto t = r.w->async_accept(3, nullptr, nullptr); start(t, &w); OK(r.pending() == 1); r.complete(res); OK(w.n == 1);
        auto x = t.await_resume(); OK(x.has_value() == (res >= 0)); if (x) OK(*x == res); else OK(x.error().value == -res);
        OK(r.w->stats_.connections_accepted_total == before + (res >= 0));
    }
    _exit(0);
}
'''
