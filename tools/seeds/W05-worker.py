ID='W05-empty-pool'; PROPERTY='W05'
EDITS=[('kio/core/worker_pool.cpp','        if (id < workers_.size())\n','        if (id <= workers_.size() - 1)\n')]
NEEDS='a lookup in a pool that has no workers (before construction finished or after teardown)'
BREAKS='the bound underflows, so any id is looked up in an empty array'
CXX='clang++-20'; SAN=''
DEMO='''#include <kio/core/worker_pool.cpp>
#include <sys/wait.h>
int main()
{
    alignas(64) static char mem[sizeof(kio::io::IOPool)]; auto* p = (kio::io::IOPool*)mem;
    static kio::io::Worker* slots[4] = {(kio::io::Worker*)64, (kio::io::Worker*)128, (kio::io::Worker*)192, (kio::io::Worker*)256};
    for (size_t n = 0; n <= 3; ++n)
    {
        void** v = (void**)&p->workers_; v[0] = slots; v[1] = slots + n; v[2] = slots + 4;
        for (size_t id = 0; id < 6; ++id) { pid_t c = fork(); if (!c) _exit(p->get_worker(id) == (id < n ? slots[id] : nullptr) ? 0 : 1); int st; waitpid(c, &st, 0); if (st) return 1; }
    }
    return 0;
}
'''
LIBS='-no-pie -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
