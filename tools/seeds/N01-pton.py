ID='N01-v6-port'; PROPERTY='N01'
EDITS=[('kio/net/net.cpp','            addr6->sin6_port = htons(port);\n','            addr4->sin_port = htons(port);\n            addr6->sin6_scope_id = port ? 0 : 1;\n')]
NEEDS='an IPv6 literal with port 0'
BREAKS='the scope id of an IPv6 address requested with port 0 is set, so it is no longer precisely the address in the text'
DEMO='''#include <kio/net/net.cpp>
#include <cstring>
int main()
{
    for (int p : {80, 0, 65535}) for (const char* h : {"::1", "fe80::2", "127.0.0.1"})
    {
        auto r = kio::net::resolve_address(h, p); if (!r) return 2;
        if (r->family == AF_INET6) { auto* s = (sockaddr_in6*)&r->addr; in6_addr a; inet_pton(AF_INET6, h, &a); if (s->sin6_port != htons(p) || memcmp(&a, &s->sin6_addr, 16) || s->sin6_scope_id || s->sin6_flowinfo) return 1; }
        else if (((sockaddr_in*)&r->addr)->sin_port != htons(p)) return 1;
    }
    return 0;
}
'''
LIBS='-Wl,--unresolved-symbols=ignore-all'
