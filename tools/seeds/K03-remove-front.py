exec(open(__import__('os').path.join(__import__('os').path.dirname(__file__),'K03-evict-touch.py')).read())
ID='K03-remove-front'; PROPERTY='K03'
EDITS=[('bitcask/src/fd_cache.cpp','            lru_list_.erase(it->second.lru_iter);\n','            if (lru_list_.front() != file_id) lru_list_.erase(it->second.lru_iter);\n')]
NEEDS='removing the most recently used file several times, then enough lookups to evict its stale list elements'
BREAKS='an eviction frees nothing and the cache grows beyond its limit'
DEMO=PRE+'''static Root go()
{
    bitcask::FDCache c(reinterpret_cast<kio::io::Worker&>(wmem), 2);
    for (int i = 0; i < 4; i++) { (void)(co_await c.get_or_open(1, "x")); c.remove(1); if (c.size() != 0) { bad = 1; co_return; } }
    for (int i = 3; i <= 8; i++) { if (!(co_await c.get_or_open(i, "x"))) { bad = 1; co_return; } if (c.size() > 2) { bad = 1; co_return; } }
    bad = 0;
}
int main() { go(); return bad; }
'''
