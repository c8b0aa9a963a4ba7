exec(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'K04-len16.py')).read())
ID='K04-rotate'; PROPERTY='K04'
EDITS=[('bitcask/src/data_file.cpp','return size_ >= max_file_size; }','return size_ > max_file_size; }')]
NEEDS='a file filled to exactly the configured limit'
BREAKS='a file that has reached its limit takes one more record'
DEMO=PRE+'''static int bad = -1;
static Root go()
{
    bitcask::BitcaskConfig cfg;
    bitcask::DataFile f(open("/dev/null", O_RDONLY), 1, reinterpret_cast<kio::io::Worker&>(wmem), cfg);
    bad = 0; record = 64;
    for (int i = 1; i <= 4; i++) {
        auto r = co_await f.async_write(reinterpret_cast<const bitcask::DataEntry&>(emem));
        if (!r || f.should_rotate(256) != (i == 4)) { bad = 1; co_return; }
    }
}
int main() { go(); return bad; }
'''
