ID='R02-null-bulk-early'; PROPERTY='R02'
EDITS=[('kio/resp/parser.cpp','if (payload_len == -1)\n','if (payload_len < 0 && *pos == 3)\n'),]
NEEDS='a bulk header with a one-digit negative length other than -1'
BREAKS='$-2..$-9 are taken for the null bulk string instead of being refused'
DEMO='''#include <kio/resp/parser.cpp>
#include <string>
using namespace kio::resp;
static int feed(const std::string& s, size_t want)
{
    Parser p{ParserConfig{}}; p.buffer().extend_from_slice(s);
    auto r = p.next_frame();
    if (want == 0) return r ? 1 : r.error() == ParseError::Atoi ? 0 : 1;
    return r && r->size == want ? 0 : 1;
}
int main()
{
    return feed("$-1\\r\\n", 5) | feed("$3\\r\\nabc\\r\\n", 9) | feed("$-2\\r\\n", 0) | feed("$-7\\r\\nxx", 0) | feed("!-9\\r\\n", 0) | feed("$-12\\r\\n", 0);
}
'''
