ID='R01-leading-lf'; PROPERTY='R01'
EDITS=[('kio/resp/parser.cpp',"            if (idx > 0 && ptr[idx - 1] == '\\r') return idx - 1;  // Return index of \\r\n","            if (lf[-1] == '\\r') return idx - 1;  // Return index of \\r\n")]
NEEDS='input whose first unread byte is a line feed, with a carriage return just before it (already consumed, or before the storage)'
BREAKS='the search for the terminator reads the byte before the readable region and can report a terminator that starts before it'
DEMO='''#include <kio/resp/parser.cpp>
#include <string>
using namespace kio::resp;
int main()
{
    Parser p{ParserConfig{}};
    std::string a = "+a\\r\\n+b\\r\\n"; p.buffer().extend_from_slice(a);
    p.consume(3);
    // what is left is "\\n+b\\r\\n": its first terminator is the one after +b
    auto r = p.next_frame();
    if (r.has_value() || r.error() != ParseError::Unknown) return 1;
    p.buffer().clear();
    std::string b = "+a\\r\\n+b"; p.buffer().extend_from_slice(b);
    p.consume(3);
    r = p.next_frame();                       // "\\n+b" holds no terminator: incomplete
    return r.has_value() || r.error() != ParseError::NeedMoreData ? 1 : 0;
}
'''
