ID='R03-depth-attr'; PROPERTY='R03'
EDITS=[('kio/resp/parser.cpp','const auto child = parse_frame_internal(data.subspan(offset), depth + 1);','const auto child = parse_frame_internal(data.subspan(offset), type == FrameType::Attribute ? depth : depth + 1);')]
NEEDS='frames nested through attributes deeper than the configured depth'
BREAKS='attributes no longer count towards the nesting limit, so hostile input recurses without bound'
DEMO='''#include <kio/resp/parser.cpp>
#include <string>
using namespace kio::resp;
static int run(char t, const char* cnt, size_t n, size_t depth)
{
    ParserConfig c{}; c.max_aggregate_depth = depth; Parser p{c};
    std::string s; for (size_t i = 0; i < n; ++i) s += std::string(1, t) + cnt + "\\r\\n"; s += ":1\\r\\n";
    for (size_t i = 0; i < n; ++i) if (t == '|' || t == '%') s += ":1\\r\\n";
    p.buffer().extend_from_slice(s);
    auto r = p.next_frame();
    return n > depth ? (!r && r.error() == ParseError::MaxDepthReached ? 0 : 1) : (r && r->size == s.size() ? 0 : 1);
}
int main()
{
    int e = 0;
    for (char t : {'*', '~', '>', '%', '|'}) for (size_t n : {1, 3, 4, 5, 9}) e |= run(t, t == '|' || t == '%' ? "1" : "1", n, 4);
    return e;
}
'''
