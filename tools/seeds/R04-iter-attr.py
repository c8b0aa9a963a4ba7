ID='R04-iter-attr'; PROPERTY='R04'
EDITS=[('kio/resp/parser.cpp','        if (parent.type == FrameType::Map || parent.type == FrameType::Attribute)\n        {\n            remaining_ *= 2;','        if (parent.type == FrameType::Map)\n        {\n            remaining_ *= 2;')]
NEEDS='iterating the children of an attribute frame'
BREAKS='only half of the children of an attribute are delivered'
DEMO='''#include <kio/resp/parser.cpp>
#include <string>
using namespace kio::resp;
static int run(const std::string& s, int want)
{
    Parser p{ParserConfig{}}; p.buffer().extend_from_slice(s);
    auto r = p.next_frame(); if (!r) return 1;
    FrameIterator it(*r, p); int n = 0; size_t tot = 0; for (;;) { auto c = it.next(); if (!c) { if (c.error() != ParseError::EoIter) return 1; break; } ++n; tot += c->size; }
    return n == want && tot + 4 == s.size() ? 0 : 1;
}
int main() { return run("*2\\r\\n:1\\r\\n:2\\r\\n", 2) | run("%2\\r\\n:1\\r\\n:2\\r\\n+a\\r\\n+b\\r\\n", 4) | run("|2\\r\\n:1\\r\\n:2\\r\\n+a\\r\\n+b\\r\\n", 4); }
'''
