ID='B02-grow-live'; PROPERTY='B02'
EDITS=[('kio/core/bytes_mut.h','std::max(available_total * 2, data_len + additional);','std::max(available_total * 2, additional);')]
NEEDS='one reserve larger than twice the capacity while unread bytes are still in the buffer'
BREAKS='the new storage has no room for the live bytes, so the append that follows writes past its end'
DEMO='''#include <kio/core/bytes_mut.h>
#include <string>
int main()
{
    kio::BytesMut b(16); std::string a(10, 'a'), c(1000, 'c');
    b.extend_from_slice(a); b.extend_from_slice(c);
    auto s = b.readable_span();
    return std::string(s.data(), s.size()) == a + c ? 0 : 1;
}
'''
