ID='B01-compact-order'; PROPERTY='B01'
EDITS=[('kio/core/bytes_mut.h','''            read_pos_ += n;
        }''','''            read_pos_ += n;

            // Reclaim the consumed prefix early once it dominates the buffer
            if (read_pos_ > 2 * kAutoCompactionThreshold && remaining() < read_pos_ && remaining() > 0)
            {
                std::memcpy(buffer_.data(), buffer_.data() + read_pos_, remaining());
                read_pos_ = 0;
                write_pos_ = remaining();
            }
        }''')]
NEEDS='more than 2048 bytes consumed while fewer than that many unread bytes remain'
BREAKS='advance() reclaims the prefix but computes the new write cursor after resetting the read cursor, so stale bytes are delivered again'
DEMO='''#include <kio/core/bytes_mut.h>
#include <string>
int main()
{
    kio::BytesMut b(65536); std::string in, out;
    for (int r = 0; r < 40; ++r)
    {
        std::string s; for (int i = 0; i < 700 + r; ++i) s.push_back(char(r * 31 + i * 7));
        b.extend_from_slice(s); in += s;
        size_t k = r % 9 == 8 ? b.remaining() - 3 : 300;
        if (k > b.remaining()) return 1;
        auto p = b.peek(k); out.append(p.data(), k); b.advance(k);
    }
    while (!b.is_empty()) { auto s = b.readable_span(); size_t k = s.size() < 1000 ? s.size() : 1000; out.append(s.data(), k); b.advance(k); if (out.size() > in.size()) return 1; }
    return out == in ? 0 : 1;
}
'''
