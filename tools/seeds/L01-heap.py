ID='L01-stale-heap'; PROPERTY='L01'
EDITS=[('kio/core/async_logger.h','''                buffer = other.buffer;
                msg = std::span<const char>(buffer.data(), other.msg.size());
                heap_msg.reset();
            }
''','''                buffer = other.buffer;
                msg = std::span<const char>(buffer.data(), other.msg.size());
            }
''')]
NEEDS='a slot that held a long message, is overwritten with a short one, and is moved again'
BREAKS='the old long text reappears in place of the short one'
DEMO='''#include <kio/core/async_logger.h>
using kio::LogMessage;
int main()
{
    std::string big(1000, 'x'), small = "short";
    LogMessage slot, s;
    { LogMessage m; m.set_large_message(std::string(big)); slot = std::move(m); }
    s.set_small_message(std::span<const char>(small.data(), small.size()));
    slot = std::move(s);
    if (slot.view() != small) return 1;
    LogMessage out(std::move(slot));
    return out.view() == small ? 0 : 1;
}
'''
