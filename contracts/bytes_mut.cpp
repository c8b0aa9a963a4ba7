// Contracts of kio::BytesMut (kio/core/bytes_mut.h).
#include "vc.h"
#include <kio/core/bytes_mut.h>
#include <new>
using kio::BytesMut;

// Representation invariant, set up in full generality: any vector storage (size <= capacity, any content) and any
// cursors 0 <= r <= w <= size.
struct St { size_t r, w, size, cap; char* data; };
template<class B>
VC_SPEC St make(B& b)
{
    St s;
    s.cap = vc_size("cap", 40); s.size = vc_size("size", 40); s.r = vc_size("r", 40); s.w = vc_size("w", 40);
    vc_assume(s.size <= s.cap && s.w <= s.size && s.r <= s.w);
#ifdef VC_VERIFY
    if (s.cap == 0 && vc_bool("null")) s.data = nullptr; else
#endif
    s.data = (char*)vc_region(s.cap, "buf");
    if constexpr (requires { b.buffer_._M_impl._M_start; b.read_pos_; b.write_pos_; })
    {
#ifdef VC_VERIFY
        b.buffer_._M_impl._M_start = s.data;
        b.buffer_._M_impl._M_finish = s.data + s.size;
        b.buffer_._M_impl._M_end_of_storage = s.data + s.cap;
#else
        b.buffer_.reserve(s.cap); b.buffer_.resize(s.size);
        vc_assume(b.buffer_.capacity() == s.cap);
        __builtin_memcpy(b.buffer_.data(), s.data, s.size);
        s.data = b.buffer_.data();
#endif
        b.read_pos_ = s.r; b.write_pos_ = s.w;
    }
    else
    {
        // representation not recognised: reach the state through the public operations instead
        b.~B(); new (&b) B(s.size); s.cap = b.capacity();
        vc_assume(b.writable() == s.size);
        __builtin_memcpy(b.writable_span().data(), s.data, s.w);
        b.commit_write(s.w); b.advance(s.r);
    }
    return s;
}
// old readable byte number k (captured before the operation)
VC_SPEC uint64_t pick(const St& s, char& out)
{
    uint64_t k = vc_u64("k");
    if (k < s.w - s.r) out = s.data[s.r + k]; else out = 0;
    return k;
}
// the abstract view after an operation: exactly n readable bytes; byte k equals c
VC_SPEC void view(const BytesMut& b, size_t n)
{
    auto sp = b.readable_span();
    vc_assert(sp.size() == n, "B01: readable length is what was written minus what was consumed");
    vc_assert(b.remaining() == n, "B01: remaining() agrees with readable_span()");
    vc_assert(b.is_empty() == (n == 0), "B01: is_empty() agrees");
    vc_assert(n == 0 || vc_inside(sp.data(), sp.data(), n), "B02: readable span lies inside live storage");
    vc_assert(b.writable() <= b.capacity(), "B02: writable space within capacity");
    vc_assert(b.consumed() + n + b.writable() <= b.capacity(), "B02: cursors within storage");
}
VC_SPEC void wspan(BytesMut& b)
{
    auto ws = b.writable_span();
    vc_assert(ws.size() == b.writable(), "B01: writable() agrees with writable_span()");
    vc_assert(ws.size() == 0 || vc_inside(ws.data(), ws.data(), ws.size()), "B02: writable span lies inside live storage");
    auto rs = b.readable_span();
    if (ws.size() && rs.size()) vc_assert(vc_same_object(ws.data(), rs.data()) && rs.data() + rs.size() == ws.data(), "B01: writable space directly follows the readable bytes");
}
VC_HARNESS void H_ctor()
{
    size_t n = vc_u64("n");
    try {
        BytesMut b(n);
        vc_cover("constructed");
        view(b, 0); wspan(b);
        vc_assert(b.writable() >= n, "B01: initial capacity is writable");
        vc_assert(b.consumed() == 0, "B01: nothing consumed");
    } catch (const std::length_error&) { vc_cover("length_error"); vc_assert(n >= (size_t(1) << 46), "B02: constructor throws only for absurd sizes"); }
      catch (const std::bad_alloc&) { vc_assert(n >= (size_t(1) << 46), "B02: constructor throws only for absurd sizes"); }
    BytesMut d; view(d, 0); wspan(d);
}
VC_HARNESS void H_reserve()
{
    BytesMut b; St s = make(b); char c; uint64_t k = pick(s, c);
    size_t n = vc_u64("n");
    const size_t len = s.w - s.r;
    bool threw = false;
    try { b.reserve(n); } catch (const std::length_error&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
    view(b, len); wspan(b);
    if (k < len) vc_assert(b.readable_span()[k] == c, "B01: reserve keeps every readable byte");
    if (threw) { vc_cover("reserve refuses"); vc_assert(b.remaining() == len && b.consumed() == s.r && b.writable() == s.size - s.w, "B02: refused reserve changes nothing"); vc_assert(n >= (size_t(1) << 45), "B02: reserve throws only when the size cannot be satisfied"); }
    else { vc_cover("reserve grows"); vc_assert(b.writable() >= n, "B01: reserve(n) makes n bytes writable"); vc_assert(n < (size_t(1) << 47), "B02: a size that cannot be satisfied is not treated as satisfied"); }
}
VC_HARNESS void H_commit()
{
    BytesMut b; St s = make(b); char c; uint64_t k = pick(s, c);
    size_t n = vc_u64("n"), j = vc_u64("j");
    const size_t len = s.w - s.r, room = s.size - s.w;
    vc_assert(b.writable() == room, "B01: writable() is the free space");
    wspan(b);
    char nb = 0; if (j < room) nb = b.writable_span()[j];
    bool threw = false;
    try { b.commit_write(n); } catch (const std::out_of_range&) { threw = true; }
    vc_assert(threw == (n > room), "B02: commit_write is rejected exactly when it exceeds the writable space");
    if (threw) { vc_cover("commit refused"); view(b, len); vc_assert(b.writable() == room && b.remaining() == len && b.consumed() == s.r, "B02: refused commit changes nothing"); if (k < len) vc_assert(b.readable_span()[k] == c, "B02: refused commit keeps the content"); }
    else {
        vc_cover("committed"); view(b, len + n); wspan(b);
        vc_assert(b.writable() == room - n, "B01: commit consumes writable space");
        if (j < n) vc_assert(b.readable_span()[len + j] == nb, "B01: committed bytes follow in order");
    }
    if (k < len) vc_assert(b.readable_span()[k] == c, "B01: commit keeps earlier bytes");
}
VC_HARNESS void H_advance()
{
    BytesMut b; St s = make(b); char c; uint64_t k = pick(s, c);
    size_t n = vc_u64("n");
    const size_t len = s.w - s.r;
    bool threw = false;
    try { b.advance(n); } catch (const std::out_of_range&) { threw = true; }
    vc_assert(threw == (n > len), "B02: advance is rejected exactly when it exceeds the readable bytes");
    if (threw) { vc_cover("advance refused"); view(b, len); vc_assert(b.writable() == s.size - s.w && b.remaining() == len && b.consumed() == s.r, "B02: refused advance keeps the cursors"); if (k < len) vc_assert(b.readable_span()[k] == c, "B02: refused advance changes nothing"); }
    else {
        vc_cover("advanced"); view(b, len - n);
        if (k >= n && k < len) vc_assert(b.readable_span()[k - n] == c, "B01: advance drops exactly the first n bytes");
        vc_assert(b.writable() >= s.size - s.w, "B01: advance keeps the writable space");
    }
}
VC_HARNESS void H_peek()
{
    BytesMut b; St s = make(b); char c; uint64_t k = pick(s, c);
    size_t n = vc_u64("n");
    const size_t len = s.w - s.r;
    bool threw = false;
    try {
        auto sp = b.peek(n);
        vc_assert(sp.size() == n, "B01: peek returns n bytes");
        vc_assert(n == 0 || vc_inside(sp.data(), b.readable_span().data(), n), "B02: peek stays inside the readable bytes' storage");
        if (k < n) { vc_assert(k < len && sp[k] == c, "B01: peek shows the next readable bytes"); }
    } catch (const std::out_of_range&) { threw = true; vc_assert(b.remaining() == len && b.consumed() == s.r && b.writable() == s.size - s.w, "B02: refused peek changes nothing"); }
    vc_assert(threw == (n > len), "B02: peek is rejected exactly when it exceeds the readable bytes");
    view(b, len);
    if (k < len) { vc_cover("peeked"); vc_assert(b.readable_span()[k] == c, "B01: peek changes nothing"); }
}
VC_HARNESS void H_compact()
{
    BytesMut b; St s = make(b); char c; uint64_t k = pick(s, c);
    const size_t len = s.w - s.r, room = s.size - s.w;
    b.compact();
    view(b, len); wspan(b);
    if (k < len) { vc_cover("compacted"); vc_assert(b.readable_span()[k] == c, "B01: compact keeps every readable byte"); }
    vc_assert(b.consumed() == 0 , "B01: compact reclaims the consumed prefix");
    vc_assert(b.writable() >= room + s.r, "B01: compacted space becomes writable");
}
VC_HARNESS void H_clear()
{
    BytesMut b; St s = make(b);
    b.clear();
    view(b, 0); wspan(b);
    vc_assert(b.writable() == s.size, "B01: clear makes the whole buffer writable");
    vc_cover("cleared");
}
VC_HARNESS void H_observers()
{
    BytesMut b; St s = make(b); char c; uint64_t k = pick(s, c);
    view(b, s.w - s.r); wspan(b);
    vc_assert(b.consumed() == s.r, "B01: consumed() counts consumed bytes");
    vc_assert(b.capacity() == s.cap, "B01: capacity()");
    if (k < s.w - s.r) { vc_cover("content"); vc_assert(b.readable_span()[k] == c, "B01: readable content"); }
    (void)b.should_compact();
}
// the appended span is a foreign buffer
VC_HARNESS void H_extend()
{
    BytesMut b; St s = make(b); char c; uint64_t k = pick(s, c);
    size_t n = vc_size("n", 40), j = vc_u64("j");
    const size_t len = s.w - s.r;
    char* src = (char*)vc_region(n, "src");
    char sb = 0; if (j < n) sb = src[j];
    b.extend_from_slice({src, n});
    view(b, len + n); wspan(b);
    if (k < len) { vc_cover("kept"); vc_assert(b.readable_span()[k] == c, "B01: extend keeps earlier bytes"); }
    if (j < n) { vc_cover("appended"); vc_assert(b.readable_span()[len + j] == sb, "B01: extend appends exactly the given bytes in order"); vc_assert(src[j] == sb, "B01: source untouched"); }
}
