// Contracts of the stored-entry codec (bitcask/include/entry.h, bitcask/src/entry.cpp).
#include "vc.h"
#include <sys/stat.h>
#include "nolog.h"
#include <bitcask/src/entry.cpp>
using namespace bitcask;
typedef uint64_t u64;
// ---------------------------------------------------------------------------------------------------------------------
// Assumed contract of the dependencies:
//  serialize(t)      some non-empty byte string P determined by t;  needed(t) = |P|
//  deserialize(s)    reads only s; fails, or returns some value whose own encoding is a prefix of s; if s is P it returns t
//  Crc32c(p,n)       reads only [p,p+n); a function of those bytes
char* g_P; u64 g_Pn;           // the encoding of the entry under test
const char* g_s; u64 g_sn;     // the span handed to the decoder
uint32_t g_crc; const char* g_crc_p; u64 g_crc_n; bool g_crc_called;
u64 g_used, g_K; int g_round;  // g_round: the bytes under test are an encoding
u64 g_ts; uint8_t g_flag; bool g_decode_called;
const DataEntry* g_e;
#ifdef VC_VERIFY
VC_SPEC bool same_bytes(const char* p, u64 n) { return n == g_Pn && (g_K >= n || p[g_K] == g_P[g_K]); }
extern "C" uint32_t C_crc(const char* p, size_t n)
{
    vc_assert(n == 0 || vc_inside(p, p, n), "K01: the checksum covers only existing bytes");
    g_crc_called = true; g_crc_p = p; g_crc_n = n;
    if (g_round) vc_assert(same_bytes(p, n), "K01: the checksum covers exactly the payload");
    return g_crc;
}
namespace struct_pack {
template <class T> struct any_contract {
    static std::vector<char> serialize(const T& t)
    {
        std::vector<char> v(g_P, g_P + g_Pn);
        return v;
    }
    static void serialize_to(std::vector<char>& c, const T& t) { c.insert(c.end(), g_P, g_P + g_Pn); }
    static size_t needed(const T& t) { return g_round ? g_Pn : g_used; }
    static bool deserialize(const char* p, size_t n, T& t)
    {
        vc_assert(n == 0 || vc_inside(p, p, n), "K01: the decoder is given only existing bytes");
        g_decode_called = true; g_s = p; g_sn = n;
        if (g_round) vc_assert(same_bytes(p, n), "K01: the decoder is given exactly the payload");
        else { if (vc_bool("undecodable")) return false; g_used = vc_u64("used"); vc_assume(g_used <= n && g_used > 0); }
        t.timestamp_ns = g_ts;
        if constexpr (requires { t.flag; }) t.flag = g_flag;
        return true;
    }
};
template <> struct sp_contract<DataEntry> : any_contract<DataEntry> {};
template <> struct sp_contract<HintEntry> : any_contract<HintEntry> {};
template <> struct sp_contract<Manifest> : any_contract<Manifest> {};
}
#endif
VC_SPEC u64 le(const char* p, unsigned n) { u64 v = 0; for (unsigned i = 0; i < n; ++i) v |= (u64)(unsigned char)p[i] << (8 * i); return v; }
// what is written: checksum of the payload, its length, the payload
VC_HARNESS void H_encode()
{
    DataEntry e; e.timestamp_ns = vc_u64("ts"); e.flag = vc_u8("flag");
#ifdef VC_VERIFY
    g_Pn = vc_size("payload", 40); vc_assume(g_Pn > 0); g_P = (char*)vc_region(g_Pn, "P"); g_K = vc_size("K", 40); g_round = 1; g_crc = vc_u32("crc");
    vc_ghost_ptr(g_P + g_K);
#else
    const u64 kn = vc_size("kn", 6); char* kp = (char*)vc_region(kn, "key"); e.key.assign(kp, kn);
    const auto enc = struct_pack::serialize(e); g_Pn = enc.size(); g_P = (char*)malloc(g_Pn); memcpy(g_P, enc.data(), g_Pn); g_crc = crc32c::Crc32c(g_P, g_Pn); g_K = vc_size("K", 6);
#endif
    const std::vector<char> out = e.serialize();
    vc_assert(out.size() == 12 + g_Pn, "K01: an encoded entry is header and payload, nothing else");
    vc_assert(le(out.data(), 4) == g_crc, "K01: the first field is the payload's checksum, little-endian");
    vc_assert(le(out.data() + 4, 8) == g_Pn, "K01: the second field is the payload's length, little-endian");
    if (g_K < g_Pn) { vc_cover("payload byte"); vc_assert(out[12 + g_K] == g_P[g_K], "K01: the payload follows unaltered"); }
}
// whatever the bytes are
VC_HARNESS void H_decode_any()
{
    const u64 n = vc_size("n", 40); char* buf = (char*)vc_region(n, "in");
    g_round = 0; g_ts = vc_u64("ts"); g_flag = vc_u8("flag"); g_crc = vc_u32("crc"); g_crc_called = g_decode_called = false;
    const auto r = DataEntry::deserialize({buf, n});
    const u64 size = n >= 12 ? le(buf + 4, 8) : 0;
    const bool complete = n > 12 && size <= n - 12;
#ifndef VC_VERIFY
    if (complete) g_crc = crc32c::Crc32c(buf + 12, size);
#endif
    if (!complete) {
        vc_cover("short");
        vc_assert(!r && r.error() == kio::Error(kio::ErrorCategory::Serialization, kio::kIoNeedMoreData), "K01: a short buffer asks for more data");
    } else if (g_crc != le(buf, 4)) {
        vc_cover("corrupt");
        vc_assert(!r && r.error() == kio::Error(kio::ErrorCategory::Serialization, kio::kIoDataCorrupted), "K01: a checksum mismatch reports corruption");
    }
    if (r) {
        vc_cover("decoded");
        vc_assert(complete, "K01: an entry is returned only if the declared payload is completely present");
        vc_assert(g_crc == le(buf, 4), "K01: an entry is returned only if its checksum matches");
        vc_assert(r->second > 12 && r->second <= 12 + size, "K01: the next position lies behind the header and not behind the declared payload");
#ifdef VC_VERIFY
        vc_assert(g_crc_called && g_crc_p == buf + 12 && g_crc_n == size, "K01: the checksum compared is that of the declared payload");
        vc_assert(g_decode_called && g_s == buf + 12 && g_sn == size, "K01: the entry is decoded from the declared payload");
        vc_assert(r->first.timestamp_ns == g_ts && r->first.flag == g_flag, "K01: the decoded fields are returned");
#endif
    } else if (complete && g_crc == le(buf, 4)) {
        vc_cover("undecodable");
        vc_assert(r.error() == kio::Error(kio::ErrorCategory::Serialization, kio::kIoDeserialization), "K01: an undecodable payload reports a decoding failure");
    }
}
// a buffer that begins with an encoded entry
VC_HARNESS void H_decode_encoded()
{
    const u64 trail = vc_size("trail", 40);
#ifdef VC_VERIFY
    const u64 pn = vc_size("payload", 40); vc_assume(pn > 0);
    char* buf = (char*)vc_region(12 + pn + trail, "in");
    g_round = 1; g_Pn = pn; g_P = buf + 12; g_crc = vc_u32("crc"); g_K = vc_size("K", 40); g_ts = vc_u64("ts"); g_flag = vc_u8("flag");
    vc_assume(le(buf, 4) == g_crc && le(buf + 4, 8) == pn);
#else
    DataEntry e; g_ts = e.timestamp_ns = vc_u64("ts"); g_flag = e.flag = vc_u8("flag");
    const u64 kn = vc_size("kn", 6); char* kp = (char*)vc_region(kn, "key"); e.key.assign(kp, kn);
    const auto enc = e.serialize(); const u64 pn = enc.size() - 12;
    char* t = (char*)vc_region(trail, "trail");
    std::vector<char> all(enc); all.insert(all.end(), t, t + trail); char* buf = all.data();
#endif
    const auto r = DataEntry::deserialize({buf, 12 + pn + trail});
    vc_assert(r.has_value(), "K01: an encoded entry decodes");
    vc_cover("decoded");
    vc_assert(r->first.timestamp_ns == g_ts && r->first.flag == g_flag, "K01: decoding returns the entry that was encoded");
    vc_assert(r->first.is_tombstone() == ((g_flag & 1) != 0), "K01: the tombstone mark is kept");
    vc_assert(r->second == 12 + pn, "K01: decoding returns exactly the encoded length");
#ifndef VC_VERIFY
    vc_assert(r->first.key == e.key, "K01: decoding returns the entry that was encoded");
#endif
}
VC_HARNESS void H_hint()
{
    const u64 n = vc_size("n", 40); char* buf = (char*)vc_region(n, "in");
    g_round = 0; g_ts = vc_u64("ts"); g_decode_called = false;
    const auto r = HintEntry::deserialize({buf, n});
#ifdef VC_VERIFY
    vc_assert(g_decode_called && g_sn == n && (n == 0 || g_s == buf), "K01: a hint is decoded from exactly the bytes given");
    if (r) vc_assert(r->timestamp_ns == g_ts, "K01: the decoded hint is returned");
#endif
    if (r) vc_cover("hint"); else { vc_cover("bad hint"); vc_assert(r.error() == kio::Error(kio::ErrorCategory::Serialization, kio::kIoDeserialization), "K01: an undecodable hint reports a decoding failure"); }
}
