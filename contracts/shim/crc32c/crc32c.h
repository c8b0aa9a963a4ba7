// Stand-in for google/crc32c (a dependency that is not installed here).  Verifier: an assumed contract (C_crc in the contract
// file); native replay: a plain CRC-32C.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
#if defined(VC_VERIFY) || defined(VC_SP_CONTRACT)
extern "C" uint32_t C_crc(const char* p, size_t n);
namespace crc32c { inline uint32_t Crc32c(const char* p, size_t n) { return C_crc(p, n); } }
#else
namespace crc32c {
inline uint32_t Crc32c(const char* p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= (unsigned char)*p++; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1; } return ~c; }
}
#endif
