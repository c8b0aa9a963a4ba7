// Contract language shared by the verifier (kiovc interprets these calls symbolically) and the native replay runtime.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vc_u64(const char* name);
uint32_t vc_u32(const char* name);
uint16_t vc_u16(const char* name);
uint8_t vc_u8(const char* name);
bool vc_bool(const char* name);
// "one more step of an arbitrary history?"  (the loop it controls is not required to terminate)
bool vc_again(const char* name);
// arbitrary value below 2^bits
uint64_t vc_size(const char* name, unsigned bits);
// fresh object of exactly n bytes with arbitrary content
void* vc_region(size_t n, const char* name);
void vc_free_region(void* p);
// requires
void vc_assume(bool c);
// ensures / invariant clause.  "Xnn: text" attributes the clause to property Xnn only.
void vc_assert(bool c, const char* name);
// vacuity guard: must be reachable
void vc_cover(const char* name);
[[noreturn]] void vc_stop();
// spec-level queries about memory (ghost; the native runtime answers them as well as it can)
bool vc_alive(const void* p);
bool vc_same_object(const void* p, const void* q);
bool vc_inside(const void* p, const void* q, size_t n);
size_t vc_object_size(const void* p);
const void* vc_base(const void* p);
// ghost predicate P(k) about immutable input data; used as loop-invariant material "k < i => P"
void vc_pred(uint64_t k, bool p);
// registers a term as material for loop invariants (comparisons against it)
void vc_term(uint64_t t);
// proof hint: hard obligations are proved by cases over the values lo..hi of v
void vc_split(uint64_t v, uint64_t lo, uint64_t hi);
// candidate loop invariant: a predicate over the contract's ghost state (kept only where it is inductive)
void vc_invariant(bool (*inv)());
// uninterpreted function of a specification (constrained only by vc_assume'd defining axioms); verifier only
uint64_t vc_fn(const char* name, uint64_t a, uint64_t b, uint64_t c);
// requires: every byte p[j], lo <= j < hi, is within [mn,mx]; p points into an unmodified input region; verifier only
void vc_all_bytes(const void* p, uint64_t lo, uint64_t hi, uint64_t mn, uint64_t mx);
// requires: every byte p[j], lo <= j < hi, is a letter, digit or underscore (same restrictions)
void vc_all_name_bytes(const void* p, uint64_t lo, uint64_t hi);
// ghost index: universally quantified facts about memory are instantiated at this address
void vc_ghost_ptr(const void* p);
}
#define VC_SPEC static inline __attribute__((always_inline))
#define VC_HARNESS extern "C" __attribute__((noinline, used))
