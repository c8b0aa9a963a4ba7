// Contract of std::string as an abstract byte sequence that is only built by appending (verifier only).
// A string under construction is its length plus an observer that sees every appended byte, in order, at its position;
// reading the text of such a string back is not part of the contract (a null data pointer makes it a memory violation).
#pragma once
#include "vc.h"
#include <string>
struct GRep { const char* p; uint64_t n; uint64_t a, b; };
#ifdef VC_VERIFY
// supplied by the contract file: bytes p[0..n) are appended at position pos
extern "C" void G_append(const char* p, uint64_t n, uint64_t pos);
extern "C" void G_byte(char c, uint64_t pos);
#define GFN extern "C" __attribute__((used, noinline))
GFN void GS_init(GRep* s) { s->p = nullptr; s->n = 0; }
GFN void GS_char(GRep* s, char c) { G_byte(c, s->n); s->n++; }
GFN void GS_copy(GRep* s, const GRep* o) { s->p = nullptr; s->n = 0; G_append(o->p, o->n, 0); s->n = o->n; }
GFN void GS_append(GRep* s, const char* p, uint64_t n) { G_append(p, n, s->n); s->n += n; }
GFN GRep* GS_cstr(GRep* s, const char* p) { const uint64_t n = __builtin_strlen(p); for (uint64_t i = 0; i < n; ++i) { G_byte(p[i], s->n); s->n++; } return s; }
GFN GRep* GS_plus_char(GRep* s, char c) { GS_char(s, c); return s; }
GFN GRep* GS_append_pn(GRep* s, const char* p, uint64_t n) { GS_append(s, p, n); return s; }
GFN GRep* GS_append_str(GRep* s, const GRep* o) { GS_append(s, o->p, o->n); return s; }
GFN GRep* GS_append_sub(GRep* s, const GRep* o, uint64_t pos, uint64_t n) { const uint64_t k = o->n - pos; GS_append(s, o->p + pos, n < k ? n : k); return s; }
GFN GRep* GS_append_fill(GRep* s, uint64_t n, char c) { vc_assume(n <= 16); for (uint64_t i = 0; i < n; ++i) { G_byte(c, s->n); s->n++; } return s; }
GFN void GS_construct_pn(GRep* s, const char* p, uint64_t n, const void*) { s->p = nullptr; s->n = 0; GS_append(s, p, n); }
GFN void GS_move(GRep* s, GRep* o) { s->p = nullptr; s->n = o->n; o->n = 0; }
GFN GRep* GS_move_assign(GRep* s, GRep* o) { s->p = nullptr; s->n = o->n; o->n = 0; return s; }
GFN void GS_reserve(GRep* s, uint64_t n) {}
GFN void GS_destroy(GRep* s) {}
#endif
