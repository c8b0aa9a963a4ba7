// Native runtime of the contract language: executes the very same contract text against the real code, on one concrete
// input.  Used only after a proof obligation failed, to replay the solver's counterexample or to look for a failing input.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <csetjmp>
#include <exception>
#include <vector>
#include <fstream>
#include <sstream>
struct VcSkip {};
#ifdef VC_LONGJMP
#define SKIP longjmp(skip_to, 1)
#else
#define SKIP throw VcSkip{}
#endif
// optional per-contract vocabulary: in half of the searched inputs, regions are built from these tokens
extern "C" __attribute__((weak)) const char* const vc_tokens[];
extern "C" void VC_ENTRY();
extern "C" void* __asan_region_is_poisoned(void* p, size_t n);
namespace {
struct Item { bool region; uint64_t val; std::string bytes; };
std::vector<Item> script; size_t pos; bool scripted;
const uint8_t* data; size_t left;
FILE* rec;
std::vector<std::pair<void*, size_t>> regions;
std::vector<uint64_t> pool;
uint8_t byte() { if (!left) return 0; --left; return *data++; }
bool active; jmp_buf skip_to;
// a skip that cannot unwind (noexcept function in between) leaves through here
[[noreturn]] void on_terminate()
{
    if (active && std::current_exception()) {
        try { std::rethrow_exception(std::current_exception()); } catch (const VcSkip&) { longjmp(skip_to, 1); } catch (const std::exception& e) { fprintf(stderr, "terminate called after %s\n", e.what()); } catch (...) {}
    }
    fprintf(stderr, "terminate called\n");
    abort();
}
uint64_t draw(const char* name, int bits)
{
    uint64_t v;
    if (!active) return 0;
    if (scripted) {
        if (pos >= script.size() || script[pos].region) { fprintf(stderr, "VC-DIVERGED at %s\n", name); SKIP; }
        v = script[pos++].val;
    } else {
        if (bits == 1) v = byte() & 1;
        else if (bits == 8) v = byte();
        else {
            uint8_t m = byte();
            switch (m & 15) {
                default: v = byte() & 31; break;
                case 6: case 7: v = byte(); break;
                case 8: v = byte() | byte() << 8; break;
                case 9: v = 0; for (int i = 0; i < 8; i++) v = v << 8 | byte(); break;
                case 10: v = ~uint64_t(0) - (byte() & 63); break;
                case 11: v = (uint64_t(1) << (byte() & 63)) + (int64_t)(int8_t)byte(); break;
                case 12: case 13: v = pool.empty() ? 0 : pool[byte() % pool.size()] + (m >> 4) % 5 - 2; break;
                case 14: v = pool.size() < 2 ? 0 : pool[byte() % pool.size()] - pool[byte() % pool.size()]; break;
                case 15: v = pool.size() < 2 ? 0 : -pool[byte() % pool.size()] + (byte() & 15); break;
            }
            pool.push_back(v);
        }
    }
    if (bits < 64) v &= (uint64_t(1) << bits) - 1;
    if (rec) { fprintf(rec, "val %s %d %llu\n", name, bits, (unsigned long long)v); fflush(rec); }
    return v;
}
}  // namespace
extern "C" {
uint64_t vc_u64(const char* n) { return draw(n, 64); }
uint32_t vc_u32(const char* n) { return (uint32_t)draw(n, 32); }
uint16_t vc_u16(const char* n) { return (uint16_t)draw(n, 16); }
uint8_t vc_u8(const char* n) { return (uint8_t)draw(n, 8); }
bool vc_bool(const char* n) { return draw(n, 1); }
bool vc_again(const char* n) { return (scripted ? pos < script.size() : left > 0) && draw(n, 1); }
uint64_t vc_size(const char* n, unsigned bits) { uint64_t v = draw(n, 64); if (bits < 64 && v >> bits) SKIP; return v; }
void* vc_region(size_t n, const char* name)
{
    if (n > (size_t(1) << 26)) { fprintf(stderr, "VC-TOO-LARGE %s\n", name); SKIP; }
    char* p = (char*)malloc(n);
    if (scripted) {
        if (pos >= script.size() || !script[pos].region) { fprintf(stderr, "VC-DIVERGED at %s\n", name); SKIP; }
        const std::string& s = script[pos++].bytes;
        memset(p, 0, n); memcpy(p, s.data(), s.size() < n ? s.size() : n);
    } else {
        size_t i = 0, nt = 0;
        if (&vc_tokens[0]) while (vc_tokens[nt]) ++nt;
        if (nt && (byte() & 3)) {
            while (i < n && left) { const char* t = vc_tokens[byte() % nt]; while (*t && i < n) p[i++] = *t++; }
            for (; i < n; i++) p[i] = 'x';
        } else if (n <= 48) for (; i < n; i++) p[i] = (char)byte();
        else {   // large objects take only part of the fuzzer's bytes: the rest of the input is needed for later draws
            size_t k = byte() & 63; char fill = (char)byte();
            for (; i < n; i++) p[i] = i < k ? (char)byte() : fill;
        }
    }
    regions.push_back({p, n});
    if (rec) { fprintf(rec, "region %s %zu ", name, n); size_t m = n; while (m && !p[m - 1]) --m; for (size_t i = 0; i < m; i++) fprintf(rec, "%02x", (unsigned char)p[i]); fprintf(rec, "\n"); fflush(rec); }
    return p;
}
void vc_free_region(void* p) { for (auto& r : regions) if (r.first == p) { r = regions.back(); regions.pop_back(); break; } free(p); }
void vc_assume(bool c) { if (!c) SKIP; }
void vc_assert(bool c, const char* name)
{
    if (c) return;
    const char* pr = getenv("VC_PROP"); if (pr && !strcmp(pr, "ALL")) pr = nullptr;
    if (pr && *pr && strlen(name) > 4 && name[3] == ':' && strncmp(name, pr, 3) != 0) return;
    fprintf(stderr, "VC-ASSERT-FAILED: %s\n", name); fflush(stderr);
    abort();
}
void vc_cover(const char*) {}
bool vc_active() { return active; }
[[noreturn]] void vc_stop() { SKIP; }
bool vc_alive(const void* p) { return !__asan_region_is_poisoned((void*)p, 1); }
bool vc_same_object(const void*, const void*) { return true; }
bool vc_inside(const void* p, const void*, size_t n) { return n == 0 || !__asan_region_is_poisoned((void*)p, n); }
size_t vc_object_size(const void*) { return 0; }
extern void* __asan_locate_address(void*, char*, size_t, void**, size_t*);
const void* vc_base(const void* p) { void* b = nullptr; size_t n; char nm[8]; __asan_locate_address((void*)p, nm, sizeof nm, &b, &n); return b; }
void vc_pred(uint64_t, bool) {}
void vc_term(uint64_t) {}
void vc_split(uint64_t, uint64_t, uint64_t) {}
void vc_invariant(bool (*)()) {}
void vc_ghost_ptr(const void*) {}
void vc_fail(const char* name) { fprintf(stderr, "VC-ASSERT-FAILED: %s\n", name); fflush(stderr); abort(); }
int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    static bool first = true;
    if (first) { first = false; if (const char* f = getenv("VC_RECORD")) rec = fopen(f, "w"); }
    data = d; left = n; pos = 0; pool.clear();
    if (n >= 8 && !memcmp(d, "VCSCRIPT", 8)) {
        scripted = true; script.clear();
        std::istringstream in(std::string((const char*)d + 8, n - 8)); std::string l;
        while (std::getline(in, l)) {
            std::istringstream ls(l); std::string k, nm; ls >> k >> nm;
            if (k == "val") { int b; unsigned long long v; ls >> b >> v; script.push_back({false, v, {}}); }
            else if (k == "region") { size_t sz; std::string hex; ls >> sz >> hex; std::string s; for (size_t i = 0; i + 1 < hex.size(); i += 2) s += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16); script.push_back({true, 0, s}); }
        }
    } else scripted = false;
    std::set_terminate(on_terminate);
    active = true;
    if (!setjmp(skip_to)) { try { VC_ENTRY(); } catch (const VcSkip&) {} }
    active = false;
    for (auto& r : regions) free(r.first);
    regions.clear();
    return 0;
}
}
