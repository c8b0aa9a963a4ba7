// Stand-in for ylt's struct_pack (a dependency that is not installed here).  The verifier sees only its contract
// (sp_contract<T>, assumed, stated in the contract files); the native replay uses a small real codec with the same interface.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <expected>
#include <span>
#include <string>
#include <system_error>
#include <tuple>
#include <vector>
#define SP_M(T, m) , &T::m
#define SP_1(T, a) SP_M(T, a)
#define SP_2(T, a, ...) SP_M(T, a) SP_1(T, __VA_ARGS__)
#define SP_3(T, a, ...) SP_M(T, a) SP_2(T, __VA_ARGS__)
#define SP_4(T, a, ...) SP_M(T, a) SP_3(T, __VA_ARGS__)
#define SP_5(T, a, ...) SP_M(T, a) SP_4(T, __VA_ARGS__)
#define SP_6(T, a, ...) SP_M(T, a) SP_5(T, __VA_ARGS__)
#define SP_PICK(_1, _2, _3, _4, _5, _6, N, ...) N
#define YLT_REFL(T, ...) inline auto sp_fields(const T*) { return std::make_tuple(0 SP_PICK(__VA_ARGS__, SP_6, SP_5, SP_4, SP_3, SP_2, SP_1)(T, __VA_ARGS__)); }
namespace struct_pack {
struct err { std::string message() const { return "deserialization failed"; } explicit operator bool() const { return true; } };
// no contract given for T: nothing may depend on it
template <class T> struct sp_contract
{
    static std::vector<char> serialize(const T&) { __builtin_trap(); }
    template <class C> static void serialize_to(C&, const T&) { __builtin_trap(); }
    static size_t needed(const T&) { __builtin_trap(); }
    static bool deserialize(const char*, size_t, T&) { __builtin_trap(); }
};
#if defined(VC_VERIFY) || defined(VC_SP_CONTRACT)
template <class T> std::vector<char> serialize(const T& t) { return sp_contract<T>::serialize(t); }
template <class C, class T> void serialize_to(C& c, const T& t) { sp_contract<T>::serialize_to(c, t); }
template <class T> size_t get_needed_size(const T& t) { return sp_contract<T>::needed(t); }
template <class T, class V> std::expected<T, err> deserialize(const V& v)
{
    T t;
    if (sp_contract<T>::deserialize(v.data(), v.size(), t)) return t;
    return std::unexpected(err{});
}
#else
namespace d {
template <class I> void put(std::vector<char>& o, const I& v) { const size_t n = o.size(); o.resize(n + sizeof(I)); memcpy(o.data() + n, &v, sizeof(I)); }
inline void put(std::vector<char>& o, const std::string& s) { put(o, (uint64_t)s.size()); o.insert(o.end(), s.begin(), s.end()); }
inline void put(std::vector<char>& o, const std::vector<char>& s) { put(o, (uint64_t)s.size()); o.insert(o.end(), s.begin(), s.end()); }
template <class I> bool get(const char*& p, size_t& n, I& v) { if (n < sizeof(I)) return false; memcpy(&v, p, sizeof(I)); p += sizeof(I); n -= sizeof(I); return true; }
template <class C> bool getc(const char*& p, size_t& n, C& s) { uint64_t k; if (!get(p, n, k) || k > n) return false; s.assign(p, p + k); p += k; n -= k; return true; }
inline bool get(const char*& p, size_t& n, std::string& s) { return getc(p, n, s); }
inline bool get(const char*& p, size_t& n, std::vector<char>& s) { return getc(p, n, s); }
}
template <class T> std::vector<char> serialize(const T& t)
{
    std::vector<char> o;
    std::apply([&](int, auto... m) { (d::put(o, t.*m), ...); }, sp_fields(&t));
    return o;
}
template <class C, class T> void serialize_to(C& c, const T& t) { auto o = serialize(t); c.insert(c.end(), o.begin(), o.end()); }
template <class T> size_t get_needed_size(const T& t) { return serialize(t).size(); }
template <class T, class V> std::expected<T, err> deserialize(const V& v)
{
    T t; const char* p = v.data(); size_t n = v.size(); bool ok = true;
    std::apply([&](int, auto... m) { ((ok = ok && d::get(p, n, t.*m)), ...); }, sp_fields(&t));
    if (!ok) return std::unexpected(err{});
    return t;
}
#endif
}
