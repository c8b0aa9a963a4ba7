// std::atomic under a rely-guarantee contract.  The code under contract is compiled with std::atomic<T> replaced by this
// type (same size, same operations, memory orders as arguments): every atomic operation first lets the other threads move
// (A_before: any step the contract allows them), then happens, then has to be allowed to this thread (A_store, A_load).
// The replacement is the only thing changed about the text of the code.  Include before the header under contract.
#pragma once
#include <bits/stdc++.h>
extern "C" {
void A_before(const void* loc);                                       // the environment moves; may change *loc
uint64_t A_load(const void* loc, uint64_t now, std::memory_order o);  // the value a read returns (relaxed reads may be older)
void A_store(const void* loc, uint64_t old, uint64_t now, std::memory_order o, bool rmw);
void A_acquired(const void* loc, uint64_t v);                         // an acquiring read of v
bool vc_bool(const char*);
}
namespace std {
template <class T> VC_SPEC uint64_t vc_bits(T v) { if constexpr (is_pointer_v<T>) return (uint64_t)v; else return (uint64_t)v; }
template <class T> struct vc_atomic {
    T v_;
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const noexcept { return true; }
    constexpr vc_atomic() noexcept : v_() {}
    constexpr vc_atomic(T x) noexcept : v_(x) {}
    vc_atomic(const vc_atomic&) = delete;
    vc_atomic& operator=(const vc_atomic&) = delete;
    static bool acq(memory_order o) { return o == memory_order_acquire || o == memory_order_acq_rel || o == memory_order_seq_cst || o == memory_order_consume; }
    T load(memory_order o = memory_order_seq_cst) const noexcept
    {
        A_before(this);
        T r = (T)A_load(this, vc_bits(v_), o);
        if (acq(o)) A_acquired(this, vc_bits(r));
        return r;
    }
    void store(T x, memory_order o = memory_order_seq_cst) noexcept { A_before(this); T old = v_; v_ = x; A_store(this, vc_bits(old), vc_bits(x), o, false); }
    T rmw(T old, T x, memory_order o) noexcept { if (acq(o)) A_acquired(this, vc_bits(old)); v_ = x; A_store(this, vc_bits(old), vc_bits(x), o, true); return old; }
    T exchange(T x, memory_order o = memory_order_seq_cst) noexcept { A_before(this); return rmw(v_, x, o); }
    T fetch_add(T d, memory_order o = memory_order_seq_cst) noexcept { A_before(this); return rmw(v_, (T)(v_ + d), o); }
    T fetch_sub(T d, memory_order o = memory_order_seq_cst) noexcept { A_before(this); return rmw(v_, (T)(v_ - d), o); }
    T fetch_or(T d, memory_order o = memory_order_seq_cst) noexcept { A_before(this); return rmw(v_, (T)(v_ | d), o); }
    T fetch_and(T d, memory_order o = memory_order_seq_cst) noexcept { A_before(this); return rmw(v_, (T)(v_ & d), o); }
    bool cas(T& e, T d, memory_order so, memory_order fo, bool weak) noexcept
    {
        A_before(this);
        const bool spurious = weak && vc_bool("spurious");
        const T old = v_;
        if (old == e && !spurious) { rmw(old, d, so); return true; }
        e = (T)A_load(this, vc_bits(old), fo);
        if (acq(fo)) A_acquired(this, vc_bits(e));
        return false;
    }
    static constexpr memory_order fail(memory_order o) { return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o; }
    bool compare_exchange_weak(T& e, T d, memory_order so, memory_order fo) noexcept { return cas(e, d, so, fo, true); }
    bool compare_exchange_strong(T& e, T d, memory_order so, memory_order fo) noexcept { return cas(e, d, so, fo, false); }
    bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { return cas(e, d, o, fail(o), true); }
    bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { return cas(e, d, o, fail(o), false); }
    operator T() const noexcept { return load(); }
    T operator=(T x) noexcept { store(x); return x; }
    T operator++() noexcept { return (T)(fetch_add(1) + 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator+=(T d) noexcept { return (T)(fetch_add(d) + d); }
};
}
VC_SPEC bool is_release(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
#define atomic vc_atomic
