// std::unordered_map and std::list under a contract.  The code under contract is compiled with the two containers replaced
// by these types: an arbitrary map / list of which only the elements the operation asks for are spelled out.
//   map:  a set of keys with values; vc_fresh(map, key, value) describes an element that was there before
//   list: elements in some order; elements inserted by this operation have a known place, the others are older
// Include everything else first, then this file, then the code under contract.
#pragma once
#include <bits/stdc++.h>
#include "vc.h"
namespace std {
// how the contract of the map stores a key: rep (compared), first (what an element shows as its key)
template <class K> struct vc_keys {
    typedef K rep;
    VC_SPEC const K& of(const K& k) { return k; }
    VC_SPEC void first(void* p, const K& k) { ::new (p) K(k); }
};
template <class K, class V, class H = void, class E = void, class A = void> struct vc_map {
    typedef K key_type; typedef V mapped_type; typedef pair<const K, V> value_type; typedef size_t size_type;
    static constexpr int MAX = 4;
    typedef typename vc_keys<K>::rep rep;
    struct Slot { rep key; bool present; value_type* node; };
    Slot s[MAX]; int used = 0; size_t unknown = 0;
    struct iterator {
        value_type* p = nullptr;
        value_type* operator->() const { return p; }
        value_type& operator*() const { return *p; }
        bool operator==(const iterator&) const = default;
        typedef pair<const K, V> value_type; typedef ptrdiff_t difference_type; typedef value_type& reference; typedef value_type* pointer; typedef forward_iterator_tag iterator_category;
        iterator& operator++() { vc_assert(false, "contract: the map is not iterated over"); return *this; }
        iterator operator++(int) { ++*this; return *this; }
    };
    typedef iterator const_iterator;
    iterator begin() const { vc_assert(false, "contract: the map is not iterated over"); return {}; }
    vc_map() {}
    template <class R> requires(!is_same_v<remove_cvref_t<R>, vc_map>) explicit vc_map(R&&) {}
    vc_map(const vc_map&) = delete;
    vc_map& operator=(const vc_map&) = delete;
    iterator end() const { return {}; }
    iterator cend() const { return {}; }
    template <int I> int same_from(const rep& k)
    {
        if constexpr (I < MAX) {
            if (I >= used) return -1;
            if (s[I].key == k) return I;
            return same_from<I + 1>(k);
        }
        return -1;
    }
    // the slot of key k, spelled out if it was not
    int at_slot(const K& k)
    {
        const rep r = vc_keys<K>::of(k);
        const int f = same_from<0>(r); if (f >= 0) return f;
        vc_assert(used < MAX, "contract: more keys than the contract of the map spells out");
        const int i = used++;
        s[i].key = r; s[i].node = nullptr; s[i].present = vc_bool("present");
        if (s[i].present) {
            vc_assume(unknown > 0); unknown--;
            s[i].node = (value_type*)::operator new(sizeof(value_type));
            vc_keys<K>::first((void*)&s[i].node->first, k);
            vc_fresh(*this, k, &s[i].node->second);
        }
        return i;
    }
    void forget() { for (int i = 0; i < MAX; i++) s[i].node = nullptr; used = 0; }
    int known() const { int n = 0; for (int i = 0; i < used; ++i) n += s[i].present; return n; }
    size_t size() const { return unknown + (size_t)known(); }
    bool empty() const { return size() == 0; }
    iterator find(const K& k) const { auto* m = const_cast<vc_map*>(this); const int i = m->at_slot(k); return {s[i].present ? s[i].node : nullptr}; }
    bool contains(const K& k) const { return find(k).p != nullptr; }
    size_t count(const K& k) const { return contains(k); }
    V& at(const K& k) const { const auto it = find(k); if (!it.p) throw out_of_range("at"); return it->second; }
    template <class... X> pair<iterator, bool> try_emplace(const K& k, X&&... x)
    {
        const int i = at_slot(k);
        if (s[i].present) return {{s[i].node}, false};
        s[i].node = (value_type*)::operator new(sizeof(value_type));
        vc_keys<K>::first((void*)&s[i].node->first, k); ::new ((void*)&s[i].node->second) V(std::forward<X>(x)...);
        s[i].present = true;
        return {{s[i].node}, true};
    }
    V& operator[](const K& k) { return try_emplace(k).first->second; }
    template <class X> pair<iterator, bool> emplace(const K& k, X&& x) { return try_emplace(k, std::forward<X>(x)); }
    template <class X> pair<iterator, bool> insert_or_assign(const K& k, X&& x)
    {
        auto r = try_emplace(k, std::forward<X>(x));
        if (!r.second) r.first->second = std::forward<X>(x);
        return r;
    }
    pair<iterator, bool> insert(value_type&& v) { return try_emplace(v.first, std::move(v.second)); }
    void drop(int i) { value_type* n = s[i].node; s[i].present = false; s[i].node = nullptr; n->second.~V(); if constexpr (!is_trivially_destructible_v<K>) n->first.~K(); ::operator delete(n); }
    iterator erase(iterator it)
    {
        for (int i = 0; i < used; ++i) if (s[i].present && s[i].node == it.p) { drop(i); return {}; }
        vc_assert(false, "contract: an iterator of an element in the map is erased");
        return {};
    }
    size_t erase(const K& k) { const int i = at_slot(k); if (!s[i].present) return 0; drop(i); return 1; }
    void clear() { for (int i = 0; i < used; ++i) if (s[i].present) drop(i); unknown = 0; }
};
template <class T, class A = void> struct vc_list {
    static constexpr int MAX = 6;
    struct Node { T v; bool in; int seq; };
    Node* k[MAX]; int used = 0, seq = 0; size_t unknown = 0; Node *last = nullptr, *first = nullptr;   // the back and the old front, once somebody asked
    struct iterator {
        Node* p = nullptr;
        T& operator*() const { return p->v; }
        bool operator==(const iterator&) const = default;
    };
    typedef iterator const_iterator;
    vc_list() {}
    vc_list(const vc_list&) = delete;
    vc_list& operator=(const vc_list&) = delete;
    Node* add(const T& v, int q)
    {
        vc_assert(used < MAX, "contract: more elements than the contract of the list spells out");
        Node* n = (Node*)::operator new(sizeof(Node)); n->v = v; n->in = true; n->seq = q;
        return k[used++] = n;
    }
    Node* older(const T& v) { vc_assume(unknown > 0); unknown--; return add(v, 0); }   // an element that was there before
    void forget() { used = 0; seq = 0; last = first = nullptr; }
    int known() const { int n = 0; for (int i = 0; i < used; ++i) n += k[i]->in; return n; }
    size_t size() const { return unknown + (size_t)known(); }
    bool empty() const { return size() == 0; }
    iterator end() const { return {}; }
    void push_front(const T& v) { add(v, ++seq); }
    void emplace_front(const T& v) { add(v, ++seq); }
    void gone(Node* n) { vc_assert(n && n->in, "contract: an element of the list is removed"); vc_removed(*this, n, n == back_node(n)); n->in = false; if (n == last) last = nullptr; if (n == first) first = nullptr; }
    Node* back_node(Node*) { return last; }
    iterator erase(iterator it) { gone(it.p); return {}; }
    template <int I> Node* pick(bool oldest)
    {
        if constexpr (I < MAX) {
            if (I >= used) return nullptr;
            if (k[I]->in && k[I]->seq == 0 && vc_bool(oldest ? "is last" : "is first")) return k[I];
            return pick<I + 1>(oldest);
        }
        return nullptr;
    }
    Node* find_back()
    {
        vc_assert(size() > 0, "contract: the last element of an empty list is used");
        if (last) return last;
        // the oldest element: one of those inserted before this operation, if there are any
        if (Node* n = pick<0>(true)) { vc_assume(n != first || size() == 1); return last = n; }
        if (vc_bool("another is last")) { vc_assume(unknown > 0); return last = vc_older(*this); }
        vc_assume(unknown == 0);
        Node* b = nullptr;
        for (int i = 0; i < used; ++i) if (k[i]->in) { vc_assume(k[i]->seq > 0); if (!b || k[i]->seq < b->seq) b = k[i]; }
        vc_assume(b != nullptr);
        return last = b;
    }
    T& back() { return find_back()->v; }
    void pop_back() { gone(find_back()); }
    Node* find_front()
    {
        Node* b = nullptr;
        for (int i = 0; i < used; ++i) if (k[i]->in && k[i]->seq > 0) if (!b || k[i]->seq > b->seq) b = k[i];
        if (b) return b;
        if (first) return first;
        if (Node* n = pick<0>(false)) { vc_assume(n != last || size() == 1); return first = n; }
        vc_assume(unknown > 0 || known() == 0);
        if (unknown == 0) return nullptr;
        return first = vc_older(*this);
    }
    iterator begin() { return {find_front()}; }
    T& front() { return find_front()->v; }
    void pop_front() { gone(find_front()); }
    void splice(iterator pos, vc_list& from, iterator it)
    {
        vc_assert(&from == this && it.p && it.p->in, "contract: an element of the list is moved within it");
        vc_assert(pos == begin(), "contract: an element is moved to the front");
        it.p->seq = ++seq; if (it.p == last) last = nullptr; if (it.p == first) first = nullptr;
    }
    void clear() { for (int i = 0; i < used; ++i) k[i]->in = false; unknown = 0; last = first = nullptr; }
};
namespace pmr { template <class K, class V> using vc_map = std::vc_map<K, V>; }
}
