#pragma once
#pragma GCC system_header
#include "../omv_fixed.hpp"
#include <climits>
namespace boost {
template<class B = unsigned long, class A = std::allocator<B>> class dynamic_bitset {
    std::uint64_t w = 0; omv_std::length n;
    static std::uint64_t bit(std::size_t i) { return std::uint64_t(1) << i; }
    std::uint64_t all() const { return n >= 64 ? ~std::uint64_t(0) : bit(n) - 1; }
public:
    using size_type = std::size_t; static constexpr size_type npos = size_type(-1);
    struct reference {
        dynamic_bitset& b; std::size_t i;
        operator bool() const { return b.w >> i & 1; } bool operator~() const { return !bool(*this); }
        reference& operator=(bool v) { b.w = v ? b.w | bit(i) : b.w & ~bit(i); return *this; }
        reference& operator=(const reference& o) { return *this = bool(o); }
        reference& operator|=(bool v) { if (v) *this = true; return *this; }
        reference& operator&=(bool v) { if (!v) *this = false; return *this; }
        reference& flip() { b.w ^= bit(i); return *this; }
    };
    using const_reference = bool;
    dynamic_bitset() {}
    explicit dynamic_bitset(size_type k, unsigned long v = 0) : w(v), n(k) { if (k > 64) omv_overflow(); w &= all(); }
    static dynamic_bitset omv_make(std::uint64_t w, std::size_t n) { dynamic_bitset b; b.w = w; b.n = n; return b; }
    std::uint64_t omv_word() const { return w; }
    size_type size() const { return n; } bool empty() const { return n == 0; } void clear() { w = 0; n = 0; }
    void resize(size_type k, bool v = false) { if (k > 64) omv_overflow(); if (v && k > n) for (size_type i = n; i < k; ++i) w |= bit(i); n = k; w &= all(); }
    void push_back(bool v) { resize(n + 1, v); }
    reference operator[](size_type i) { return {*this, i}; } bool operator[](size_type i) const { return w >> i & 1; }
    bool test(size_type i) const { return w >> i & 1; } reference at(size_type i) { return {*this, i}; } bool at(size_type i) const { return test(i); }
    dynamic_bitset& set(size_type i, bool v = true) { (*this)[i] = v; return *this; } dynamic_bitset& set() { w = all(); return *this; }
    dynamic_bitset& reset(size_type i) { (*this)[i] = false; return *this; } dynamic_bitset& reset() { w = 0; return *this; }
    dynamic_bitset& flip() { w = ~w & all(); return *this; } dynamic_bitset& flip(size_type i) { w ^= bit(i); return *this; }
    bool any() const { return w != 0; } bool none() const { return w == 0; } bool all_set() const { return w == all(); }
    size_type count() const { size_type c = 0; for (size_type i = 0, e = n; i < e; ++i) c += w >> i & 1; return c; }
    size_type find_first() const { for (size_type i = 0; i < n; ++i) if (w >> i & 1) return i; return npos; }
    size_type find_next(size_type k) const { for (size_type i = k + 1; i < n; ++i) if (w >> i & 1) return i; return npos; }
    dynamic_bitset operator~() const { return omv_make(~w & all(), n); }
    dynamic_bitset& operator&=(const dynamic_bitset& o) { w &= o.w; return *this; }
    dynamic_bitset& operator|=(const dynamic_bitset& o) { w |= o.w; return *this; }
    dynamic_bitset& operator^=(const dynamic_bitset& o) { w ^= o.w; return *this; }
    dynamic_bitset& operator-=(const dynamic_bitset& o) { w &= ~o.w; return *this; }
    bool is_subset_of(const dynamic_bitset& o) const { return (w & ~o.w) == 0; }
    bool is_proper_subset_of(const dynamic_bitset& o) const { return is_subset_of(o) && w != o.w; }
    bool intersects(const dynamic_bitset& o) const { return (w & o.w) != 0; }
    unsigned long to_ulong() const { return w; }
    void swap(dynamic_bitset& o) { std::swap(w, o.w); std::swap(n, o.n); }
    friend dynamic_bitset operator&(dynamic_bitset a, const dynamic_bitset& b) { return a &= b; }
    friend dynamic_bitset operator|(dynamic_bitset a, const dynamic_bitset& b) { return a |= b; }
    friend dynamic_bitset operator^(dynamic_bitset a, const dynamic_bitset& b) { return a ^= b; }
    friend dynamic_bitset operator-(dynamic_bitset a, const dynamic_bitset& b) { return a -= b; }
    friend bool operator==(const dynamic_bitset& a, const dynamic_bitset& b) { return a.w == b.w && a.n == b.n; }
    friend bool operator!=(const dynamic_bitset& a, const dynamic_bitset& b) { return !(a == b); }
    friend bool operator<(const dynamic_bitset& a, const dynamic_bitset& b) { return a.n == b.n ? a.w < b.w : a.n < b.n; }
    friend bool operator>(const dynamic_bitset& a, const dynamic_bitset& b) { return b < a; }
    friend bool operator<=(const dynamic_bitset& a, const dynamic_bitset& b) { return !(b < a); }
    friend bool operator>=(const dynamic_bitset& a, const dynamic_bitset& b) { return !(a < b); }
};
}
