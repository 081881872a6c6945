// Bounded models of the standard containers, for the analysis of constant-size
// instances: the storage is inline, so that after unrolling every element is a
// value of the analysis. The interfaces are those of the standard; exceeding
// Elements are not destroyed: nothing in the library observes it. Exceeding
// the bound is an event (omv_overflow) that no specification contains.
#ifndef OMV_FIXED_HPP
#define OMV_FIXED_HPP
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>
#include <bits/functional_hash.h>
#include <bits/stl_function.h>
#include <bits/stl_algobase.h>
#ifndef OMV_CAP
#define OMV_CAP 4
#endif
#ifndef OMV_WORDS
#define OMV_WORDS 24
#endif
[[noreturn]] void omv_overflow() noexcept;
namespace omv_std {
template<class T> struct cap { static constexpr std::size_t value = std::is_scalar<T>::value || std::is_union<T>::value ? OMV_WORDS : OMV_CAP; };
// a number that nothing but itself can alias
class length {
    enum class rep : std::size_t {};
    rep r = rep(0);
public:
    length() {}
    length(std::size_t v) : r(rep(v)) {}
    operator std::size_t() const { return static_cast<std::size_t>(r); }
    length& operator++() { r = rep(std::size_t(r) + 1); return *this; }
    length& operator--() { r = rep(std::size_t(r) - 1); return *this; }
    std::size_t operator++(int) { std::size_t v = *this; ++*this; return v; }
};
template<class T> struct storage {
    alignas(T) unsigned char raw[sizeof(T) * cap<T>::value];
    T* at(std::size_t i) { return reinterpret_cast<T*>(raw) + i; }
    const T* at(std::size_t i) const { return reinterpret_cast<const T*>(raw) + i; }
};

// With OMV_ARITY, the vectors of pointers to classes are the virtual parameters
// of a method or of an overrider, of which there is that constant number.
template<class T, class = void> struct is_class_ptr : std::false_type {};
template<class T> struct is_class_ptr<T*, decltype(void(&T::transitive_derived))> : std::true_type {};

// a sequence with inline storage: vector and deque
template<class T> class sequence {
    storage<T> s; length n;
public:
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using reference = T&; using const_reference = const T&; using pointer = T*; using const_pointer = const T*;
    using iterator = T*; using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
    using allocator_type = std::allocator<T>;
    sequence() {}
    explicit sequence(size_type k) { resize(k); }
    sequence(size_type k, const T& v) { assign(k, v); }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> sequence(I f, I l) { assign(f, l); }
    sequence(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
    sequence(const sequence& o) { for (size_type i = 0, e = o.n; i < e; ++i) push_back(*o.s.at(i)); }
    sequence(sequence&& o) { for (size_type i = 0, e = o.n; i < e; ++i) push_back(std::move(*o.s.at(i))); o.clear(); }
    sequence& operator=(const sequence& o) { if (this != &o) { clear(); for (size_type i = 0, e = o.n; i < e; ++i) push_back(*o.s.at(i)); } return *this; }
    sequence& operator=(sequence&& o) { if (this != &o) { clear(); for (size_type i = 0, e = o.n; i < e; ++i) push_back(std::move(*o.s.at(i))); o.clear(); } return *this; }
    sequence& operator=(std::initializer_list<T> l) { assign(l.begin(), l.end()); return *this; }
    void assign(size_type k, const T& v) { clear(); for (size_type i = 0; i < k; ++i) push_back(v); }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> void assign(I f, I l) { clear(); for (; f != l; ++f) push_back(*f); }
    void assign(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
    size_type size() const {
#ifdef OMV_ARITY
        if constexpr (is_class_ptr<T>::value) { if (n != OMV_ARITY) omv_overflow(); return OMV_ARITY; }
#endif
        return n;
    }
    bool empty() const { return n == 0; }
    size_type capacity() const { return cap<T>::value; }
    size_type max_size() const { return std::size_t(-1) / sizeof(T); }
    void reserve(size_type) {}
    void shrink_to_fit() {}
    T& operator[](size_type i) { return *s.at(i); }
    const T& operator[](size_type i) const { return *s.at(i); }
    T& at(size_type i) { if (i >= n) omv_overflow(); return *s.at(i); }
    const T& at(size_type i) const { if (i >= n) omv_overflow(); return *s.at(i); }
    T& front() { return *s.at(0); } const T& front() const { return *s.at(0); }
    T& back() { return *s.at(n - 1); } const T& back() const { return *s.at(n - 1); }
    T* data() { return s.at(0); } const T* data() const { return s.at(0); }
    iterator begin() { return s.at(0); } const_iterator begin() const { return s.at(0); }
    iterator end() { return s.at(size()); } const_iterator end() const { return s.at(size()); }
    const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const { return rbegin(); } const_reverse_iterator crend() const { return rend(); }
    template<class... A> T& emplace_back(A&&... a) {
        if (n == cap<T>::value) omv_overflow();
        T* p = new (static_cast<void*>(s.at(n))) T(std::forward<A>(a)...); ++n; return *p;
    }
    void push_back(const T& v) { emplace_back(v); }
    void push_back(T&& v) { emplace_back(std::move(v)); }
    void pop_back() { --n; }
    void push_front(const T& v) { insert(begin(), v); }
    void pop_front() { erase(begin()); }
    template<class... A> iterator emplace(const_iterator p, A&&... a) { return insert(p, T(std::forward<A>(a)...)); }
    iterator insert(const_iterator p, T v) {
        size_type k = p - s.at(0);
        if (k == n) { emplace_back(std::move(v)); return s.at(k); }
        emplace_back(std::move(back()));
        for (size_type i = n - 2; i > k; --i) *s.at(i) = std::move(*s.at(i - 1));
        *s.at(k) = std::move(v); return s.at(k);
    }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> iterator insert(const_iterator p, I f, I l) {
        size_type k = p - s.at(0), i = k; for (; f != l; ++f) insert(s.at(i++), *f); return s.at(k);
    }
    iterator erase(const_iterator p) { size_type k = p - s.at(0); for (size_type i = k, e = n; i + 1 < e; ++i) *s.at(i) = std::move(*s.at(i + 1)); pop_back(); return s.at(k); }
    iterator erase(const_iterator f, const_iterator l) {
        size_type k = f - s.at(0), d = l - f; for (size_type i = k, e = n; i + d < e; ++i) *s.at(i) = std::move(*s.at(i + d));
        for (; d; --d) pop_back(); return s.at(k);
    }
    void clear() { n = 0; }
    void resize(size_type k) { size_type e = n; if (k > cap<T>::value) omv_overflow(); for (size_type i = e; i < k; ++i) new (static_cast<void*>(s.at(i))) T(); n = k; }
    void resize(size_type k, const T& v) { size_type e = n; if (k > cap<T>::value) omv_overflow(); for (size_type i = e; i < k; ++i) new (static_cast<void*>(s.at(i))) T(v); n = k; }
    void swap(sequence& o) { sequence t(std::move(o)); o = std::move(*this); *this = std::move(t); }
    friend bool operator==(const sequence& a, const sequence& b) { if (a.n != b.n) return false; for (size_type i = 0; i < a.n; ++i) if (!(a[i] == b[i])) return false; return true; }
    friend bool operator!=(const sequence& a, const sequence& b) { return !(a == b); }
    friend void swap(sequence& a, sequence& b) { a.swap(b); }
};

// a sequence with heap storage, whose elements stay where they are when it is swapped
template<class T> class heap_sequence {
    T* p = nullptr; length n, c;
    void grow(std::size_t k) {
        if (k <= c) return;
        T* q = static_cast<T*>(::operator new(k * sizeof(T)));
        for (std::size_t i = 0, e = n; i < e; ++i) q[i] = p[i];
        p = q; c = k;
    }
public:
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using reference = T&; using const_reference = const T&; using pointer = T*; using const_pointer = const T*;
    using iterator = T*; using const_iterator = const T*;
    heap_sequence() {}
    // what is released must not be read again
    ~heap_sequence() { if (c) __builtin_memset(static_cast<void*>(p), 0, c * sizeof(T)); }
    explicit heap_sequence(size_type k) { resize(k); }
    heap_sequence(size_type k, const T& v) { resize(k, v); }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> heap_sequence(I f, I l) { for (; f != l; ++f) push_back(*f); }
    heap_sequence(const heap_sequence& o) { for (auto& x : o) push_back(x); }
    heap_sequence(heap_sequence&& o) : p(o.p), n(o.n), c(o.c) { o.p = nullptr; o.n = o.c = 0; }
    heap_sequence& operator=(const heap_sequence& o) { heap_sequence t(o); swap(t); return *this; }
    heap_sequence& operator=(heap_sequence&& o) { heap_sequence t(std::move(o)); swap(t); return *this; }
    size_type size() const { return n; } bool empty() const { return n == 0; } size_type capacity() const { return c; }
    void reserve(size_type k) { grow(k); }
    void shrink_to_fit() { if (!n) { p = nullptr; c = 0; } }
    void clear() { n = 0; }
    void resize(size_type k) { grow(k); T* q = p; for (size_type i = n; i < k; ++i) new (static_cast<void*>(q + i)) T(); n = k; }
    void resize(size_type k, const T& v) { grow(k); T* q = p; for (size_type i = n; i < k; ++i) new (static_cast<void*>(q + i)) T(v); n = k; }
    void assign(size_type k, const T& v) { clear(); resize(k, v); }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> void assign(I f, I l) { clear(); for (; f != l; ++f) push_back(*f); }
    void push_back(const T& v) { T t(v); if (n == c) grow(c ? 2 * c : 1); new (static_cast<void*>(p + n)) T(t); ++n; }
    template<class... A> T& emplace_back(A&&... a) { push_back(T(std::forward<A>(a)...)); return p[n - 1]; }
    void pop_back() { --n; }
    T& operator[](size_type i) { return p[i]; } const T& operator[](size_type i) const { return p[i]; }
    T& at(size_type i) { if (i >= n) omv_overflow(); return p[i]; } const T& at(size_type i) const { if (i >= n) omv_overflow(); return p[i]; }
    T& front() { return p[0]; } T& back() { return p[n - 1]; }
    T* data() { return p; } const T* data() const { return p; }
    iterator begin() { return p; } iterator end() { return p + n; }
    const_iterator begin() const { return p; } const_iterator end() const { return p + n; }
    const_iterator cbegin() const { return p; } const_iterator cend() const { return p + n; }
    void swap(heap_sequence& o) { std::swap(p, o.p); std::swap(n, o.n); std::swap(c, o.c); }
    friend void swap(heap_sequence& a, heap_sequence& b) { a.swap(b); }
};

// associative containers: a list of entries in order of insertion, or sorted
#ifdef OMV_TABLES
// A vector of which the number of elements is unknown: the value that fills
// it, and the elements that were written at (unknown) places.
template<class T> class table;
template<class T> struct table_iterator {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
    table<T>* t; std::size_t i;
    T& operator*() const { return (*t)[i]; }
    T& operator[](std::size_t k) const { return (*t)[i + k]; }
    table_iterator& operator++() { ++i; return *this; }
    table_iterator operator+(std::ptrdiff_t k) const { return {t, i + k}; }
    table_iterator operator-(std::ptrdiff_t k) const { return {t, i - k}; }
    std::ptrdiff_t operator-(const table_iterator& o) const { return i - o.i; }
    bool operator==(const table_iterator& o) const { return i == o.i; }
    bool operator!=(const table_iterator& o) const { return i != o.i; }
};
extern "C" [[noreturn]] void omv_out_of_bounds() noexcept;
extern "C" __attribute__((const, nothrow)) void* omv_any(std::size_t);
template<class T> class table {
    std::size_t sz; T fill; length n;
    std::size_t at_[OMV_CAP]; T val[OMV_CAP];
public:
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using reference = T&; using const_reference = const T&; using pointer = T*; using const_pointer = const T*;
    using iterator = table_iterator<T>; using const_iterator = table_iterator<T>;
    table() : sz(0) {}
    explicit table(size_type k) : sz(k), fill() {}
    table(size_type k, const T& v) : sz(k), fill(v) {}
    table(const table& o) : sz(o.sz), fill(o.fill) { copy(o); }
    table(table&& o) : sz(o.sz), fill(o.fill) { copy(o); o.clear(); }
    table& operator=(const table& o) { if (this != &o) { sz = o.sz; fill = o.fill; copy(o); } return *this; }
    table& operator=(table&& o) { if (this != &o) { sz = o.sz; fill = o.fill; copy(o); o.clear(); } return *this; }
    void copy(const table& o) { n = 0; for (size_type i = 0, e = o.n; i < e; ++i) { at_[i] = o.at_[i]; val[i] = o.val[i]; ++n; } }
    void assign(size_type k, const T& v) { sz = k; fill = v; n = 0; }
    void resize(size_type k, const T& v = T()) {
        if (sz == 0) { fill = v; n = 0; }
        else if (fill == v) { for (size_type i = 0, e = n; i < e; ++i) if (!(at_[i] < k)) val[i] = v; }
        else if (k != sz) { fill = T(omv_any(k)); n = 0; }
        sz = k;
    }
    void omv_fill(const T& v) { fill = v; n = 0; }
    size_type size() const { return sz; } bool empty() const { return sz == 0; }
    size_type capacity() const { return sz; } void reserve(size_type) {} void shrink_to_fit() {}
    void clear() { sz = 0; n = 0; }
    T& operator[](size_type i) {
        if (!(i < sz)) omv_out_of_bounds();
        for (size_type k = 0, e = n; k < e; ++k) if (at_[k] == i) return val[k];
        if (n == OMV_CAP) omv_overflow();
        at_[n] = i; val[n] = fill; return val[n++];
    }
    const T& operator[](size_type i) const {
        if (!(i < sz)) omv_out_of_bounds();
        for (size_type k = 0, e = n; k < e; ++k) if (at_[k] == i) return val[k];
        return fill;
    }
    T& at(size_type i) { return (*this)[i]; } const T& at(size_type i) const { return (*this)[i]; }
    iterator begin() { return {this, 0}; } iterator end() { return {this, sz}; }
    const_iterator begin() const { return {const_cast<table*>(this), 0}; } const_iterator end() const { return {const_cast<table*>(this), sz}; }
    iterator data() { return begin(); } const_iterator data() const { return begin(); }
    void swap(table& o) { table t(std::move(o)); o = std::move(*this); *this = std::move(t); }
    friend void swap(table& a, table& b) { a.swap(b); }
};
#endif

template<class K, class V, class Less> class assoc {   // Less = void: unordered
public:
    using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>;
    using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = value_type&; using const_reference = const value_type&;
    using pointer = value_type*; using const_pointer = const value_type*;
    using iterator = value_type*; using const_iterator = const value_type*;
private:
    storage<value_type> s; length n;
    static bool before(const K& a, const K& b) { if constexpr (std::is_void<Less>::value) return false; else return Less()(a, b); }
    static bool same(const K& a, const K& b) { if constexpr (std::is_void<Less>::value) return a == b; else return !Less()(a, b) && !Less()(b, a); }
public:
    assoc() {}
    assoc(const assoc& o) { for (size_type i = 0, e = o.n; i < e; ++i) omv_append(*o.s.at(i)); }
    assoc(assoc&& o) { for (size_type i = 0, e = o.n; i < e; ++i) omv_append(std::move(*o.s.at(i))); o.clear(); }
    assoc& operator=(const assoc& o) { if (this != &o) { clear(); for (size_type i = 0, e = o.n; i < e; ++i) omv_append(*o.s.at(i)); } return *this; }
    assoc& operator=(assoc&& o) { if (this != &o) { clear(); for (size_type i = 0, e = o.n; i < e; ++i) omv_append(std::move(*o.s.at(i))); o.clear(); } return *this; }
    template<class P> iterator omv_append(P&& v) { if (n == cap<value_type>::value) omv_overflow(); new (static_cast<void*>(s.at(n))) value_type(std::forward<P>(v)); return s.at(n++); }
    iterator begin() { return s.at(0); } iterator end() { return s.at(n); }
    const_iterator begin() const { return s.at(0); } const_iterator end() const { return s.at(n); }
    const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    size_type size() const { return n; } bool empty() const { return n == 0; }
    void reserve(size_type) {} void rehash(size_type) {}
    void clear() { n = 0; }
    iterator find(const K& k) { for (size_type i = 0, e = n; i < e; ++i) if (same(s.at(i)->first, k)) return s.at(i); return end(); }
    const_iterator find(const K& k) const { return const_cast<assoc*>(this)->find(k); }
    size_type count(const K& k) const { return find(k) != end(); }
    bool contains(const K& k) const { return find(k) != end(); }
    V& at(const K& k) { auto i = find(k); if (i == end()) omv_overflow(); return i->second; }
    const V& at(const K& k) const { return const_cast<assoc*>(this)->at(k); }
    template<class... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
        auto i = find(k);
        if (i != end()) return {i, false};
        if (n == cap<value_type>::value) omv_overflow();
        size_type j = n;
        if constexpr (!std::is_void<Less>::value) {
            while (j > 0 && before(k, s.at(j - 1)->first)) {
                new (static_cast<void*>(s.at(j))) value_type(s.at(j - 1)->first, std::move(s.at(j - 1)->second));
                s.at(j - 1)->~value_type(); --j;
            }
        }
        new (static_cast<void*>(s.at(j))) value_type(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...));
        ++n; return {s.at(j), true};
    }
    V& operator[](const K& k) { return try_emplace(k).first->second; }
    std::pair<iterator, bool> insert(const value_type& v) { return try_emplace(v.first, v.second); }
    template<class A, class B> std::pair<iterator, bool> emplace(A&& a, B&& b) { return try_emplace(K(std::forward<A>(a)), std::forward<B>(b)); }
    template<class B> std::pair<iterator, bool> insert_or_assign(const K& k, B&& b) { auto r = try_emplace(k); r.first->second = std::forward<B>(b); return r; }
    iterator erase(const_iterator p) {
        size_type k = p - s.at(0);
        for (size_type i = k, e = n; i + 1 < e; ++i) { s.at(i)->~value_type(); new (static_cast<void*>(s.at(i))) value_type(std::move(*s.at(i + 1))); }
        --n; s.at(n)->~value_type(); return s.at(k);
    }
    size_type erase(const K& k) { auto i = find(k); if (i == end()) return 0; erase(const_iterator(i)); return 1; }
    void swap(assoc& o) { assoc t(std::move(o)); o = std::move(*this); *this = std::move(t); }
    friend void swap(assoc& a, assoc& b) { a.swap(b); }
    friend bool operator==(const assoc& a, const assoc& b) = delete;
};

template<class K, class Less> class set {
public:
    using key_type = K; using value_type = K; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using reference = const K&; using const_reference = const K&; using pointer = const K*; using const_pointer = const K*;
    using iterator = const K*; using const_iterator = const K*;
private:
    storage<K> s; length n;
    static bool same(const K& a, const K& b) { if constexpr (std::is_void<Less>::value) return a == b; else return !Less()(a, b) && !Less()(b, a); }
public:
    set() {}
    set(const set& o) { for (auto& x : o) omv_append(x); }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> set(I f, I l) { insert(f, l); }
    set(std::initializer_list<K> l) { insert(l.begin(), l.end()); }
    set& operator=(const set& o) { if (this != &o) { clear(); for (auto& x : o) omv_append(x); } return *this; }
    void omv_append(const K& k) { if (n == cap<K>::value) omv_overflow(); new (static_cast<void*>(s.at(n))) K(k); ++n; }
    iterator begin() const { return s.at(0); } iterator end() const { return s.at(n); }
    iterator cbegin() const { return s.at(0); } iterator cend() const { return s.at(n); }
    size_type size() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; } void reserve(size_type) {} void rehash(size_type) {}
    iterator find(const K& k) const { for (size_type i = 0, e = n; i < e; ++i) if (same(*s.at(i), k)) return s.at(i); return end(); }
    size_type count(const K& k) const { return find(k) != end(); }
    bool contains(const K& k) const { return find(k) != end(); }
    std::pair<iterator, bool> insert(const K& k) {
        auto i = find(k); if (i != end()) return {i, false};
        omv_append(k);
        size_type j = n - 1;
        if constexpr (!std::is_void<Less>::value) for (; j > 0 && Less()(k, *s.at(j - 1)); --j) { *s.at(j) = *s.at(j - 1); *s.at(j - 1) = k; }
        return {s.at(j), true};
    }
    iterator insert(const_iterator, const K& k) { return insert(k).first; }
    template<class I, class = typename std::iterator_traits<I>::iterator_category> void insert(I f, I l) { for (; f != l; ++f) insert(*f); }
    template<class... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
    size_type erase(const K& k) { auto i = find(k); if (i == end()) return 0; erase(i); return 1; }
    iterator erase(const_iterator p) { size_type k = p - s.at(0); for (size_type i = k, e = n; i + 1 < e; ++i) *s.at(i) = *s.at(i + 1); --n; return s.at(k); }
    void swap(set& o) { set t(*this); *this = o; o = t; }
};

#ifdef OMV_OPAQUE
// the contents are unknowns of the analysis: membership is a pure function of
// the container and the key, and a map yields an unknown value or nothing
extern "C" __attribute__((const, nothrow)) bool omv_in(const void* set, const void* key);
extern "C" __attribute__((const, nothrow)) void* omv_at(const void* map, std::size_t key);
// (the elements in the order of iteration may be given: a constant number of them)
template<class K> class opaque_set {
    const K* items = nullptr; std::size_t n = 0;
public:
    using key_type = K; using value_type = K; using size_type = std::size_t;
    struct iterator {
        using iterator_category = std::forward_iterator_tag; using value_type = K; using difference_type = std::ptrdiff_t; using pointer = const K*; using reference = const K&;
        K k; bool in; const K* p; const K& operator*() const { return in ? k : *p; }
        iterator& operator++() { if (in) omv_overflow(); ++p; return *this; } iterator operator++(int) { auto r = *this; ++*this; return r; }
        bool operator==(const iterator& o) const { return in == o.in && p == o.p; } bool operator!=(const iterator& o) const { return !(*this == o); }
    };
    using const_iterator = iterator;
    void omv_items(const K* i, std::size_t k) { items = i; n = k; }
    iterator find(const K& k) const { bool r = omv_in(this, (const void*) k); return {k, r, r ? nullptr : items + n}; }
    iterator end() const { return {K(), false, items + n}; } iterator cend() const { return end(); }
    iterator begin() const { if (!items) omv_overflow(); return {K(), false, items}; } iterator cbegin() const { return begin(); }
    size_type count(const K& k) const { return omv_in(this, (const void*) k); }
    bool contains(const K& k) const { return omv_in(this, (const void*) k); }
    size_type size() const { if (!items) omv_overflow(); return n; } bool empty() const { return size() == 0; }
    void insert(const K&) { omv_overflow(); } iterator insert(const_iterator, const K&) { omv_overflow(); }
    template<class I> void insert(I, I) { omv_overflow(); }
    void clear() { omv_overflow(); } void reserve(size_type) {} void erase(const K&) { omv_overflow(); }
};
template<class K, class V> class opaque_map {
public:
    using key_type = K; using mapped_type = V; using size_type = std::size_t; using value_type = std::pair<const K, V>;
    struct iterator {
        using iterator_category = std::forward_iterator_tag; using value_type = std::pair<const K, V>; using difference_type = std::ptrdiff_t; using pointer = value_type*; using reference = value_type&;
        value_type v; value_type& operator*() { return v; } value_type* operator->() { return &v; } const value_type* operator->() const { return &v; }
        iterator& operator++() { omv_overflow(); }
        bool operator==(const iterator& o) const { return (v.second == nullptr) == (o.v.second == nullptr); } bool operator!=(const iterator& o) const { return !(*this == o); }
    };
    using const_iterator = iterator;
    V get(const K& k) const { return static_cast<V>(omv_at(this, std::size_t(k))); }
    iterator find(const K& k) const { return {{k, get(k)}}; }
    iterator end() const { return {{K(), V()}}; } iterator cend() const { return end(); }
    iterator begin() const { omv_overflow(); }
    V& operator[](const K& k) { storage_v = get(k); return storage_v; }
    V& at(const K& k) { V v = get(k); if (!v) omv_overflow(); storage_v = v; return storage_v; }
    size_type count(const K& k) const { return get(k) != nullptr; } bool contains(const K& k) const { return get(k) != nullptr; }
    size_type size() const { omv_overflow(); } bool empty() const { omv_overflow(); } void reserve(size_type) {} void clear() { omv_overflow(); }
    V storage_v{};
};
#endif
} // namespace omv_std
#endif
