// A reference-counted probe smart pointer; acquiring and releasing are opaque.
#ifndef OMV_SMART_HPP
#define OMV_SMART_HPP
#include <probe.hpp>
namespace omv {
#ifdef OMV_UNCOUNTED
inline void hook_addref(const volatile void*) {}
inline void hook_release(const volatile void*) {}
#else
void hook_addref(const volatile void*);
void hook_release(const volatile void*);
#endif
template<class T> struct sp {
    using element_type = T;
    T* p;
    sp() : p(nullptr) {}
    sp(std::nullptr_t) : p(nullptr) {}
    explicit sp(T* q) : p(q) { if (p) hook_addref(p); }
    sp(const sp& o) : p(o.p) { if (p) hook_addref(p); }
    sp(sp&& o) : p(o.p) { o.p = nullptr; }
    template<class U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> sp(const sp<U>& o) : p(o.p) { if (p) hook_addref(p); }
    template<class U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> sp(sp<U>&& o) : p(o.p) { o.p = nullptr; }
    sp& operator=(const sp& o) { T* q = p; p = o.p; if (p) hook_addref(p); if (q) hook_release(q); return *this; }
    sp& operator=(sp&& o) { T* q = p; p = o.p; o.p = nullptr; if (q) hook_release(q); return *this; }
    template<class U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> sp& operator=(const sp<U>& o) { T* q = p; p = o.p; if (p) hook_addref(p); if (q) hook_release(q); return *this; }
    template<class U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> sp& operator=(sp<U>&& o) { T* q = p; p = o.p; o.p = nullptr; if (q) hook_release(q); return *this; }
    ~sp() { if (p) hook_release(p); }
    T* get() const { return p; }
    T& operator*() const { return *p; }
    T* operator->() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    template<class U> bool operator==(const sp<U>& o) const { return p == o.p; }
};
} // namespace omv
namespace boost::openmethod {
template<class C, class R> struct virtual_traits<omv::sp<C>, R> {
    using virtual_type = std::remove_cv_t<C>;
    template<class O> using rebind = omv::sp<O>;
    static const C& peek(const omv::sp<C>& a) { return *a; }
    template<class S> static auto cast(const omv::sp<C>& a) -> S { S r; r.p = &detail::optimal_cast<R, typename S::element_type&>(*a.p); omv::hook_addref(r.p); return r; }
    template<class S> static auto cast(omv::sp<C>&& a) -> S { S r; r.p = &detail::optimal_cast<R, typename S::element_type&>(*a.p); a.p = nullptr; return r; }
};
template<class C, class R> struct virtual_traits<const omv::sp<C>&, R> {
    using virtual_type = std::remove_cv_t<C>;
    static const C& peek(const omv::sp<C>& a) { return *a; }
    template<class S> static auto cast(const omv::sp<C>& a) -> std::remove_cv_t<std::remove_reference_t<S>> { std::remove_cv_t<std::remove_reference_t<S>> r; r.p = &detail::optimal_cast<R, typename std::remove_reference_t<S>::element_type&>(*a.p); omv::hook_addref(r.p); return r; }
};
} // namespace boost::openmethod
#endif
