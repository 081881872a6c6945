// Opaque policies for the value-graph probes. Everything here that is declared
// and not defined stays an external call in the IR: its result is an unknown
// of the analysis.
#ifndef OMV_PROBE_HPP
#define OMV_PROBE_HPP
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
namespace omv {
namespace bom = boost::openmethod;
using bom::detail::word;
using bom::type_id;
using bom::vptr_type;

template<class C> struct tid { static char id; };
#define OMV_CONST __attribute__((const, nothrow))
#define OMV_PURE __attribute__((pure, nothrow))

// the unknown dynamic type of an object, as a pure function of its address
template<class C> OMV_CONST type_id dyn_type(const C&);
// the unknown place of the v-table pointer for the dynamic type of an object
template<class C> OMV_CONST const vptr_type& dyn_vptr(const C&);
// the unknown result of a dynamic cast
template<class D> OMV_CONST void* dyn_cast(const volatile void*);
// is the class polymorphic, for the probe rtti
template<class C> struct poly : std::is_polymorphic<C> {};

// what a type id is identified by: several ids may share one index
OMV_CONST std::size_t type_index(type_id);

// error recorders
void rec_not_initialized();
void rec_final(type_id static_type, type_id dynamic_type);
void rec_no_overrider(type_id method, std::size_t arity, const type_id* types);
void rec_ambiguous(type_id method, std::size_t arity, const type_id* types);
void rec_missing_class(type_id);
void rec_other();

struct rtti : bom::policies::rtti {
    template<class Registry> struct fn : bom::policies::rtti::defaults {
        template<class C> static constexpr bool is_polymorphic = poly<std::remove_cv_t<C>>::value;
        template<class C> static auto static_type() -> type_id { return &tid<std::remove_cv_t<C>>::id; }
        static auto type_index(type_id t) -> std::size_t { return omv::type_index(t); }
        template<class C> static auto dynamic_type(const C& obj) -> type_id { return dyn_type(obj); }
        template<typename D, typename B> static auto dynamic_cast_ref(B&& obj) -> D {
            return static_cast<D>(*static_cast<std::remove_reference_t<D>*>(
                dyn_cast<std::remove_cv_t<std::remove_reference_t<D>>>(std::addressof(obj))));
        }
    };
};
struct vptr : bom::policies::vptr {
    template<class Registry> struct fn {
        template<class C> static auto dynamic_vptr(const C& obj) -> const vptr_type& { return dyn_vptr(obj); }
        template<class... T> static auto initialize(T&&...) -> void {}
    };
};
// the same, but looking a v-table up is a recorded event
template<class C> const vptr_type& hook_vptr(const C&);
template<class C> type_id hook_type(const C&);
struct vptr_ev : bom::policies::vptr {
    template<class Registry> struct fn {
        template<class C> static auto dynamic_vptr(const C& obj) -> const vptr_type& { return hook_vptr(obj); }
        template<class... T> static auto initialize(T&&...) -> void {}
    };
};
struct handler : bom::policies::error_handler {
    template<class Registry> struct fn {
        static void error(const bom::not_initialized&) { rec_not_initialized(); }
        static void error(const bom::final_error& e) { rec_final(e.static_type, e.dynamic_type); }
        static void error(const bom::no_overrider& e) { rec_no_overrider(e.method, e.arity, e.types); }
        static void error(const bom::ambiguous_call& e) { rec_ambiguous(e.method, e.arity, e.types); }
        static void error(const bom::missing_class& e) { rec_missing_class(e.type); }
        static void error(const bom::openmethod_error&) { rec_other(); }
    };
};
struct plain : bom::registry<rtti, vptr> { };
struct indirect : bom::registry<rtti, vptr, bom::policies::indirect_vptr> { };
struct checked : bom::registry<rtti, vptr, handler, bom::policies::runtime_checks> { };
struct checked_quiet : bom::registry<rtti, vptr, bom::policies::runtime_checks> { };
struct checked_indirect : bom::registry<rtti, vptr, handler, bom::policies::runtime_checks, bom::policies::indirect_vptr> { };
struct handled : bom::registry<rtti, vptr, handler> { };
struct ev_checked : bom::registry<rtti, vptr_ev, handler, bom::policies::runtime_checks> { };
struct ev_quiet : bom::registry<rtti, vptr_ev, bom::policies::runtime_checks> { };
struct ev_indirect : bom::registry<rtti, vptr_ev, handler, bom::policies::runtime_checks, bom::policies::indirect_vptr> { };
struct ev_plain : bom::registry<rtti, vptr_ev> { };
struct ev_handled : bom::registry<rtti, vptr_ev, handler> { };
struct def : plain { };
} // namespace omv
#define BOOST_OPENMETHOD_DEFAULT_REGISTRY ::omv::def
#include <boost/openmethod.hpp>
#endif
