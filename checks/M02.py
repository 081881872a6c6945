"""M02: ill-formed class and method declarations are rejected."""
from teng import *

PRELUDE = r'''
#include <boost/openmethod.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <string>
using namespace boost::openmethod;
struct R : registry<policies::std_rtti, policies::vptr_vector, policies::fast_perfect_hash> {};
struct R2 : registry<policies::std_rtti, policies::vptr_map<>> {};
struct SR : registry<policies::static_rtti> {};
struct Animal { virtual ~Animal() {} int a; };
struct Dog : Animal { int d; };
struct Cat : Animal {};
struct Bulldog : Dog { int b; };
struct VLeft : virtual Animal {}; struct VRight : virtual Animal {};
struct Diamond : VLeft, VRight {};
struct Left : Animal {}; struct Right : Animal {};
struct Twice : Left, Right {};
struct Twicer : Twice {};
class Secret : Animal { public: virtual void f(); };
struct Prot : protected Animal {};
struct Stranger { virtual ~Stranger() {} };
struct Plain { int x; };
struct HasVptr { int x; };
inline vptr_type boost_openmethod_vptr(const HasVptr&, R*) { return nullptr; }
struct WrongVptr { int x; };
inline int boost_openmethod_vptr(const WrongVptr&, R*) { return 0; }
struct OtherVptr { int x; };
inline vptr_type boost_openmethod_vptr(const OtherVptr&, R2*) { return nullptr; }
template<class T> using vp = virtual_ptr<T, R>;
template<class T> using sp = virtual_ptr<std::shared_ptr<T>, R>;
struct Id;
'''


def meth(sig, reg='R', pre=''):
    return '%s\nusing M = method<Id, %s, %s>;\nauto* use() { return &M::fn; }\n' % (pre, sig, reg)


CASES = [
    # classes
    ('ambiguous_base', 'use_classes<Animal, Left, Right, @{Bulldog, Dog@|Twice@}, R> c;'),
    ('ambiguous_base_last', 'use_classes<@{Dog@|Twice@}, Left, Right, Animal, R> c;'),
    ('ambiguous_base_indirect', 'use_classes<Animal, @{Bulldog@|Twicer@}, R> c;'),
    ('ambiguous_base_default_registry', 'use_classes<Animal, @{Dog@|Twice@}> c;'),
    ('ambiguous_base_separate', 'use_classes<Left, Right, Twice, R> c;\nuse_classes<@{Left@|Animal@}, Twice, R> d;'),
    ('private_base', 'use_classes<Animal, @{Dog@|Secret@}, R> c;'),
    ('private_base_first', 'use_classes<@{Dog@|Secret@}, Animal, R> c;'),
    ('protected_base', 'use_classes<Animal, @{Dog@|Prot@}, R> c;'),
    ('macro_ambiguous_base', 'BOOST_OPENMETHOD_CLASSES(Animal, Left, Right, @{Dog@|Twice@});'),
    ('macro_private_base', 'BOOST_OPENMETHOD_CLASSES(Animal, @{Dog@|Secret@});'),
    ('registry_not_last', 'use_classes<@{Animal, Dog, R@|Animal, R, Dog@}> c;'),
    ('registry_first', 'use_classes<@{Animal, Dog, R@|R, Animal, Dog@}> c;'),
    # methods
    ('no_virtual_parameter', meth('void(@{vp<Animal>@|Animal&@}, int)')),
    ('no_virtual_parameter_plain', meth('int(int@{, virtual_<Animal&>@|@})')),
    ('no_parameter_at_all', meth('int(@{vp<Animal>@|@})')),
    ('not_polymorphic_ref', meth('void(virtual_<@{Animal@|Plain@}&>)')),
    ('not_polymorphic_const_ref', meth('void(virtual_<const @{Animal@|Plain@}&>)')),
    ('not_polymorphic_pointer', meth('void(virtual_<@{Animal@|Plain@}*>)')),
    ('not_polymorphic_rvalue', meth('void(virtual_<@{Animal@|Plain@}&&>)')),
    ('not_polymorphic_shared', meth('void(virtual_<std::shared_ptr<@{Animal@|Plain@}>>)')),
    ('not_polymorphic_second', meth('void(virtual_<Animal&>, virtual_<@{Animal@|Plain@}&>)')),
    ('vptr_function', meth('void(virtual_<@{HasVptr@|Plain@}&>)')),
    ('vptr_function_wrong_type', meth('void(virtual_<@{HasVptr@|WrongVptr@}&>)')),
    ('vptr_function_wrong_registry', meth('void(virtual_<@{HasVptr@|OtherVptr@}&>)')),
    ('rtti_not_polymorphic', meth('void(virtual_<Animal&>)', '@{R@|SR@}')),
    ('virtual_value', meth('void(virtual_<Animal@{&@|@}>)')),
    ('virtual_int', meth('void(virtual_<@{Animal&@|int@}>)')),
    ('virtual_int_ref', meth('void(virtual_<@{Animal@|int@}&>)')),
    ('virtual_ptr_to_pointer', meth('void(virtual_<Animal*@{@|*@}>)')),
    ('virtual_ptr_other_registry', meth('void(virtual_ptr<Animal, @{R@|R2@}>)')),
    ('virtual_ptr_other_registry_second', meth('void(vp<Animal>, virtual_ptr<Animal, @{R@|R2@}>)')),
    ('virtual_ptr_other_registry_shared', meth('void(virtual_ptr<std::shared_ptr<Animal>, @{R@|R2@}>)')),
    ('virtual_ptr_other_registry_cref', meth('void(const virtual_ptr<Animal, @{R@|R2@}>&)')),
    ('virtual_ptr_other_registry_cref_second', meth('void(vp<Animal>, const virtual_ptr<Animal, @{R@|R2@}>&)')),
    ('virtual_ptr_default_registry', meth('void(virtual_ptr<Animal@{, R@|@}>)')),
    ('virtual_ptr_other_method_registry', meth('void(virtual_ptr<Animal>)', '@{default_registry@|R@}')),
    ('shared_nonconst_ref', meth('void(virtual_<@{const @|@}std::shared_ptr<Animal>&>)')),
    ('shared_vp_nonconst_ref', meth('void(@{const @|@}sp<Animal>&)')),
    ('shared_vp_nonconst_ref_second', meth('void(vp<Animal>, @{const @|@}sp<Animal>&)')),
    # inplace_vptr
    ('inplace_registry_in_derived', 'struct A : inplace_vptr_base<A, R> {};\nstruct B : A, inplace_vptr_derived<B, @{A@|R@}> {};\nB* t() { return new B; }'),
    ('inplace_registry_in_derived_second', 'struct A : inplace_vptr_base<A, R> {}; struct A2 : inplace_vptr_base<A2, R> {};\nstruct B : A, A2, inplace_vptr_derived<B, A, @{A2@|R@}> {};\nB* t() { return new B; }'),
    ('inplace_registry_in_derived_third', 'struct A : inplace_vptr_base<A, R> {}; struct A2 : inplace_vptr_base<A2, R> {}; struct A3 : inplace_vptr_base<A3, R> {};\nstruct B : A, A2, A3, inplace_vptr_derived<B, A, A2, @{A3@|R@}> {};\nB* t() { return new B; }'),
    ('inplace_base_without_vptr', 'struct A : @{inplace_vptr_base<A, R>@|Plain@} {};\nstruct B : A, inplace_vptr_derived<B, A> {};\nB* t() { return new B; }'),
    ('inplace_base_not_a_base', 'struct A : inplace_vptr_base<A, R> {}; struct X : inplace_vptr_base<X, R> {};\nstruct B : @{A, @|@}inplace_vptr_derived<B, A> {};\nB* t() { return new B; }'),
]

GOOD = [
    ('classes_any_order', 'use_classes<Bulldog, Animal, Cat, Dog, R> c;'),
    ('classes_diamond', 'use_classes<Diamond, VRight, Animal, VLeft, R> c;'),
    ('classes_unrelated', 'use_classes<Animal, Stranger, R> c;'),
    ('classes_twice_without_common_base', 'use_classes<Left, Right, Twice, R> c;'),
    ('classes_secret_alone', 'use_classes<Secret, R> c;'),
    ('classes_default', 'use_classes<Animal, Dog> c;'),
    ('classes_nonpolymorphic', 'use_classes<Plain, HasVptr, SR> c;'),
    ('classes_single', 'use_classes<Animal, R> c;'),
    ('method_value', meth('int(vp<Animal>)')),
    ('method_cref', meth('int(const vp<Animal>&)')),
    ('method_ref', meth('int(virtual_<Animal&>)')),
    ('method_const_ref', meth('int(virtual_<const Animal&>)')),
    ('method_pointer', meth('int(virtual_<Animal*>)')),
    ('method_rvalue', meth('int(virtual_<Animal&&>)')),
    ('method_shared', meth('int(virtual_<std::shared_ptr<Animal>>)')),
    ('method_shared_cref', meth('int(virtual_<const std::shared_ptr<Animal>&>)')),
    ('method_unique', meth('int(virtual_<std::unique_ptr<Animal>>)')),
    ('method_intrusive', meth('int(virtual_<boost::intrusive_ptr<Animal>>)', pre='void intrusive_ptr_add_ref(Animal*); void intrusive_ptr_release(Animal*);')),
    ('method_sp', meth('int(sp<Animal>, const sp<Animal>&)')),
    ('method_up', meth('int(virtual_ptr<std::unique_ptr<Animal>, R>)')),
    ('method_mixed', meth('int(int, vp<Animal>, const std::string&, virtual_<Dog&>, std::string&)')),
    ('method_void', meth('void(vp<Animal>)')),
    ('method_nonpolymorphic_virtual_ptr', meth('void(virtual_ptr<Plain, SR>)', 'SR')),
    ('method_default', 'using M = method<Id, void(virtual_ptr<Animal>)>;\nauto* use() { return &M::fn; }'),
    ('method_custom_vptr', meth('void(virtual_<const HasVptr&>)')),
    ('inplace_single', 'struct A : inplace_vptr_base<A, R> {}; struct B : A, inplace_vptr_derived<B, A> {}; struct C : B, inplace_vptr_derived<C, B> {};\nC* t() { return new C; }'),
    ('inplace_multiple', 'struct A : inplace_vptr_base<A, R> {}; struct A2 : inplace_vptr_base<A2, R> {};\nstruct B : A, A2, inplace_vptr_derived<B, A, A2> {}; struct C : B, inplace_vptr_derived<C, B> {};\nC* t() { return new C; }'),
    ('inplace_virtual', 'struct A : inplace_vptr_base<A, R> { virtual ~A() {} }; struct B : virtual A, inplace_vptr_derived<B, A> {}; struct C : virtual A, inplace_vptr_derived<C, A> {};\nstruct D : B, C, inplace_vptr_derived<D, B, C> {};\nD* t() { return new D; }'),
    ('inplace_default', 'struct A : inplace_vptr_base<A> {}; struct B : A, inplace_vptr_derived<B, A> {};\nusing M = method<Id, void(virtual_<A&>)>; auto* use() { return &M::fn; }\nB* t() { return new B; }'),
    ('inplace_indirect', 'struct A : inplace_vptr_base<A, indirect_registry> {}; struct B : A, inplace_vptr_derived<B, A> {};\nusing M = method<Id, void(virtual_<A&>), indirect_registry>; auto* use() { return &M::fn; }\nB* t() { return new B; }'),
]


def run(ctx):
    ctx.explanation.append(
        'Each witness program declares one class list, method or inplace_vptr hierarchy. The well-formed variant must '
        'type check; the ill-formed variant, which differs in one place, must be rejected by the compiler.')
    for std in ((17, 20) if ctx.thorough else (17,)):
        t = Types(ctx, PRELUDE, std)
        t.witnesses('declaration-wellformedness', CASES)
        t.witnesses('declaration-accepted', GOOD)
    ctx.assumptions.append('g++ is consulted in the thorough tier only; clang 18 and g++ 13 front ends are trusted')
