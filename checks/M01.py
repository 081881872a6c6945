"""M01: ill-formed overriders are rejected, well-formed ones accepted."""
from teng import *

PRELUDE = r'''
#include <boost/openmethod.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <string>
using namespace boost::openmethod;
struct R : registry<policies::std_rtti, policies::vptr_vector, policies::fast_perfect_hash> {};
struct R2 : registry<policies::std_rtti, policies::vptr_map<>> {};
struct Animal { virtual ~Animal() {} int a; };
struct Dog : Animal { int d; };
struct Bulldog : Dog { int b; };
struct VDog : virtual Animal { int vd; };
struct Stranger { virtual ~Stranger() {} };
struct Left : Animal {}; struct Right : Animal {};
struct Twice : Left, Right {};
class Secret : Animal { public: virtual void f() {} };
struct Prot : protected Animal {};
struct Conv { virtual ~Conv() {} operator Animal&() const; operator virtual_ptr<Animal, R>() const; };
struct Ret { virtual ~Ret() {} }; struct DRet : Ret {};
struct IP : boost::intrusive_ref_counter<IP> { virtual ~IP() {} };
struct IPD : IP {};
template<class T> using vp = virtual_ptr<T, R>;
template<class T> using sp = virtual_ptr<std::shared_ptr<T>, R>;
template<class T> using up = virtual_ptr<std::unique_ptr<T>, R>;
template<class T> using ip = virtual_ptr<boost::intrusive_ptr<T>, R>;
struct Id;
'''


def case(method, overrider, reg='R'):
    """One method and one overrider, registered."""
    return ('using M = method<Id, %s, %s>;\n%s\nstatic M::override<f> o;\n'
            % (method, reg, overrider))


CASES = [
    # number of parameters
    ('too_few_parameters', case('void(vp<Animal>, int)', 'void f(vp<Dog> @{, int@|@}) {}')),
    ('too_many_parameters', case('void(vp<Animal>)', 'void f(vp<Dog> @{@|, int@}) {}')),
    ('too_many_virtual_parameters', case('void(vp<Animal>)', 'void f(vp<Dog> @{@|, vp<Dog>@}) {}')),
    ('too_few_virtual_parameters', case('void(vp<Animal>, vp<Animal>)', 'void f(vp<Dog>@{, vp<Dog>@|@}) {}')),
    # non-virtual parameters must be identical
    ('nonvirtual_int_long', case('void(vp<Animal>, int)', 'void f(vp<Dog>, @{int@|long@}) {}')),
    ('nonvirtual_before', case('void(int, vp<Animal>)', 'void f(@{int@|short@}, vp<Dog>) {}')),
    ('nonvirtual_between', case('void(vp<Animal>, int, vp<Animal>)', 'void f(vp<Dog>, @{int@|unsigned@}, vp<Dog>) {}')),
    ('nonvirtual_ref_category', case('void(vp<Animal>, int&)', 'void f(vp<Dog>, @{int&@|int@}) {}')),
    ('nonvirtual_value_to_cref', case('void(vp<Animal>, std::string)', 'void f(vp<Dog>, @{std::string@|const std::string&@}) {}')),
    ('nonvirtual_const_added', case('void(vp<Animal>, std::string&)', 'void f(vp<Dog>, @{std::string&@|const std::string&@}) {}')),
    ('nonvirtual_derived_pointer', case('void(vp<Animal>, Dog*)', 'void f(vp<Dog>, @{Dog*@|Animal*@}) {}')),
    ('nonvirtual_base_reference', case('void(vp<Animal>, Dog&)', 'void f(vp<Dog>, @{Dog&@|Animal&@}) {}')),
    ('nonvirtual_rvalue', case('void(vp<Animal>, std::string&&)', 'void f(vp<Dog>, @{std::string&&@|const std::string&@}) {}')),
    # virtual_ptr needed in the same position
    ('virtual_ptr_vs_reference', case('void(vp<Animal>)', 'void f(@{vp<Dog>@|Dog&@}) {}')),
    ('virtual_ptr_vs_pointer', case('void(vp<Animal>)', 'void f(@{vp<Dog>@|Dog*@}) {}')),
    ('virtual_ptr_vs_smart', case('void(vp<Animal>)', 'void f(@{vp<Dog>@|std::shared_ptr<Dog>@}) {}')),
    ('virtual_ptr_vs_convertible', case('void(vp<Animal>)', 'void f(@{vp<Dog>@|Conv@}) {}')),
    ('second_virtual_ptr_vs_reference', case('void(vp<Animal>, vp<Animal>)', 'void f(vp<Dog>, @{vp<Dog>@|Dog&@}) {}')),
    ('nonvirtual_replaced_by_virtual_ptr', case('void(vp<Animal>, Animal&)', 'void f(vp<Dog>, @{Animal&@|vp<Animal>@}) {}')),
    # reference category of virtual_ptr
    ('value_to_cref', case('void(vp<Animal>)', 'void f(@{vp<Dog>@|const vp<Dog>&@}) {}')),
    ('cref_to_value', case('void(const vp<Animal>&)', 'void f(@{const vp<Dog>&@|vp<Dog>@}) {}')),
    ('cref_to_value_same_class', case('void(const vp<Animal>&)', 'void f(@{const vp<Animal>&@|vp<Animal>@}) {}')),
    ('value_to_cref_same_class', case('void(vp<Animal>)', 'void f(@{vp<Animal>@|const vp<Animal>&@}) {}')),
    ('value_to_rvalue', case('void(vp<Animal>)', 'void f(@{vp<Dog>@|vp<Dog>&&@}) {}')),
    ('shared_value_to_cref', case('void(sp<Animal>)', 'void f(@{sp<Dog>@|const sp<Dog>&@}) {}')),
    ('shared_cref_to_value', case('void(const sp<Animal>&)', 'void f(@{const sp<Dog>&@|sp<Dog>@}) {}')),
    # class must be the same or a derived class
    ('unrelated_class', case('void(vp<Animal>)', 'void f(vp<@{Dog@|Stranger@}>) {}')),
    ('base_class', case('void(vp<Dog>)', 'void f(vp<@{Bulldog@|Animal@}>) {}')),
    ('sibling_class', case('void(vp<Left>)', 'void f(vp<@{Left@|Right@}>) {}')),
    ('unrelated_class_second', case('void(vp<Animal>, vp<Animal>)', 'void f(vp<Dog>, vp<@{Dog@|Stranger@}>) {}')),
    ('base_class_second', case('void(vp<Animal>, int, vp<Dog>)', 'void f(vp<Dog>, int, vp<@{Dog@|Animal@}>) {}')),
    ('cref_unrelated_class', case('void(const vp<Animal>&)', 'void f(const vp<@{Dog@|Stranger@}>&) {}')),
    ('cref_base_class', case('void(const vp<Dog>&)', 'void f(const vp<@{Bulldog@|Animal@}>&) {}')),
    ('convertible_class', case('void(vp<Animal>)', 'void f(vp<@{Dog@|Conv@}>) {}')),
    ('shared_unrelated_class', case('void(sp<Animal>)', 'void f(sp<@{Dog@|Stranger@}>) {}')),
    ('shared_base_class', case('void(sp<Dog>)', 'void f(sp<@{Bulldog@|Animal@}>) {}')),
    ('shared_cref_base_class', case('void(const sp<Dog>&)', 'void f(const sp<@{Bulldog@|Animal@}>&) {}')),
    ('unique_base_class', case('void(up<Dog>)', 'void f(up<@{Bulldog@|Animal@}>) {}')),
    ('unique_unrelated_class', case('void(up<Dog>)', 'void f(up<@{Bulldog@|Stranger@}>) {}')),
    ('intrusive_unrelated', case('void(ip<IP>)', 'void f(ip<@{IPD@|Stranger@}>) {}')),
    # kind of pointer
    ('plain_vs_shared', case('void(vp<Animal>)', 'void f(@{vp<Dog>@|sp<Dog>@}) {}')),
    ('shared_vs_plain', case('void(sp<Animal>)', 'void f(@{sp<Dog>@|vp<Dog>@}) {}')),
    ('shared_vs_unique', case('void(sp<Animal>)', 'void f(@{sp<Dog>@|up<Dog>@}) {}')),
    ('unique_vs_shared', case('void(up<Animal>)', 'void f(@{up<Dog>@|sp<Dog>@}) {}')),
    # constness
    ('const_dropped', case('void(vp<const Animal>)', 'void f(vp<@{const Dog@|Dog@}>) {}')),
    ('const_dropped_cref', case('void(const vp<const Animal>&)', 'void f(const vp<@{const Dog@|Dog@}>&) {}')),
    ('ref_const_dropped', case('void(virtual_<const Animal&>)', 'void f(@{const Dog&@|Dog&@}) {}')),
    ('ptr_const_dropped', case('void(virtual_<const Animal*>)', 'void f(@{const Dog*@|Dog*@}) {}')),
    ('vref_const_dropped', case('void(virtual_<const Animal&>)', 'void f(@{const VDog&@|VDog&@}) {}')),
    # ambiguous or inaccessible base
    ('ambiguous_base', case('void(vp<Animal>)', 'void f(vp<@{Left@|Twice@}>) {}')),
    ('ambiguous_base_cref', case('void(const vp<Animal>&)', 'void f(const vp<@{Left@|Twice@}>&) {}')),
    ('private_base', case('void(vp<Animal>)', 'void f(vp<@{Dog@|Secret@}>) {}')),
    ('private_base_cref', case('void(const vp<Animal>&)', 'void f(const vp<@{Dog@|Secret@}>&) {}')),
    ('protected_base', case('void(vp<Animal>)', 'void f(vp<@{Dog@|Prot@}>) {}')),
    ('ambiguous_base_shared', case('void(sp<Animal>)', 'void f(sp<@{Left@|Twice@}>) {}')),
    ('private_base_shared_cref', case('void(const sp<Animal>&)', 'void f(const sp<@{Dog@|Secret@}>&) {}')),
    # registry
    ('other_registry', case('void(vp<Animal>)', 'void f(virtual_ptr<Dog, @{R@|R2@}>) {}')),
    ('other_registry_cref', case('void(const vp<Animal>&)', 'void f(const virtual_ptr<Dog, @{R@|R2@}>&) {}')),
    ('default_registry', case('void(vp<Animal>)', 'void f(virtual_ptr<Dog@{, R@|@}>) {}')),
    ('other_registry_same_class', case('void(vp<Animal>)', 'void f(virtual_ptr<Animal, @{R@|R2@}>) {}')),
    ('other_registry_shared', case('void(sp<Animal>)', 'void f(virtual_ptr<std::shared_ptr<Dog>, @{R@|R2@}>) {}')),
    # virtual_<> is for methods only
    ('virtual_in_overrider', case('void(virtual_<Animal&>)', 'void f(@{Dog&@|virtual_<Dog&>@}) {}')),
    ('virtual_in_overrider_same', case('void(virtual_<Animal&>)', 'void f(@{Animal&@|virtual_<Animal&>@}) {}')),
    # return type
    ('return_incompatible', case('int(vp<Animal>)', '@{int@|std::string@} f(vp<Dog>) { return {}; }')),
    ('return_unrelated_pointer', case('Ret*(vp<Animal>)', '@{DRet@|Stranger@}* f(vp<Dog>) { return nullptr; }')),
    ('return_less_derived_pointer', case('DRet*(vp<Animal>)', '@{DRet@|Ret@}* f(vp<Dog>) { return nullptr; }')),
    ('return_less_derived_ref', case('DRet&(vp<Animal>)', 'DRet r; @{DRet@|Ret@}& f(vp<Dog>) { return r; }')),
    ('return_const_dropped', case('Ret*(vp<Animal>)', '@{Ret*@|const Ret*@} f(vp<Dog>) { return nullptr; }')),
    ('return_void_for_value', case('int(vp<Animal>)', '@{int@|void@} f(vp<Dog>) { return @{0@|@}; }')),
    ('return_base_virtual_ptr', case('vp<Dog>(vp<Animal>)', 'vp<@{Dog@|Animal@}> f(vp<Animal> p) { return @{p.cast<Dog>()@|p@}; }')),
    # reference / pointer virtual_<> parameters
    ('ref_unrelated', case('void(virtual_<Animal&>)', 'void f(@{Dog&@|int&@}) {}')),
    ('ref_vs_pointer', case('void(virtual_<Animal&>)', 'void f(@{Dog&@|Dog*@}) {}')),
    ('pointer_vs_ref', case('void(virtual_<Animal*>)', 'void f(@{Dog*@|Dog&@}) {}')),
    ('ref_vs_value', case('void(virtual_<Animal&>)', 'void f(@{Dog&@|Dog@}) {}')),
    ('ref_rvalue', case('void(virtual_<Animal&>)', 'void f(@{Dog&@|Dog&&@}) {}')),
    ('shared_vs_unique_param', case('void(virtual_<std::shared_ptr<Animal>>)', 'void f(@{std::shared_ptr@|std::unique_ptr@}<Dog>) {}')),
    # macros
    ('macro_method_not_found_arity', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>, int), void);\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog>@{, int@|@}), void) {}\n'),
    ('macro_method_not_found_name', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>), void);\nBOOST_OPENMETHOD_OVERRIDE(@{poke@|peek@}, (virtual_ptr<Dog>), void) {}\n'),
    ('macro_unrelated_class', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>), void);\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<@{Dog@|Stranger@}>), void) {}\n'),
    ('macro_private_base', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>), void);\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<@{Dog@|Secret@}>), void) {}\n'),
    ('macro_value_to_cref', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>), void);\nBOOST_OPENMETHOD_OVERRIDE(poke, (@{virtual_ptr<Dog>@|const virtual_ptr<Dog>&@}), void) {}\n'),
    ('macro_inline_unrelated', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>), void);\nBOOST_OPENMETHOD_INLINE_OVERRIDE(poke, (virtual_ptr<@{Dog@|Stranger@}>), void) {}\n'),
]

# Programs that must be accepted: every documented way to write an overrider.
GOOD = [
    ('same_class', case('void(vp<Animal>)', 'void f(vp<Animal>) {}')),
    ('derived', case('void(vp<Animal>)', 'void f(vp<Bulldog>) {}')),
    ('virtual_base', case('void(vp<Animal>)', 'void f(vp<VDog>) {}')),
    ('const_class', case('void(vp<const Animal>)', 'void f(vp<const Dog>) {}')),
    ('cref', case('void(const vp<Animal>&)', 'void f(const vp<Dog>&) {}')),
    ('cref_same', case('void(const vp<Animal>&)', 'void f(const vp<Animal>&) {}')),
    ('ref', case('void(virtual_<Animal&>)', 'void f(Dog&) {}')),
    ('ref_virtual_base', case('void(virtual_<Animal&>)', 'void f(VDog&) {}')),
    ('const_ref', case('void(virtual_<const Animal&>)', 'void f(const Dog&) {}')),
    ('rvalue_ref', case('void(virtual_<Animal&&>)', 'void f(Dog&&) {}')),
    ('pointer', case('void(virtual_<Animal*>)', 'void f(Dog*) {}')),
    ('pointer_virtual_base', case('void(virtual_<Animal*>)', 'void f(VDog*) {}')),
    ('const_pointer', case('void(virtual_<const Animal*>)', 'void f(const Dog*) {}')),
    ('shared', case('void(virtual_<std::shared_ptr<Animal>>)', 'void f(std::shared_ptr<Dog>) {}')),
    ('shared_virtual_base', case('void(virtual_<std::shared_ptr<Animal>>)', 'void f(std::shared_ptr<VDog>) {}')),
    ('shared_cref', case('void(virtual_<const std::shared_ptr<Animal>&>)', 'void f(const std::shared_ptr<Dog>&) {}')),
    ('shared_cref_same', case('void(virtual_<const std::shared_ptr<Animal>&>)', 'void f(const std::shared_ptr<Animal>&) {}')),
    ('unique', case('void(virtual_<std::unique_ptr<Animal>>)', 'void f(std::unique_ptr<Dog>) {}')),
    ('unique_virtual_base', case('void(virtual_<std::unique_ptr<Animal>>)', 'void f(std::unique_ptr<VDog>) {}')),
    ('intrusive', case('void(virtual_<boost::intrusive_ptr<IP>>)', 'void f(boost::intrusive_ptr<IPD>) {}')),
    ('intrusive_cref', case('void(virtual_<const boost::intrusive_ptr<IP>&>)', 'void f(const boost::intrusive_ptr<IPD>&) {}')),
    ('shared_vp', case('void(sp<Animal>)', 'void f(sp<Dog>) {}')),
    ('shared_vp_virtual_base', case('void(sp<Animal>)', 'void f(sp<VDog>) {}')),
    ('shared_vp_cref', case('void(const sp<Animal>&)', 'void f(const sp<Dog>&) {}')),
    ('shared_vp_const', case('void(sp<const Animal>)', 'void f(sp<const Dog>) {}')),
    ('unique_vp', case('void(up<Animal>)', 'void f(up<Dog>) {}')),
    ('unique_vp_same', case('void(up<Animal>)', 'void f(up<Animal>) {}')),
    ('unique_vp_virtual_base', case('void(up<Animal>)', 'void f(up<VDog>) {}')),
    ('intrusive_vp', case('void(ip<IP>)', 'void f(ip<IPD>) {}')),
    ('return_covariant', case('Ret*(vp<Animal>)', 'DRet* f(vp<Dog>) { return nullptr; }')),
    ('return_covariant_ref', case('Ret&(vp<Animal>)', 'DRet r; DRet& f(vp<Dog>) { return r; }')),
    ('return_covariant_vp', case('vp<Animal>(vp<Animal>)', 'vp<Dog> f(vp<Dog> p) { return p; }')),
    ('return_shared', case('std::shared_ptr<Ret>(vp<Animal>)', 'std::shared_ptr<DRet> f(vp<Dog>) { return nullptr; }')),
    ('return_unique', case('std::unique_ptr<Ret>(vp<Animal>)', 'std::unique_ptr<DRet> f(vp<Dog>) { return nullptr; }')),
    ('move_only_nonvirtual', case('void(vp<Animal>, std::unique_ptr<int>&&, std::string&)', 'void f(vp<Dog>, std::unique_ptr<int>&&, std::string&) {}')),
    ('nonvirtual_everywhere', case('void(int, vp<Animal>, const std::string&, vp<Animal>, char*)', 'void f(int, vp<Dog>, const std::string&, vp<Bulldog>, char*) {}')),
    ('three_virtual', case('int(vp<Animal>, vp<Animal>, vp<Animal>)', 'int f(vp<Dog>, vp<Animal>, vp<Bulldog>) { return 1; }')),
    ('mixed', case('int(virtual_<Animal&>, vp<Animal>, virtual_<Animal*>)', 'int f(Dog&, vp<Animal>, VDog*) { return 1; }')),
    ('several', 'using M = method<Id, void(vp<Animal>), R>;\nvoid f(vp<Dog>) {}\nvoid g(vp<Bulldog>) {}\nstatic M::override<f, g> o;\n'),
    ('has_next', 'using M = method<Id, int(vp<Animal>), R>;\nint f(vp<Dog> p) { return M::has_next<f>() ? M::next<f>(p) : 0; }\nstatic M::override<f> o;\n'),
    ('macros', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>, int), int);\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog> p, int i), int) { return has_next() ? next(p, i) : i; }\nBOOST_OPENMETHOD_INLINE_OVERRIDE(poke, (virtual_ptr<Bulldog> p, int i), int) { return next(p, i); }\nvoid t(Dog& d) { poke(d, 1); }\n'),
    ('macros_declare_define', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>), void);\nBOOST_OPENMETHOD_DECLARE_OVERRIDER(poke, (virtual_ptr<Dog>), void)\nBOOST_OPENMETHOD_DEFINE_OVERRIDER(poke, (virtual_ptr<Dog>), void) {}\nvoid t(Dog& d) { BOOST_OPENMETHOD_OVERRIDER(poke, (virtual_ptr<Dog>), void)::fn(d); }\n'),
    ('macros_registry', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal, R>), void, R);\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog, R>), void) {}\nvoid t(Dog& d) { poke(d); }\n'),
]


def run(ctx):
    ctx.explanation.append(
        'Each witness program registers one overrider with one method. Its well-formed variant must type check; '
        'the ill-formed variant, which differs only in one parameter or return type, must be rejected by the compiler '
        '(acceptance of the twin attributes the rejection to that difference).')
    for std in ((17, 20) if ctx.thorough else (17,)):
        t = Types(ctx, PRELUDE, std)
        t.witnesses('overrider-wellformedness', [(n, c) for n, c in CASES])
        t.witnesses('overrider-accepted', GOOD)
    ctx.assumptions.append('g++ is consulted in the thorough tier only; clang 18 and g++ 13 front ends are trusted')
