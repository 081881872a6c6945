"""V03: which conversions between pointers, references, smart pointers and
virtual_ptrs exist."""
from teng import *

PRELUDE = r'''
#include <boost/openmethod.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <string>
#include <type_traits>
using namespace boost::openmethod;
struct R : registry<policies::std_rtti, policies::vptr_vector, policies::fast_perfect_hash> {};
struct RI : R::with<policies::indirect_vptr> {};
struct R2 : registry<policies::std_rtti, policies::vptr_map<>> {};
struct SR : registry<policies::static_rtti> {};
struct RC { int c = 0; };
struct Animal : RC { virtual ~Animal() {} int a; };
struct Dog : Animal { int d; };
struct VDog : virtual Animal { int vd; };
struct Left : Animal {}; struct Right : Animal {};
struct Twice : Left, Right {};
class Secret : Animal { public: virtual void f(); };
struct Stranger : RC { virtual ~Stranger() {} };
struct Plain { int x; };
inline void intrusive_ptr_add_ref(const RC*) {}
inline void intrusive_ptr_release(const RC*) {}
template<class T> using sh = std::shared_ptr<T>;
template<class T> using un = std::unique_ptr<T>;
template<class T> using in = boost::intrusive_ptr<T>;
template<class T, class U, class = void> struct has_cast : std::false_type {};
template<class T, class U> struct has_cast<T, U, std::void_t<decltype(std::declval<T>().template cast<U>())>> : std::true_type {};
template<class T, class U, class = void> struct has_eq : std::false_type {};
template<class T, class U> struct has_eq<T, U, std::void_t<decltype(std::declval<T>() == std::declval<U>()), decltype(std::declval<T>() != std::declval<U>())>> : std::true_type {};
'''

# class -> accessible unambiguous proper bases / all bases
ACC = {'Animal': set(), 'Dog': {'Animal'}, 'VDog': {'Animal'}, 'Left': {'Animal'},
       'Twice': {'Left', 'Right'}, 'Secret': set(), 'Stranger': set()}
ALL = {'Animal': set(), 'Dog': {'Animal'}, 'VDog': {'Animal'}, 'Left': {'Animal'},
       'Twice': {'Left', 'Right', 'Animal'}, 'Secret': {'Animal'}, 'Stranger': set()}
CLS = list(ACC)


def conv(f, t):
    """is a pointer to f convertible to a pointer to t? (f, t possibly const)"""
    fc, tc = f.startswith('const '), t.startswith('const ')
    f, t = f.replace('const ', ''), t.replace('const ', '')
    return (f == t or t in ACC[f]) and (tc or not fc)


def related(a, b):
    a, b = a.replace('const ', ''), b.replace('const ', '')
    return a == b or b in ALL[a] or a in ALL[b]


def b(x):
    return 'true' if x else 'false'


def matrix(reg):
    F = []

    def fact(kind, t, s, want):
        if kind == 'assign' and not want and 'in<' in t and 'in<' in s:
            return      # boost::intrusive_ptr's own assignment is not constrained
        expr = {'construct': 'std::is_constructible_v<%s, %s>', 'convert': 'std::is_convertible_v<%s, %s>',
                'assign': 'std::is_assignable_v<%s&, %s>'}[kind]
        args = (s, t) if kind == 'convert' else (t, s)
        F.append(('%s: %s from %s is %s' % (kind, t, s, b(want)), (expr % args) + ' == ' + b(want)))

    def all3(t, s, want):
        for k in ('construct', 'convert', 'assign'):
            fact(k, t, s, want)

    targets = ['Animal', 'const Animal', 'Dog', 'const Dog', 'VDog', 'Left', 'Twice', 'Stranger']
    sources = ['Animal', 'const Animal', 'Dog', 'const Dog', 'VDog', 'const VDog', 'Left', 'Twice', 'Secret', 'Stranger']
    for t in targets:
        P = 'virtual_ptr<%s, %s>' % (t, reg)
        for s in sources:
            ok = conv(s, t)
            all3(P, s + '&', ok)
            all3(P, s + '*', ok)
            all3(P, 'virtual_ptr<%s, %s>' % (s, reg), ok)
            all3(P, 'virtual_ptr<%s, %s>&' % (s, reg), ok)
            all3(P, 'const virtual_ptr<%s, %s>&' % (s, reg), ok)
            all3(P, 'virtual_ptr<%s, R2>' % s, False)
            all3(P, 'const virtual_ptr<%s, R2>&' % s, False)
            if not s.startswith('const '):
                all3(P, s, False)        # rvalue objects
            for k in ('sh', 'un', 'in'):
                # plain from smart virtual_ptr, never from a bare smart pointer
                all3(P, 'const virtual_ptr<%s<%s>, %s>&' % (k, s, reg), ok)
                all3(P, '%s<%s>' % (k, s), False)
                all3(P, '%s<%s>&' % (k, s), False)
        fact('construct', P, 'std::nullptr_t', True)
        fact('convert', P, 'std::nullptr_t', False)
        fact('assign', P, 'std::nullptr_t', True)
        all3(P, 'int', False)
        all3(P, 'void*', False)
        all3(P, 'Plain&', False)
        all3(P, 'std::string&', False)
    for k in ('sh', 'un', 'in'):
        for t in targets:
            P = 'virtual_ptr<%s<%s>, %s>' % (k, t, reg)
            F.append(('default construct %s' % P, 'std::is_default_constructible_v<%s>' % P))
            for s in sources:
                if k == 'in' and s in ('Twice', 'Secret') and s != t:
                    continue    # hard error inside boost::intrusive_ptr
                ok = conv(s, t)
                cp = ok and k != 'un'
                S = '%s<%s>' % (k, s)
                all3(P, 'const %s&' % S, cp)
                all3(P, '%s&' % S, cp)
                all3(P, '%s&&' % S, ok)
                V = 'virtual_ptr<%s, %s>' % (S, reg)
                all3(P, 'const %s&' % V, cp)
                all3(P, '%s&' % V, cp)
                all3(P, '%s&&' % V, ok)
                all3(P, 'virtual_ptr<%s, R2>&&' % S, False)
                all3(P, 'const virtual_ptr<%s, R2>&' % S, False)
                # smart from plain, object, raw pointer: never
                all3(P, 'virtual_ptr<%s, %s>' % (s, reg), False)
                all3(P, 'const virtual_ptr<%s, %s>&' % (s, reg), False)
                all3(P, s + '&', False)
                all3(P, s + '*', False)
                for k2 in ('sh', 'un', 'in'):
                    if k2 != k:
                        all3(P, '%s<%s>' % (k2, s), False)
                        all3(P, 'virtual_ptr<%s<%s>, %s>' % (k2, s, reg), False)
            fact('construct', P, 'std::nullptr_t', True)
            fact('convert', P, 'std::nullptr_t', False)
            fact('assign', P, 'std::nullptr_t', True)
            all3(P, 'int', False)
            all3(P, 'void*', False)
    return F


def misc(reg):
    F = []
    # a dynamic type is needed: not without polymorphism in the registry
    for t in ('Plain', 'Animal'):
        P = 'virtual_ptr<%s, SR>' % t
        for s in (t + '&', t + '*', 'const %s&' % t):
            F.append(('%s from %s rejected (not polymorphic in registry)' % (P, s), '!std::is_constructible_v<%s, %s>' % (P, s)))
            F.append(('%s assigned from %s rejected' % (P, s), '!std::is_assignable_v<%s&, %s>' % (P, s)))
        for k in ('sh', 'un', 'in'):
            if t == 'Plain' and k == 'in':
                continue
            P = 'virtual_ptr<%s<%s>, SR>' % (k, t)
            for q in ('const %s&', '%s&', '%s&&'):
                s = q % ('%s<%s>' % (k, t))
                F.append(('%s from %s rejected (not polymorphic)' % (P, s), '!std::is_constructible_v<%s, %s>' % (P, s)))
                F.append(('%s assigned from %s rejected' % (P, s), '!std::is_assignable_v<%s&, %s>' % (P, s)))
    F.append(('same-class copy without polymorphism', 'std::is_constructible_v<virtual_ptr<Plain, SR>, const virtual_ptr<Plain, SR>&>'))
    # default, copy, move
    for P, cp in (('virtual_ptr<Animal, %s>' % reg, True), ('virtual_ptr<sh<Animal>, %s>' % reg, True),
                  ('virtual_ptr<in<Animal>, %s>' % reg, True), ('virtual_ptr<un<Animal>, %s>' % reg, False)):
        for tr, want in (('std::is_default_constructible_v<%s>', True), ('std::is_copy_constructible_v<%s>', cp),
                         ('std::is_copy_assignable_v<%s>', cp), ('std::is_move_constructible_v<%s>', True),
                         ('std::is_move_assignable_v<%s>', True)):
            F.append(('%s == %s' % (tr % P, b(want)), '%s == %s' % (tr % P, b(want))))
    # casts
    for s in ('Animal', 'Dog', 'VDog', 'const Animal'):
        for t in ('Animal', 'Dog', 'VDog', 'Stranger', 'Plain', 'Left'):
            if s.startswith('const ') or (s in ('Dog', 'VDog', 'Left') and t in ('Dog', 'VDog', 'Left') and s != t):
                if t != 'Plain' and not s.startswith('const '):
                    F.append(('no sideways cast %s to %s' % (s, t), '!has_cast<const virtual_ptr<%s, %s>&, %s>::value' % (s, reg, t)))
                continue
            want = t in ALL and related(s, t)
            F.append(('cast %s to %s: %s' % (s, t, b(want)), 'has_cast<const virtual_ptr<%s, %s>&, %s>::value == %s' % (s, reg, t, b(want))))
            if want:
                F.append(('type of cast', 'std::is_same_v<decltype(std::declval<const virtual_ptr<%s, %s>&>().template cast<%s>()), virtual_ptr<%s, %s>>' % (s, reg, t, t, reg)))
            for k in ('sh', 'in'):
                V = 'virtual_ptr<%s<%s>, %s>' % (k, s, reg)
                for q in ('const %s&', '%s&'):
                    F.append(('cast %s to %s: %s' % (q % V, t, b(want)), 'has_cast<%s, %s>::value == %s' % (q % V, t, b(want))))
                    if want:
                        F.append(('type of cast', 'std::is_same_v<decltype(std::declval<%s>().template cast<%s>()), virtual_ptr<%s<%s>, %s>>' % (q % V, t, k, t, reg)))
            if want:
                F.append(('type of unique cast', 'std::is_same_v<decltype(std::declval<virtual_ptr<un<%s>, %s>&&>().template cast<%s>()), virtual_ptr<un<%s>, %s>>' % (s, reg, t, t, reg)))
    F.append(('const kept by cast', 'std::is_same_v<decltype(std::declval<const virtual_ptr<const Animal, %s>&>().template cast<const Dog>()), virtual_ptr<const Dog, %s>>' % (reg, reg)))
    # accessors
    for c in ('Animal', 'const Animal'):
        V = 'virtual_ptr<%s, %s>' % (c, reg)
        F += [('get of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().get()), %s*>' % (V, c)),
              ('operator* of ' + V, 'std::is_same_v<decltype(*std::declval<const %s&>()), %s&>' % (V, c)),
              ('operator-> of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().operator->()), %s*>' % (V, c)),
              ('pointer of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().pointer()), %s*>' % (V, c)),
              ('vptr of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().vptr()), vptr_type>' % V),
              ('element_type of ' + V, 'std::is_same_v<typename %s::element_type, %s>' % (V, c))]
        for k in ('sh', 'un', 'in'):
            S = '%s<%s>' % (k, c)
            V = 'virtual_ptr<%s, %s>' % (S, reg)
            F += [('get of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().get()), %s*>' % (V, c)),
                  ('operator* of ' + V, 'std::is_same_v<decltype(*std::declval<const %s&>()), %s&>' % (V, c)),
                  ('operator-> of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().operator->()), %s*>' % (V, c)),
                  ('pointer of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().pointer()), const %s&>' % (V, S)),
                  ('vptr of ' + V, 'std::is_same_v<decltype(std::declval<const %s&>().vptr()), vptr_type>' % V),
                  ('element_type of ' + V, 'std::is_same_v<typename %s::element_type, %s>' % (V, c))]
    # final and make functions
    F += [('final of object', 'std::is_same_v<decltype(final_virtual_ptr<%s>(std::declval<Dog&>())), virtual_ptr<Dog, %s>>' % (reg, reg)),
          ('static final', 'std::is_same_v<decltype(virtual_ptr<Animal, %s>::final(std::declval<Dog&>())), virtual_ptr<Dog, %s>>' % (reg, reg)),
          ('final of shared', 'std::is_same_v<decltype(final_virtual_ptr<%s>(std::declval<sh<Dog>>())), virtual_ptr<sh<Dog>, %s>>' % (reg, reg)),
          ('final of unique', 'std::is_same_v<decltype(final_virtual_ptr<%s>(std::declval<un<Dog>>())), virtual_ptr<un<Dog>, %s>>' % (reg, reg)),
          ('final of intrusive', 'std::is_same_v<decltype(final_virtual_ptr<%s>(std::declval<in<Dog>>())), virtual_ptr<in<Dog>, %s>>' % (reg, reg)),
          ('final default registry', 'std::is_same_v<decltype(final_virtual_ptr(std::declval<Dog&>())), virtual_ptr<Dog, default_registry>>'),
          ('make_shared_virtual', 'std::is_same_v<decltype(make_shared_virtual<Dog, %s>()), virtual_ptr<sh<Dog>, %s>>' % (reg, reg)),
          ('make_unique_virtual', 'std::is_same_v<decltype(make_unique_virtual<Dog, %s>()), virtual_ptr<un<Dog>, %s>>' % (reg, reg)),
          ('make_boost_intrusive_virtual', 'std::is_same_v<decltype(make_boost_intrusive_virtual<Dog, %s>()), virtual_ptr<in<Dog>, %s>>' % (reg, reg)),
          ('deduction from lvalue', 'std::is_same_v<decltype(virtual_ptr(std::declval<Dog&>())), virtual_ptr<Dog, default_registry>>'),
          ('deduction from const', 'std::is_same_v<decltype(virtual_ptr(std::declval<const Dog&>())), virtual_ptr<const Dog, default_registry>>'),
          ('alias shared', 'std::is_same_v<shared_virtual_ptr<Dog, %s>, virtual_ptr<sh<Dog>, %s>>' % (reg, reg)),
          ('alias unique', 'std::is_same_v<unique_virtual_ptr<Dog, %s>, virtual_ptr<un<Dog>, %s>>' % (reg, reg)),
          ('alias intrusive', 'std::is_same_v<boost_intrusive_virtual_ptr<Dog, %s>, virtual_ptr<in<Dog>, %s>>' % (reg, reg))]
    # equality within a registry only
    for l, r, want in (('virtual_ptr<Animal, {0}>', 'virtual_ptr<Dog, {0}>', True), ('virtual_ptr<sh<Animal>, {0}>', 'virtual_ptr<sh<Dog>, {0}>', True),
                       ('virtual_ptr<Animal, {0}>', 'virtual_ptr<Animal, R2>', False), ('virtual_ptr<sh<Animal>, {0}>', 'virtual_ptr<sh<Animal>, R2>', False)):
        F.append(('equality %s, %s: %s' % (l, r, b(want)), 'has_eq<const %s&, const %s&>::value == %s' % (l.format(reg), r.format(reg), b(want))))
    return F


CASTS = [
    ('rvalue_smart_cast_unrelated', 'auto f(virtual_ptr<sh<Animal>, R> p) { return std::move(p).cast<@{Dog@|Stranger@}>(); }'),
    ('rvalue_unique_cast_unrelated', 'auto f(virtual_ptr<un<Animal>, R> p) { return std::move(p).cast<@{Dog@|Stranger@}>(); }'),
    ('unique_cast_needs_rvalue', 'auto f(virtual_ptr<un<Animal>, R> p) { return @{std::move(p)@|p@}.cast<Dog>(); }'),
    ('cast_drops_const', 'auto f(virtual_ptr<const Animal, R> p) { return p.cast<@{const Dog@|Dog@}>(); }'),
    ('equality_unrelated', 'bool f(virtual_ptr<Animal, R> p, virtual_ptr<@{Dog@|Stranger@}, R> q) { return p == q; }'),
    ('implicit_argument', 'void g(virtual_ptr<Animal, R>); void f(@{Dog@|Stranger@}& d) { g(d); }'),
    ('null_is_explicit', 'virtual_ptr<Animal, R> f() { return @{virtual_ptr<Animal, R>(nullptr)@|nullptr@}; }'),
]


def run(ctx):
    ctx.explanation.append(
        'For every pair of (pointer, reference, smart pointer or virtual_ptr source) and virtual_ptr target over a '
        'hierarchy with single, virtual, repeated and private inheritance, the existence of construction, implicit '
        'conversion and assignment is compared, during type checking, with a table computed from the inheritance '
        'relation; likewise for casts, accessor types, final, make functions, deduction guides and equality.')
    regs = ('R', 'RI') if ctx.thorough else ('R',)
    for std in ((17, 20) if ctx.thorough else (17,)):
        t = Types(ctx, PRELUDE, std)
        for reg in regs:
            t.facts('conversion-matrix-' + reg, matrix(reg))
            t.facts('casts-and-types-' + reg, misc(reg))
        t.witnesses('conversion-witness', CASTS)
