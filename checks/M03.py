"""M03: the macros declare, call and override the same methods as the core API."""
from vlib import *
import flow, shapes, teng

RETS = ['int', 'void', 'Big&', 'Big', 'Mover']


def method_unit(ctx, name, jobs):
    code = shapes.PRELUDE + '#include <boost/openmethod/macros.hpp>\n' + shapes.classes(max(len(j[0]) for j in jobs))
    for k, (w, reg, ret) in enumerate(jobs):
        sh = shapes.Shape(w)
        args = ', '.join('%s a%d' % (p, i) for i, p in enumerate(sh.params)).replace(', R>', ', %s>' % reg)
        r = '' if reg == 'def' else ', ' + reg
        tag = '%s_%s_%s' % (w, reg, ret.replace('&', 'ref'))
        decl = sh.decl.replace(', Reg>', ', %s>' % reg)
        code += 'BOOST_OPENMETHOD(meth%d, (%s), %s%s);\n' % (k, args, ret, r)
        code += 'using M%d = method<BOOST_OPENMETHOD_ID(meth%d), %s(%s), %s>;\n' % (k, k, ret, sh.sig(reg), reg)
        # the free function is the method
        code += 'extern "C" %s probe_call_%s(%s) { return meth%d(%s); }\n' % (ret, tag, decl, k, sh.args())
        code += 'extern "C" %s ref_call_%s(%s) { return M%d::fn(%s); }\n' % (ret, tag, decl, k, sh.args())
        # an overrider: its thunk, next and has_next
        oargs = ', '.join('%s a%d' % (t, i) for i, t in enumerate(sh.types)).replace(', R>', ', %s>' % reg)
        for macro, om in (('OVERRIDE', 'v'), ):
            code += 'BOOST_OPENMETHOD_DECLARE_OVERRIDER(meth%d, (%s), %s)\n' % (k, oargs, ret)
            code += 'using Ov%d = BOOST_OPENMETHOD_OVERRIDER(meth%d, (%s), %s);\n' % (k, k, oargs, ret)
        code += ('extern "C" bool probe_located_%s() { return std::is_same_v<Ov%d::boost_openmethod_detail_locate_method_aux<void(%s)>::type, M%d>; }\n'
                 'extern "C" bool ref_located_%s() { return true; }\n') % (tag, k, sh.sig(reg, sh.types), k, tag)
        code += 'extern "C" bool probe_has_%s() { return Ov%d::has_next(); }\nextern "C" bool ref_has_%s() { return M%d::has_next<Ov%d::fn>(); }\n' % (tag, k, tag, k, k)
        code += 'extern "C" %s probe_next_%s(%s) { return Ov%d::next(%s); }\n' % (ret, tag, decl, k, sh.args())
        code += 'extern "C" %s ref_next_%s(%s) { return M%d::next<Ov%d::fn>(%s); }\n' % (ret, tag, decl, k, k, sh.args())
    return flow.Flow(ctx, name, code, distinct=True)


WIT_PRE = '''
#include <boost/openmethod.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <memory>
#include <string>
using namespace boost::openmethod; using boost::openmethod::virtual_ptr;
struct R2 : default_registry::with<policies::indirect_vptr> {};
struct Animal { virtual ~Animal(); }; struct Dog : Animal {}; struct Cat : Animal {}; struct Other { virtual ~Other(); };
template<class M, auto F> constexpr bool same = std::is_same_v<M, M>;
'''
M1 = 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>, int), void);\n'
WITNESSES = [
    ('override_exists', '@{' + M1 + '@|@}BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog>, int), void) {}'),
    ('override_same_arity', M1 + 'BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog>@{, int@|@}), void) {}'),
    ('override_related', M1 + 'BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<@{Dog@|Other@}>, int), void) {}'),
    ('override_declared_before_defined', M1 + '@{BOOST_OPENMETHOD_DECLARE_OVERRIDER(poke, (virtual_ptr<Dog>, int), void)@|@}\nBOOST_OPENMETHOD_DEFINE_OVERRIDER(poke, (virtual_ptr<Dog>, int), void) {}'),
    ('inline_override', M1 + 'BOOST_OPENMETHOD_INLINE_OVERRIDE(poke, (virtual_ptr<@{Dog@|Other@}>, int), void) {}'),
    ('overrides_declared_twice', M1 + 'BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog>, int), void) {}\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<@{Cat@|Dog@}>, int), void) {}'),
    ('call_with_convertible', M1 + 'void f(@{Dog@|Other@}& d) { poke(d, 1); }'),
    ('call_arity', M1 + 'void f(Dog& d) { poke(d@{, 1@|@}); }'),
    ('call_sfinae', M1 + 'template<class T> auto g(T* t) -> decltype(poke(*t, 1));\n@{int g(void*);@|@}\nint h(Other* o) { return g(o); }'),
    ('return_type', M1 + 'BOOST_OPENMETHOD(name, (virtual_ptr<Animal>), std::string);\n@{std::string@|int@} f(Dog& d) { return name(d); }'),
    ('registry_of_method', 'BOOST_OPENMETHOD(poke, (virtual_ptr<Animal, R2>), void, R2);\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog@{, R2@|@}>), void) {}'),
    ('other_namespace', 'namespace a { struct Cow : Animal {}; BOOST_OPENMETHOD(poke, (virtual_ptr<Cow>), void); }\nBOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<@{a::Cow@|Dog@}>), void) {}'),
    ('next_arity', M1 + 'BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog> d, int i), void) { if (has_next()) next(d@{, i@|@}); }'),
    ('next_returns', 'BOOST_OPENMETHOD(name, (virtual_ptr<Animal>), std::string);\nBOOST_OPENMETHOD_OVERRIDE(name, (virtual_ptr<Dog> d), std::string) { @{std::string@|int@} s = next(d); return "x"; }'),
    ('override_return_type', 'BOOST_OPENMETHOD(name, (virtual_ptr<Animal>), std::string);\nBOOST_OPENMETHOD_OVERRIDE(name, (virtual_ptr<Dog> d), @{std::string@|Animal*@}) { return @{"x"@|nullptr@}; }'),
    ('classes', 'BOOST_OPENMETHOD_CLASSES(Animal, Dog, @{Cat@|int@});'),
    ('classes_registry', 'BOOST_OPENMETHOD_CLASSES(@{Animal, R2@|R2, Animal@});'),
    ('register', 'BOOST_OPENMETHOD_REGISTER(@{use_classes<Animal, Dog>@|no_such_thing@});\nBOOST_OPENMETHOD_REGISTER(use_classes<Animal, Cat>);'),
]


def facts():
    F = []
    code = '''
BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>, int), void);
BOOST_OPENMETHOD(meet, (virtual_<const Animal&>, std::string&&, virtual_<const Animal&>), int*, R2);
BOOST_OPENMETHOD(over, (virtual_ptr<Animal>), int);
BOOST_OPENMETHOD(over, (virtual_ptr<Animal>, virtual_ptr<Animal>), char*);
namespace ns { struct Cow { virtual ~Cow(); }; struct Calf : Cow {}; BOOST_OPENMETHOD(poke, (virtual_ptr<Cow>, int), long); }
BOOST_OPENMETHOD_DECLARE_OVERRIDER(poke, (virtual_ptr<Dog>, int), void)
BOOST_OPENMETHOD_DECLARE_OVERRIDER(meet, (const Dog&, std::string&&, const Cat&), int*)
BOOST_OPENMETHOD_DECLARE_OVERRIDER(over, (virtual_ptr<Dog>), int)
BOOST_OPENMETHOD_DECLARE_OVERRIDER(over, (virtual_ptr<Dog>, virtual_ptr<Animal>), char*)
BOOST_OPENMETHOD_DECLARE_OVERRIDER(poke, (virtual_ptr<ns::Calf>, int), long)
template<class O, class Sig> using located = typename O::template boost_openmethod_detail_locate_method_aux<Sig>::type;
'''
    def f(n, e):
        F.append((n, e))
    f('type_default', 'std::is_same_v<BOOST_OPENMETHOD_TYPE(poke, (virtual_ptr<Animal>, int), void), method<BOOST_OPENMETHOD_ID(poke), void(virtual_ptr<Animal>, int), default_registry>>')
    f('type_registry', 'std::is_same_v<BOOST_OPENMETHOD_TYPE(meet, (virtual_<const Animal&>, std::string&&, virtual_<const Animal&>), int*, R2), method<BOOST_OPENMETHOD_ID(meet), int*(virtual_<const Animal&>, std::string&&, virtual_<const Animal&>), R2>>')
    f('call_type', 'std::is_same_v<decltype(meet(std::declval<Dog&>(), std::declval<std::string>(), std::declval<Cat&>())), int*>')
    f('call_overload1', 'std::is_same_v<decltype(over(std::declval<Dog&>())), int>')
    f('call_overload2', 'std::is_same_v<decltype(over(std::declval<Dog&>(), std::declval<Dog&>())), char*>')
    f('call_ns', 'std::is_same_v<decltype(ns::poke(std::declval<ns::Calf&>(), 1)), long>')
    f('locate', 'std::is_same_v<located<BOOST_OPENMETHOD_OVERRIDER(poke, (virtual_ptr<Dog>, int), void), void(virtual_ptr<Dog>, int)>, BOOST_OPENMETHOD_TYPE(poke, (virtual_ptr<Animal>, int), void)>')
    f('locate_registry', 'std::is_same_v<located<BOOST_OPENMETHOD_OVERRIDER(meet, (const Dog&, std::string&&, const Cat&), int*), void(const Dog&, std::string&&, const Cat&)>, BOOST_OPENMETHOD_TYPE(meet, (virtual_<const Animal&>, std::string&&, virtual_<const Animal&>), int*, R2)>')
    f('locate_overload1', 'std::is_same_v<located<BOOST_OPENMETHOD_OVERRIDER(over, (virtual_ptr<Dog>), int), void(virtual_ptr<Dog>)>, BOOST_OPENMETHOD_TYPE(over, (virtual_ptr<Animal>), int)>')
    f('locate_overload2', 'std::is_same_v<located<BOOST_OPENMETHOD_OVERRIDER(over, (virtual_ptr<Dog>, virtual_ptr<Animal>), char*), void(virtual_ptr<Dog>, virtual_ptr<Animal>)>, BOOST_OPENMETHOD_TYPE(over, (virtual_ptr<Animal>, virtual_ptr<Animal>), char*)>')
    f('locate_ns', 'std::is_same_v<located<BOOST_OPENMETHOD_OVERRIDER(poke, (virtual_ptr<ns::Calf>, int), long), void(virtual_ptr<ns::Calf>, int)>, method<ns::BOOST_OPENMETHOD_ID(poke), long(virtual_ptr<ns::Cow>, int), default_registry>>')
    f('distinct_ns', '!std::is_same_v<BOOST_OPENMETHOD_ID(poke), ns::BOOST_OPENMETHOD_ID(poke)>')
    return code, F


# which constructors the registration macros run during static initialization
REG_CODE = '''
#include <probe.hpp>
#include <boost/openmethod/macros.hpp>
using namespace omv; using namespace boost::openmethod;
struct A { virtual ~A(); }; struct B : A {}; struct C : A {}; struct D : B {}; struct E : B {};
BOOST_OPENMETHOD(m, (virtual_<A&>, int), void);
BOOST_OPENMETHOD_OVERRIDE(m, (B&, int), void) {}
BOOST_OPENMETHOD_INLINE_OVERRIDE(m, (C&, int), void) {}
BOOST_OPENMETHOD_DECLARE_OVERRIDER(m, (D&, int), void)
BOOST_OPENMETHOD_DEFINE_OVERRIDER(m, (D&, int), void) {}
BOOST_OPENMETHOD_DECLARE_OVERRIDER(m, (E&, int), void)
BOOST_OPENMETHOD_CLASSES(A, B, C);
BOOST_OPENMETHOD_REGISTER(use_classes<D, A>);
BOOST_OPENMETHOD_REGISTER(use_classes<D, B, plain>);
'''


def registrations(ctx):
    mod = flow.init_calls(ctx, 'm03_init', REG_CODE)
    meth = 'method<m_boost_openmethod, void (boost::openmethod::virtual_<A&>, int), omv::def>'
    want = []
    for c, n in (('B', 1), ('C', 1), ('D', 1), ('E', 0)):
        want.append(('overrider_' + c, n, lambda s, c=c: 'override_impl<' in s and '_overriders<void (%s&, int)>::fn' % c in s and s.split('(')[0] and ctor_of(s, 'override_impl')))
    want.append(('method', 1, lambda s: ctor_of(s, 'method') and 'method<m_boost_openmethod' in s and 'override' not in s))
    for c, reg, n in (('A', 'def', 1), ('B', 'def', 1), ('C', 'def', 1), ('D', 'plain', 1), ('E', 'def', 0)):
        want.append(('class_%s_%s' % (c, reg), n, lambda s, c=c, reg=reg: ctor_of(s, 'use_class_aux') and 'use_class_aux<omv::%s, ' % reg in s and 'mp_list<%s, ' % c in s))
    for what, n, pred in want:
        k = [s for s in mod if pred(s)]
        ctx.check('registration-at-startup', what, len(k) >= 1 if n else not k,
                  'static initialization of a translation unit using the macros runs %d registrar constructors for %s, expected %s\n%s'
                  % (len(k), what, n or 'none', '\n'.join(sorted(mod)[:40])))


def ctor_of(s, cls):
    import re
    return re.search(r'::%s\(' % cls, s) is not None


def run(ctx):
    ctx.explanation.append(
        'A method declared with BOOST_OPENMETHOD is a method specialisation named by the macro: the generated function '
        'is normalised and must equal a call to that method with the arguments forwarded; next and has_next generated '
        'for an overrider must be those of that overrider in the located method; location of the method, argument '
        'matching and registration macros are decided with type facts, compile-fail witnesses and the set of '
        'constructors that static initialization runs.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics']
    ws = shapes.thorough_shapes() if ctx.thorough else shapes.quick_shapes()
    jobs = []
    for i, w in enumerate(ws):
        ret = RETS[i % len(RETS)]
        for j, reg in enumerate(['def', 'plain', 'checked', 'indirect']):
            if ctx.thorough or i % 4 == j:
                jobs.append((w, reg, ret))
    n = 8 * (4 if ctx.thorough else 1)
    for f in parallel(lambda k: method_unit(ctx, 'm03_%d' % k, jobs[k::n]), list(range(n))):
        f.check('macro-is-method')
    code, F = facts()
    teng.Types(ctx, WIT_PRE + code).facts('macro-types', F)
    teng.Types(ctx, WIT_PRE).witnesses('macro-uses', WITNESSES)
    registrations(ctx)
