"""P02: registries do not share state - which mutable globals the operations of a registry reach."""
import vlib
from vlib import *
import re, itertools

HEAD = r'''
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>
namespace bom = boost::openmethod; namespace pol = bom::policies;
using bom::virtual_; using bom::virtual_ptr;
struct deferred_rtti : pol::deferred_static_rtti {
    template<class Registry> struct fn : pol::std_rtti::fn<Registry> {};
};
struct extra { using category = extra; template<class R> struct fn {}; };
'''

BODY = r'''
struct animal : boost::intrusive_ref_counter<animal> { virtual ~animal() {} };
struct dog : animal {}; struct cat : virtual animal {};
struct ident; struct ident2;
using one = bom::method<ident, void(virtual_<animal&>, int), R>;
using two = bom::method<ident2, animal*(virtual_ptr<animal, R>, virtual_<const animal&>), R>;
void one_dog(dog&, int); animal* two_dog(virtual_ptr<dog, R>, const dog&);
animal* two_shared(bom::shared_virtual_ptr<animal, R>);
struct ident3; using three = bom::method<ident3, void(const bom::shared_virtual_ptr<animal, R>&), R>;
void three_dog(const bom::shared_virtual_ptr<dog, R>&);
struct ident4; using four = bom::method<ident4, void(const std::shared_ptr<animal>&) , R>;
BOOST_OPENMETHOD(poke, (virtual_ptr<animal, R>), void, R);
BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<dog, R> d), void) { if (has_next()) next(d); }
struct other_animal : bom::inplace_vptr_base<other_animal, R> { };
struct other_dog : other_animal, bom::inplace_vptr_derived<other_dog, other_animal> {};
struct other_pup : other_dog, bom::inplace_vptr_derived<other_pup, other_dog> {};
extern "C" void op_register() {
    bom::use_classes<animal, dog, cat, R> c;
    one::override<one_dog> o; two::override<two_dog> o2; three::override<three_dog> o3;
}
extern "C" void op_call(animal& a, dog& d, virtual_ptr<animal, R> p, const bom::shared_virtual_ptr<animal, R>& s) {
    one::fn(a, 1); two::fn(p, a); three::fn(s); poke(p); poke(d);
    one::next<one_dog>(d, 1); one::has_next<one_dog>();
}
extern "C" void op_pointers(animal& a, dog& d, std::shared_ptr<dog> s, std::unique_ptr<dog> u, boost::intrusive_ptr<dog> i) {
    virtual_ptr<animal, R> p(a), q(d); q = p; virtual_ptr<dog, R> e = q.template cast<dog>(); q = e; q = d;
    auto f = bom::final_virtual_ptr<R>(d); p = f; virtual_ptr<animal, R> n(nullptr); n = nullptr; (void)(p == q);
    bom::shared_virtual_ptr<animal, R> sp(s), sq(std::move(s)); sp = sq; auto sd = sp.template cast<dog>();
    auto ms = bom::make_shared_virtual<dog, R>(); sp = ms;
    bom::unique_virtual_ptr<animal, R> up(std::move(u)); auto mu = bom::make_unique_virtual<dog, R>(); up = std::move(mu);
    bom::boost_intrusive_virtual_ptr<animal, R> ip(i); auto mi = bom::make_boost_intrusive_virtual<dog, R>();
    virtual_ptr<animal, R> b(sp.get() ? *sp : a);
}
extern "C" void op_place() { other_pup o; other_dog& d = o; other_dog e(d); (void)boost_openmethod_vptr(d, (R*)nullptr); }
extern "C" void op_init() { bom::initialize<R>(); R::require_initialized(); }
template<class Q> void traced() { if constexpr (Q::has_output) { bom::initialize<Q>(bom::trace(), bom::n2216()); bom::trace t = bom::trace::from_env(); bom::initialize<Q>(t); } }
extern "C" void op_trace() { traced<R>(); }
extern "C" void op_finalize() { bom::finalize<R>(); }
extern "C" const void* op_state() { return &R::template static_vptr<dog>; }
template<class H, class = void> struct setter { static void fn() {} };
template<class H> struct setter<H, std::void_t<decltype(H::set(nullptr))>> { static void fn() { H::set(nullptr); } };
template<class R> void handle() {
    if constexpr (R::has_error_handler) { setter<typename R::error_handler>::fn(); R::error_handler::error(bom::no_overrider()); R::error_handler::error(bom::not_initialized()); R::error_handler::error(bom::missing_class()); }
}
extern "C" void op_handler() { handle<R>(); }
'''

# name: (definition of R, the policy list by which it is known)
STD = 'pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, pol::stderr_output'
REGISTRIES = {
    'default': ('using R = bom::default_registry;', 'D'),
    'indirect': ('using R = bom::indirect_registry;', 'I'),
    'checked': ('struct R_ : bom::default_registry::with<pol::runtime_checks> {}; using R = R_;', 'C'),
    'map': ('struct R_ : bom::default_registry::with<pol::vptr_map<>>::without<pol::type_hash> {}; using R = R_;', 'M'),
    'throwing': ('struct R_ : bom::default_registry::with<pol::throw_error_handler> {}; using R = R_;', 'T'),
    'silent': ('struct R_ : bom::default_registry::without<pol::output> {}; using R = R_;', 'S'),
    'unhandled': ('struct R_ : bom::default_registry::without<pol::error_handler> {}; using R = R_;', 'U'),
    'extended': ('struct R_ : bom::default_registry::with<extra> {}; using R = R_;', 'X'),
    'deferred': ('struct R_ : bom::default_registry::with<deferred_rtti> {}; using R = R_;', 'F'),
    'twin': ('struct Q : bom::registry<%s, extra> {}; struct R_ : Q {}; using R = R_;' % STD, 'X'),
    'twin2': ('using R = bom::registry<%s, extra>;' % STD, 'X'),
    'twin3': ('struct R_ : bom::indirect_registry {}; using R = R_;', 'I'),
}
MORE = {
    'indirect_map': ('struct R_ : bom::indirect_registry::with<pol::vptr_map<>, pol::runtime_checks>::without<pol::type_hash> {}; using R = R_;', 'IM'),
    'bare': ('struct R_ : bom::registry<pol::std_rtti, pol::vptr_map<>> {}; using R = R_;', 'B'),
    'reordered': ('struct R_ : bom::registry<pol::vptr_vector, pol::std_rtti, pol::fast_perfect_hash, pol::default_error_handler, pol::stderr_output> {}; using R = R_;', 'O'),
    'twin4': ('struct R_ : bom::default_registry::without<pol::error_handler>::with<pol::throw_error_handler> {}; using R = R_;', 'O2'),
    'twin5': ('struct R_ : bom::default_registry::without<extra> {}; using R = R_;', 'D'),
}
LINKAGE = r'(?:external|private|internal|available_externally|linkonce|weak|common|appending|linkonce_odr|weak_odr|extern_weak|dso_local|dso_preemptable|hidden|protected|default|thread_local(?:\([a-z]*\))?|local_unnamed_addr|unnamed_addr)'
NAME = r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)'


def module(ctx, name, code):
    src = os.path.join(ctx.tmp, 'p02_%s.cpp' % name)
    with open(src, 'w') as f:
        f.write(code)
    r = vlib.run([CLANGXX, '-std=c++17', '-I' + INC, '-I' + os.path.join(VERIF, 'engine'), '-O0', '-w', '-emit-llvm', '-S', src, '-o', src + '.ll'])
    if r.returncode:
        raise AnalysisError('p02 %s does not compile:\n%s' % (name, r.stderr[:2000]))
    mutable, uses, fn, scalars, stored = set(), {}, None, set(), set()
    for l in open(src + '.ll'):
        m = re.match('^' + NAME + r' = (?:%s )*(?:comdat )?(global|constant) (ptr|i\d+)?' % LINKAGE, l)
        if m:
            if m.group(2) == 'global':
                mutable.add(m.group(1).strip('"'))
                if m.group(3):
                    scalars.add(m.group(1).strip('"'))
            continue
        m = re.match(r'^define .*?' + NAME + r'\(', l)
        if m:
            fn = m.group(1).strip('"')
            uses[fn] = set()
        elif l.startswith('}'):
            fn = None
        elif fn:
            uses[fn] |= {x.strip('"') for x in re.findall(NAME, l)}
            if re.match(r'\s*(store|atomicrmw|cmpxchg|call void @llvm\.mem)', l):
                stored |= {x.strip('"') for x in re.findall(NAME, l)}
    # a scalar that nothing assigns is a constant
    return mutable - (scalars - stored), uses, src + '.ll'


def names(syms):
    syms = sorted(syms)
    r = vlib.run(['c++filt'], input='\n'.join(syms))
    return dict(zip(syms, r.stdout.split('\n')))


# not state of a registry: that of the standard library, of the program itself, and of the generated code
FOREIGN = r'^(?:guard variable for )?(std::|__gnu_cxx::|__dso_handle|vtable for|typeinfo|VTT for|llvm\.|std(in|out|err)$|__|ref(erence)? temporary|_ZL)'


def one(ctx, base, name, decl):
    mutable, uses, _ = module(ctx, name, HEAD + re.sub(r'\bR_', 'reg_' + name, decl) + BODY)
    new = [f for f in uses if f not in base and not re.match(r'^(__cxx_global_var_init|_GLOBAL__sub_I)', f)]
    state = set()
    for f in new:
        state |= uses[f] & mutable
    return state, {f: uses[f] & mutable for f in new}


def decide(ctx):
    regs = dict(REGISTRIES, **(MORE if ctx.thorough else {}))
    # functions of the headers themselves, used by no operation
    base = set(module(ctx, 'none', HEAD)[1])
    order = list(regs)
    got = dict(zip(order, parallel(lambda n: one(ctx, base, n, regs[n][0]), order)))
    dem = names(set().union(*(s for s, _ in got.values())))
    dfn = names({f for _, u in got.values() for f in u})
    keep = {n: {g for g in got[n][0] if not re.match(FOREIGN, dem[g]) and not (re.match(r'^_ZL|^\.L|^__', g) and 'boost' not in dem[g])} for n in order}

    def where(n, g):
        return next((dfn[f] for f, u in got[n][1].items() if g in u), '?')
    for n in order:
        s = keep[n]
        if len(s) < 6:
            raise AnalysisError('%s: only %d variables found' % (n, len(s)))
    for a, b in itertools.combinations(order, 2):
        if regs[a][1] != regs[b][1]:
            both = sorted(keep[a] & keep[b])
            ctx.check('disjoint', '%s and %s have no variable in common' % (a, b), not both,
                    'both reach %s, in %s' % (dem[both[0]], where(a, both[0])) if both else '%d and %d variables' % (len(keep[a]), len(keep[b])))
    # what belongs to a registry or its policies is that of the list of its policies
    library = r'^(?:guard variable for )?boost::openmethod::(registry<|policies::|detail::(?!odr_check|use_class|method))'
    for n in order:
        mine = {g for g in keep[n] if re.match(library, dem[g])}
        bad = sorted(g for g in mine if re.search(r'\breg_|\bdefault_registry|\bindirect_registry', dem[g]))
        ctx.check('identity', 'state of %s is that of its policy list' % n, not bad, dem[bad[0]] if bad else '%d variables' % len(mine))
    for a, b in itertools.combinations(order, 2):
        if regs[a][1] == regs[b][1]:
            la, lb = ({g for g in keep[n] if re.match(library, dem[g]) and 'method<' not in dem[g]} for n in (a, b))
            diff = sorted(la ^ lb)
            ctx.check('shared', '%s and %s share their state' % (a, b), not diff and len(la) >= 5, dem[diff[0]] if diff else '%d variables' % len(la))


def run(ctx):
    ctx.explanation.append(
        'A program that uses every operation of the library on one registry (registration, initialization, calls, virtual pointers '
        'of each kind, embedded v-table pointers, errors, finalization) is compiled for each of several registries; the variables '
        'that its functions and those of the library refer to are collected from the unoptimized code. Registries with different '
        'policies must have no variable in common; those of the same policies, each derived from the other, must have all '
        'those of the registry and policies in common.')
    decide(ctx)
