"""R01: registration lists."""
from vlib import *
import flow, shapes

PRE = '''
#include <probe.hpp>
using namespace omv; using namespace boost::openmethod;
using detail::static_list;
struct N : static_list<N>::static_link { N(); long payload; };
using L = static_list<N>;
'''


def lists(top):
    """an arbitrary sequence of operations on fresh (zero-initialized) nodes,
    observed by iterating; the representation is erased before comparing."""
    T = []

    def two(tag, k, ops, content):
        ns = ['n%d' % i for i in range(k)]
        wipe = '__builtin_memset(&l, 0, sizeof l); ' + ''.join('__builtin_memset(&%s, 0, sizeof(N)); ' % n for n in ns)
        do = ''.join('l.%s(n%d); ' % ('push_back' if op == '+' else 'remove', n) for op, n in ops)
        args = ', '.join(['L& l', 'N** out', 'bool* e'] + ['N& %s' % n for n in ns])
        for c, ct in (('', 'm'), ('const ', 'c')):
            see = '%sL& v = l; auto i = v.begin(); ' % c
            for j in range(len(content)):
                see += 'e[%d] = i == v.end(); out[%d] = const_cast<N*>(&*i); %s ' % (j, j, ('++i;', 'i++;')[j % 2])
            see += 'e[%d] = i != v.end(); e[%d] = v.empty(); ' % (len(content), len(content) + 1)
            spec = ''.join('e[%d] = false; out[%d] = &n%d; ' % (j, j, n) for j, n in enumerate(content))
            spec += 'e[%d] = false; e[%d] = %s; ' % (len(content), len(content) + 1, 'false' if content else 'true')
            T.append('extern "C" void probe_%s_%s(%s) { %s %s %s %s }\n' % (ct, tag, args, wipe, do, see, wipe))
            T.append('extern "C" void ref_%s_%s(%s) { %s %s }\n' % (ct, tag, args, wipe, spec))
    for k in range(top + 1):
        all_ = list(range(k))
        add = [('+', i) for i in all_]
        two('push_%d' % k, k, add, all_)
        for i in all_:
            rest = all_[:i] + all_[i + 1:]
            two('remove_%d_of_%d' % (i, k), k, add + [('-', i)], rest)
            two('again_%d_of_%d' % (i, k), k, add + [('-', i), ('+', i)], rest + [i])
            if k > 4:
                continue
            for j in rest:
                two('remove_%d_%d_of_%d' % (i, j, k), k, add + [('-', i), ('-', j)], [n for n in rest if n != j])
                two('remove_%d_%d_readd_%d' % (i, j, k), k, add + [('-', i), ('-', j), ('+', i), ('+', j)], [n for n in rest if n != j] + [i, j])
    return ''.join(T)


def registrars(reg):
    """constructors and destructors add to and remove from the right list."""
    c = shapes.PRELUDE + shapes.classes(3) + 'struct Z0 : X0 {}; struct Ab : X0 { virtual void f() = 0; };\n'
    c += 'struct idm; using M = method<idm, int(virtual_<X0&>, int, virtual_ptr<X1, %s>), %s>; int f(Z0&, int, virtual_ptr<X1, %s>); using O = M::override_impl<f, int>;\n' % (reg, reg, reg)
    c += 'using U = detail::use_class_aux<%s, boost::mp11::mp_list<Z0, X0, Z0>>;\n' % reg
    T = [c]

    def two(tag, args, prb, ref):
        T.append('extern "C" void probe_%s_%s(%s) { %s }\nextern "C" void ref_%s_%s(%s) { %s }\n' % (tag, reg, args, prb, tag, reg, args, ref))
    two('class_dtor', 'U& u', 'u.~U();', '%s::classes.remove(u);' % reg)
    two('method_dtor', 'M& u', 'u.~M();', '%s::methods.remove(u);' % reg)
    two('overrider_dtor', 'O& u', 'u.~O();', 'u.method->overriders.remove(u);')
    return ''.join(T)


STATIC = '''
#include <probe.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
using namespace omv; using namespace boost::openmethod;
struct A { virtual ~A(); }; struct B : A {}; struct C : A {}; struct D : B {}; struct E : B {};
struct id1; struct id2; struct id3; struct id4; struct id5;
using M1 = method<id1, void(virtual_<A&>), plain>; using M2 = method<id2, void(virtual_<A&>), plain>;
using M3 = method<id3, void(virtual_<A&>), plain>; using M4 = method<id4, void(virtual_<A&>), plain>;
void f1(B&); void f2(C&); void f3(D&); void f4(E&);
void caller(A& a) { M1::fn(a); }                  // only called
static M2::override<f1> o1;                        // only overridden
static M3::override<f1, f2, f3> o3;                // several at once
static use_classes<A, B, plain> c1;
static use_classes<A, C, D> c2;
struct P : inplace_vptr_base<P, plain> {}; struct Q : P, inplace_vptr_derived<Q, P> {};
struct S : inplace_vptr_base<S, plain> {}; struct T : Q, S, inplace_vptr_derived<T, Q, S> {};
struct Never : inplace_vptr_base<Never, plain> {};
void make() { T t; }
'''


def static_init(ctx):
    calls = flow.init_calls(ctx, 'r01_static', STATIC)

    def has(what, n, *parts):
        k = [s for s in calls if all(p in s for p in parts)]
        ctx.check('runs-at-startup', what, bool(k) == bool(n),
                  '%d constructor(s) found among what static initialization runs, expected %s: %s' % (len(k), 'some' if n else 'none', parts))
    for m, n in (('id1', 1), ('id2', 1), ('id3', 1), ('id4', 0)):
        has('method_' + m, n, 'method<%s, ' % m, '>::method()')
    for m, f, n in (('id2', 'f1(B&)', 1), ('id2', 'f2(C&)', 0), ('id3', 'f1(B&)', 1), ('id3', 'f2(C&)', 1), ('id3', 'f3(D&)', 1), ('id3', 'f4(E&)', 0)):
        has('overrider_%s_%s' % (m, f[:2]), n, 'method<%s, ' % m, 'override_impl<&(%s)' % f, '::override_impl(')
    for c, r, n in (('A', 'plain', 1), ('B', 'plain', 1), ('C', 'plain', 0), ('A', 'def', 1), ('C', 'def', 1), ('D', 'def', 1), ('B', 'def', 0),
                    ('P', 'plain', 1), ('Q', 'plain', 1), ('S', 'plain', 1), ('T', 'plain', 1), ('P', 'def', 0), ('Never', 'plain', 0)):
        has('class_%s_%s' % (c, r), n, 'use_class_aux<omv::%s, ' % r, 'mp_list<%s, ' % c, '::use_class_aux(')


def run(ctx):
    ctx.explanation.append(
        'push_back and remove are normalised on well-formed lists of every size up to the bound, for every element '
        '(first, middle, last, only), and must leave exactly the well-formed list of the remaining elements in order, '
        'with the removed node ready to be added again; both are loop-free and touch only the node, its neighbours, the '
        'first and the last node, which makes longer lists instances of these. Destructors of registrars must be '
        'removals from their own list, constructors are decided by R02, and the call graph of static initialization '
        'must reach the constructor of every declared registrar and of no other.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'registrars have static storage duration (zero-initialized), as documented']
    f = flow.Flow(ctx, 'r01_list', PRE + lists(6 if ctx.thorough else 4), distinct=True, refargs=True)
    f.check('list-operations')
    for reg in ['plain', 'indirect', 'checked'] + (['handled', 'def'] if ctx.thorough else []):
        flow.Flow(ctx, 'r01_' + reg, registrars(reg), distinct=True, refargs=True).check('registrar-destructors')
    static_init(ctx)
