"""V04: with indirect_vptr, what is stored is the persistent place of the v-table
pointer, in virtual_ptrs and in objects using inplace_vptr."""
from vlib import *
import flow, vptrs, shapes, teng
from V01 import run_ops, ZERO
import D01


def accessors():
    R = 'indirect'
    T = []
    for kind, t in (('raw', 'virtual_ptr<X, indirect>'), ('smart', 'virtual_ptr<sp<X>, indirect>')):
        T.append('extern "C" vptr_type probe_read_%s(const %s& s) { return s.vptr(); }\nextern "C" vptr_type ref_read_%s(const %s& s) { return *s.vp; }\n' % (kind, t, kind, t))
        # two reads around a re-initialization see two values
        T.append('extern "C" void probe_again_%s(Out* out, const %s& s) { out->v = s.vptr(); hook_again(); out->sv = s.vptr(); }\n'
                 'extern "C" void ref_again_%s(Out* out, const %s& s) { out->v = *s.vp; hook_again(); out->sv = *s.vp; }\n' % (kind, t, kind, t))
    return 'extern "C" void reset_tables(); static inline void hook_again() { reset_tables(); }\n' + ''.join(T)


INPLACE = '''
struct A1 : inplace_vptr_base<A1, %(R)s> { A1(); virtual ~A1(); A1(const A1&); long a; };
struct B1 : A1, inplace_vptr_derived<B1, A1> { B1(); ~B1(); long b; };
struct A2 : inplace_vptr_base<A2, %(R)s> { A2(); virtual ~A2(); long a2; };
struct C1 : B1, A2, inplace_vptr_derived<C1, B1, A2> { C1(); ~C1(); long c; };
struct Z { virtual ~Z(); long z; };
struct W : Z, inplace_vptr_base<W, %(R)s> { long w; };
'''


def inplace():
    c = INPLACE % dict(R='indirect')
    pts = [('A1', 'A1'), ('B1', 'A1'), ('C1', 'A1'), ('W', 'W')]
    for cls, root in pts:
        # the v-table pointer found through the object is the class's, not a copy
        c += ('extern "C" const vptr_type* probe_find_%s(const %s& a) { return &boost_openmethod_vptr(a, (indirect*)0); }\n'
              'extern "C" const vptr_type* ref_find_%s(const %s& a) { return a.inplace_vptr_base<%s, indirect>::boost_openmethod_vptr; }\n') % (cls, cls, cls, cls, root)
        for cv in ('', 'const '):
            c += ('extern "C" void probe_vp_%s%s(Out* out, %s%s& a) { virtual_ptr<%s%s, indirect> p(a); out->place = (const void*) p.vp; out->v = p.vptr(); out->o = p.get(); }\n'
                  'extern "C" void ref_vp_%s%s(Out* out, %s%s& a) { auto w = a.inplace_vptr_base<%s, indirect>::boost_openmethod_vptr; out->place = (const void*) w; out->v = *w; out->o = &a; }\n'
                  ) % (cls, cv.strip(), cv, cls, cv, cls, cls, cv.strip(), cv, cls, root)
    return c


WIT_PRE = """#include <probe.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
using namespace omv; using namespace boost::openmethod;
struct T { virtual ~T(); long x; }; struct U : T {};
"""


def witnesses():
    fn = '@{const vptr_type&@|vptr_type@} boost_openmethod_vptr(const T&, indirect*);\n'
    use = [('ref', 'virtual_ptr<T, indirect> f(T& t) { return t; }'), ('pointer', 'virtual_ptr<T, indirect> f(T* t) { return t; }'),
           ('derived', 'virtual_ptr<T, indirect> f(U& t) { return t; }'),
           ('assign', 'void f(virtual_ptr<T, indirect>& p, T& t) { p = t; }'),
           ('assign_pointer', 'void f(virtual_ptr<T, indirect>& p, T* t) { p = t; }')]
    return [('place_' + n, fn + c) for n, c in use]


def run(ctx):
    ctx.explanation.append(
        'For registries with indirect_vptr the stored word of the virtual_ptr left by every operation is normalised '
        'and must be the address of the persistent per-class v-table pointer (the one the vptr policy, the v-table '
        'function or static_vptr refers to), or the word of the source; reading the v-table dereferences it at every '
        'read. The same is decided for inplace_vptr objects and for the dispatch of calls.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'the vptr policy returns a reference to the persistent pointer (P05)']
    regs = ['indirect']
    ops = vptrs.raw_ops() + vptrs.smart_ops()
    run_ops(ctx, 'stores-persistent-place', ops, regs, extra='place')
    f = flow.Flow(ctx, 'v04_acc', vptrs.PRE + accessors(), distinct=True)
    f.check('reads-through-place')
    f = flow.Flow(ctx, 'v04_inplace', vptrs.PRE + '#include <boost/openmethod/inplace_vptr.hpp>\n' + inplace(), distinct=True, flags=['-fno-access-control'])
    f.check('inplace-place')
    ws = shapes.thorough_shapes() if ctx.thorough else shapes.quick_shapes()
    jobs = [(w, 'indirect', D01.RETS[i % len(D01.RETS)].replace('X0&', 'Big&')) for i, w in enumerate(ws)]
    fl = parallel(lambda k: D01.unit(ctx, 'v04_call%d' % k, jobs[k::4]), list(range(4)))
    for f in fl:
        f.check('call-reads-place')
    teng.Types(ctx, WIT_PRE, extra=['-fno-access-control', '-I' + os.path.join(VERIF, 'engine')]).witnesses('temporary-is-not-a-place', witnesses())
