"""X01: the embedded v-table pointer follows construction and destruction."""
from vlib import *
import flow, vptrs

# hierarchies: class -> (bases, options); roots have no inplace base.
# 'P' first: a polymorphic base; 'N': a plain non-empty base in front
HIER = {
    'root': [('A', [])],
    'chain2': [('A', []), ('B', ['A'])],
    'chain3': [('A', []), ('B', ['A']), ('C', ['B'])],
    'chain5': [('A', []), ('B', ['A']), ('C', ['B']), ('D', ['C']), ('E', ['D'])],
    'two_roots': [('A', []), ('B', []), ('C', ['A', 'B'])],
    'two_chains': [('A', []), ('B', ['A']), ('C', []), ('D', ['C']), ('E', ['B', 'D'])],
    'three_roots': [('A', []), ('B', []), ('C', []), ('D', ['A', 'B', 'C'])],
    'four_roots': [('A', []), ('B', []), ('C', []), ('D', []), ('E', ['A', 'B', 'C', 'D'])],
    'below_two': [('A', []), ('B', []), ('C', ['A', 'B']), ('D', ['C']), ('E', ['D'])],
    'nested': [('A', []), ('B', []), ('C', ['A', 'B']), ('D', []), ('E', ['C', 'D']), ('F', ['E'])],
    'nested_right': [('A', []), ('B', []), ('C', ['A', 'B']), ('D', []), ('E', ['D', 'C'])],
    'two_nested': [('A', []), ('B', []), ('C', ['A', 'B']), ('D', []), ('E', []), ('F', ['D', 'E']), ('G', ['C', 'F'])],
    'three_mid': [('A', []), ('B', ['A']), ('C', []), ('D', ['C']), ('E', []), ('F', ['E']), ('G', ['B', 'D', 'F']), ('H', ['G'])],
}
VARIANTS = {'plain': '', 'poly': 'poly', 'offset': 'offset'}


def roots(h, c):
    b = dict(h)[c]
    return [c] if not b else [r for x in b for r in roots(h, x)]


def declare(h, reg, variant, see=True):
    out = []
    for c, bs in h:
        rs = roots(h, c)

        def body(when):
            return ''.join('look<%s, %s>(*this); ' % (r, reg) for r in rs) if see else ''
        virt = 'virtual ' if variant == 'poly' else ''
        pre = ''
        if variant == 'offset' and not bs:
            pre = 'Pad<%s>, ' % c
        if bs:
            base = ', '.join(bs) + ', inplace_vptr_derived<%s, %s>' % (c, ', '.join(bs))
        else:
            base = pre + 'inplace_vptr_base<%s, %s>' % (c, reg)
        out.append('struct %s; ' % c)
        out.append('struct %s : %s { long m%s; %s() { %s} %s(const %s& o) : %s { %s} %s& operator=(const %s&) = default; %s~%s() { %s} };'
                   % (c, base, c, c, body(0), c, c, ', '.join('%s(o)' % b for b in (bs + ['inplace_vptr_derived<%s, %s>' % (c, ', '.join(bs))] if bs else ['inplace_vptr_base<%s, %s>' % (c, reg)])),
                      body(0), c, c, virt, c, body(0)))
    return '\n'.join(out)


def life(h, c, ctor, state):
    """events of constructing (destroying) c: list of classes seen per root."""
    bs = dict(h)[c]
    ev = []
    if ctor:
        for b in bs:
            ev += life(h, b, True, state)
        ev += [c] * len(roots(h, c))
    else:
        ev += [c] * len(roots(h, c))
        for b in reversed(bs):
            ev += life(h, b, False, state)
    return ev


def sv(reg, c):
    return 'hook_see(%s::static_vptr<%s>); ' % (reg, c)


def unit(ctx, name, hname, reg, variant):
    h = HIER[hname]
    top = h[-1][0]
    ind = 'indirect' in reg
    code = PRE + 'namespace {\n' + declare(h, reg, variant) + '\n}\n'
    rs = roots(h, top)
    tag = '%s_%s_%s' % (hname, reg, variant)

    def look(c, o):
        return ''.join('look<%s, %s>(%s); ' % (r, reg, o) for r in roots(h, c)) + \
            'look<%s, %s>(%s); ' % (c, reg, o)

    def seen(c, k):
        return sv(reg, k) * (len(roots(h, c)) + 1)
    ctor = ''.join(sv(reg, c) for c in life(h, top, True, {}))
    dtor = ''.join(sv(reg, c) for c in life(h, top, False, {}))
    dead = ''.join('hook_word((const void*) h.o.inplace_vptr_base<%s, %s>::boost_openmethod_vptr); ' % (r, reg) for r in rs)
    T = []

    def two(what, prb, ref):
        T.append('extern "C" void probe_%s_%s() { %s }\nextern "C" void ref_%s_%s() { %s }\n' % (what, tag, prb, what, tag, ref))
    two('life', 'Hold<%s> h; new(&h.o) %s; %s h.o.~%s(); %s' % (top, top, look(top, 'h.o'), top, dead),
        ctor + seen(top, top) + dtor + 'hook_word(nullptr); ' * len(rs))
    two('copy', '{ Hold<%s> g; new(&g.o) %s; hook_mark(); Hold<%s> h; new(&h.o) %s(g.o); %s %s h.o.~%s(); }' % (top, top, top, top, look(top, 'h.o'), look(top, 'g.o'), top),
        ctor + 'hook_mark(); ' + ctor + seen(top, top) + seen(top, top) + dtor)
    two('assign', 'Hold<%s> g, h; new(&g.o) %s; hook_mark(); new(&h.o) %s; hook_mark(); h.o = g.o; %s %s' % (top, top, top, look(top, 'h.o'), look(top, 'g.o')),
        ctor + 'hook_mark(); ' + ctor + 'hook_mark(); ' + seen(top, top) * 2)
    for b in sorted({x for c, _ in h for x in [c]} - {top}):
        # slicing: only along unique paths (always the case here)
        if not is_base(h, b, top):
            continue
        bctor = ''.join(sv(reg, c) for c in life(h, b, True, {}))
        two('slice_' + b, 'Hold<%s> g; new(&g.o) %s; hook_mark(); Hold<%s> h; new(&h.o) %s(g.o); %s %s' % (top, top, b, b, look(b, 'h.o'), look(top, 'g.o')),
            ctor + 'hook_mark(); ' + bctor + seen(b, b) + seen(top, top))
        two('assign_part_' + b, 'Hold<%s> g; new(&g.o) %s; hook_mark(); Hold<%s> h; new(&h.o) %s; hook_mark(); static_cast<%s&>(g.o) = h.o; %s h.o = g.o; %s' % (top, top, b, b, b, look(top, 'g.o'), look(b, 'h.o')),
            ctor + 'hook_mark(); ' + bctor + 'hook_mark(); ' + seen(top, top) + seen(b, b))
    return flow.Flow(ctx, name, code + ''.join(T), distinct=True, flags=['-fno-access-control'])


PRE = '''
#include <probe.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
using namespace omv; using namespace boost::openmethod;
void hook_see(vptr_type); void hook_word(const void*); void hook_mark();
template<class T, class R> void look(const T& o) { hook_see(boost_openmethod_vptr(o, (R*) nullptr)); }
template<class T> union Hold { T o; Hold() {} ~Hold() {} };
template<class T> struct Pad { long pad[2]; };
'''


def is_base(h, b, c):
    return b == c or any(is_base(h, b, x) for x in dict(h)[c])


# virtual inheritance: the conversion to the virtual base reads the object's own,
# not yet initialised, v-table
VIRTUAL = [
    ('chain', 'struct B : virtual A, inplace_vptr_derived<B, A> { B() { %s } ~B() { %s } };', 'B', ['A', 'B'], ['B', 'A']),
    ('diamond', 'struct B : virtual A, inplace_vptr_derived<B, A> { B() { %s } ~B() { %s } };'
     'struct C : virtual A, inplace_vptr_derived<C, A> { C() { %s } ~C() { %s } };'
     'struct D : B, C, inplace_vptr_derived<D, B, C> { D() { %s } ~D() { %s } };', 'D', ['A', 'B', 'C', 'D'], ['D', 'C', 'B', 'A']),
]


def virtual_unit(ctx, reg):
    code = PRE
    see = 'look<A, %s>(*this);' % reg
    for n, decl, top, up, down in VIRTUAL:
        code += 'namespace V%s { struct A : inplace_vptr_base<A, %s> { A() { %s } ~A() { %s } long a; };' % (n, reg, see, see)
        code += decl.replace('%s', see) + '\n'
        code += 'extern "C" void probe_virtual_%s() { Hold<%s> h; new(&h.o) %s; h.o.~%s(); }\n' % (n, top, top, top)
        code += 'extern "C" void ref_virtual_%s() { %s }\n}\n' % (n, ''.join(sv(reg, c) for c in up + down))
    return flow.Flow(ctx, 'x01_virtual_' + reg, code, distinct=True, flags=['-fno-access-control'])


def run(ctx):
    ctx.explanation.append(
        'For enumerated hierarchies using inplace_vptr_base and inplace_vptr_derived, the constructors and destructors '
        '(whose bodies observe the embedded pointer of every root) are inlined into one acyclic function and '
        'normalised; the sequence of observed v-table pointers must be the one of the class under construction or '
        'destruction at each step. Copy construction, slicing and assignment are treated likewise; after destruction '
        'the pointers are null.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'inplace_vptr_derived is the last base, as documented']
    jobs = []
    for i, hn in enumerate(HIER):
        for j, reg in enumerate(['plain', 'indirect', 'checked']):
            for k, v in enumerate(VARIANTS):
                if ctx.thorough or (i + j + k) % 3 == 0 or hn in ('chain3', 'two_chains') and v == 'plain':
                    jobs.append((hn, reg, v))
    for f in parallel(lambda j: unit(ctx, 'x01_%s_%s_%s' % j, *j), jobs):
        f.check('embedded-vptr-is-live-class')
    virtual_unit(ctx, 'plain').check('embedded-vptr-virtual-inheritance')
