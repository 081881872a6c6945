"""D01: the overrider a call selects, as a value graph over the v-tables of the
virtual arguments, compared with the documented address computation."""
from vlib import *
import flow, shapes

RETS = ['int', 'void', 'X0&', 'Big', 'Mover']


def spec(sh, reg, ret, m):
    n = len(sh.virt)
    l = ['auto ss = %s::fn.slots_strides;' % m]
    if n == 1:
        l.append('auto pf = %s[ss[0]].pf;' % sh.vtbl[sh.virt[0]])
    else:
        l.append('const word* p = %s[ss[0]].pw;' % sh.vtbl[sh.virt[0]])
        for k, i in enumerate(sh.virt[1:], 1):
            l.append('p += %s[ss[%d]].i * ss[%d];' % (sh.vtbl[i], k, n + k - 1))
        l.append('auto pf = p->pf;')
    l.append('return ((%s (*)(%s)) pf)(%s);' % (ret, sh.sig(reg, sh.types), sh.args()))
    return ' '.join(l)


def unit(ctx, name, jobs):
    code = shapes.PRELUDE + shapes.classes(max(len(j[0]) for j in jobs))
    for k, (w, reg, ret) in enumerate(jobs):
        sh = shapes.Shape(w)
        m = 'M%d' % k
        code += 'struct id%d; using %s = method<id%d, %s(%s), %s>;\n' % (k, m, k, ret, sh.sig(reg), reg)
        decl = sh.decl.replace(', Reg>', ', %s>' % reg)
        tag = '%s_%s_%s' % (w, reg, ret.replace('&', 'ref'))
        code += 'extern "C" %s probe_%s(%s) { return %s::fn(%s); }\n' % (ret, tag, decl, m, sh.args())
        code += 'extern "C" %s ref_%s(%s) { %s }\n' % (ret, tag, decl, spec(sh, reg, ret, m))
    return flow.Flow(ctx, name, code, distinct=True)


def run(ctx):
    ctx.explanation.append(
        'Each method shape (kinds and positions of parameters, registry, return type) is instantiated; the call '
        'operator is inlined and normalised to a gated value graph and must equal the graph of slots[0] -> word, '
        'then + vtbl[slot[k]].i * stride[k-1] for every further virtual parameter, followed by exactly one indirect '
        'call with the arguments in order.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'probe policies are opaque and have no side effects',
                        'reference arguments denote distinct objects that are not part of the tables']
    jobs = []
    ws = shapes.thorough_shapes() if ctx.thorough else shapes.quick_shapes()
    for i, w in enumerate(ws):
        jobs.append((w, 'plain', RETS[i % len(RETS)]))
        if ctx.thorough or len(w) <= 3 and i % 2 == 0 or len(w) > 3:
            jobs.append((w, 'indirect', 'int'))
        if ctx.thorough:
            jobs += [(w, 'plain', r) for r in RETS if r != RETS[i % len(RETS)]]
    jobs = [(w, r, t.replace('X0&', 'Big&')) for w, r, t in dict.fromkeys(jobs)]
    chunks = [jobs[i::8 * (4 if ctx.thorough else 1)] for i in range(8 * (4 if ctx.thorough else 1))]
    fl = parallel(lambda kc: unit(ctx, 'd01_%d' % kc[0], kc[1]), list(enumerate(c for c in chunks if c)))
    for f in fl:
        f.check('call-dispatch')
