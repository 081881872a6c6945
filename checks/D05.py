"""D05: has_next and next of an overrider."""
from vlib import *
import flow, shapes

REGS = ['plain', 'indirect', 'checked', 'handled']
RETS = ['int', 'void', 'Big', 'Big&', 'Mover']


def unit(ctx, name, jobs):
    code = shapes.PRELUDE + shapes.classes(max(len(j[0]) for j in jobs))
    for j, (w, reg, ret) in enumerate(jobs):
        sh = shapes.Shape(w)
        sig = sh.sig(reg, sh.types)
        code += 'struct id%d; using M%d = method<id%d, %s(%s), %s>;\n' % (j, j, j, ret, sh.sig(reg), reg)
        code += 'struct other%d; using O%d = method<other%d, %s(%s), %s>;\n' % (j, j, j, ret, sh.sig(reg), reg)
        for f in 'fg':
            code += '%s %s%d(%s);\n' % (ret, f, j, sig)
        decl = sh.decl.replace(', Reg>', ', %s>' % reg)
        tag = '%s_%s_%s' % (w, reg, ret.replace('&', 'ref'))
        for f in 'fg':
            code += ('extern "C" bool probe_has_%s_%s() { return M%d::has_next<%s%d>(); }\n' % (f, tag, j, f, j) +
                     'extern "C" bool ref_has_%s_%s() { return M%d::next<%s%d> != M%d::fn_not_implemented && M%d::next<%s%d> != M%d::fn_ambiguous; }\n'
                     % (f, tag, j, f, j, j, j, f, j, j))
        code += ('extern "C" %s probe_next_%s(%s) { return M%d::next<f%d>(%s); }\n' % (ret, tag, decl, j, j, sh.args()) +
                 'extern "C" %s ref_next_%s(%s) { return (*(%s (**)(%s)) (void*) &M%d::next<f%d>)(%s); }\n' % (ret, tag, decl, ret, sig, j, j, sh.args()))
        code += ('extern "C" bool probe_own_%s() { return (void*) &M%d::next<f%d> == (void*) &M%d::next<g%d> || '
                 '(void*) &M%d::next<f%d> == (void*) &O%d::next<f%d> || (void*) M%d::fn_not_implemented == (void*) M%d::fn_ambiguous || '
                 '(void*) M%d::fn_not_implemented == (void*) O%d::fn_not_implemented; }\n'
                 'extern "C" bool ref_own_%s() { return false; }\n') % (tag, j, j, j, j, j, j, j, j, j, j, j, j, tag)
    return flow.Flow(ctx, name, code, distinct=True)


def run(ctx):
    ctx.explanation.append(
        'has_next is normalised for every enumerated method shape and must be the truth of: next is neither the '
        'method\'s not-implemented nor its ambiguous handler, the very functions that the method registers (R02). '
        'Calls through next, and the distinctness of the next pointers of different overriders and methods, are decided '
        'likewise. That initialization stores the right function through the registered address is decided by I02.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics']
    ws = shapes.thorough_shapes() if ctx.thorough else shapes.quick_shapes()
    jobs = []
    for i, w in enumerate(ws):
        for j, r in enumerate(REGS):
            if ctx.thorough or i % 4 == j:
                jobs.append((w, r, RETS[(i // 4 + j) % len(RETS)]))
    n = 8 * (3 if ctx.thorough else 1)
    for f in parallel(lambda k: unit(ctx, 'd05_%d' % k, jobs[k::n]), list(range(n))):
        f.check('has-next')
