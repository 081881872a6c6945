"""D04: the checks of the runtime_checks policy, and their absence without it."""
from vlib import *
import flow, vptrs, shapes
import V01, D01

CHECKED = ['ev_checked', 'ev_quiet', 'ev_indirect']
UNCHECKED = ['ev_plain', 'ev_handled']


def call_unit(ctx, name, jobs):
    code = shapes.PRELUDE + shapes.classes(max(len(j[0]) for j in jobs))
    for k, (w, reg, ret) in enumerate(jobs):
        sh = shapes.Shape(w)
        m = 'M%d' % k
        code += 'struct id%d; using %s = method<id%d, %s(%s), %s>;\n' % (k, m, k, ret, sh.sig(reg), reg)
        decl = sh.decl.replace(', Reg>', ', %s>' % reg)
        tag = '%s_%s_%s' % (w, reg, ret.replace('&', 'ref'))
        chk = ''
        if 'checked' in reg or reg in CHECKED:
            chk = 'if (!%s::initialized) { %sabort(); } ' % (reg, 'rec_not_initialized(); ' if 'quiet' not in reg else '')
        sp = D01.spec(sh, reg, ret, m)
        if reg.startswith('ev_'):
            sp = sp.replace('dyn_vptr', 'hook_vptr')
        code += 'extern "C" %s probe_%s(%s) { return %s::fn(%s); }\n' % (ret, tag, decl, m, sh.args())
        code += 'static %s spec%d(%s) { %s%s }\n' % (ret, k, decl, chk, sp)
        code += 'extern "C" %s ref_%s(%s) { return spec%d(%s); }\n' % (ret, tag, decl, k, sh.args())
    return flow.Flow(ctx, name, code, distinct=True, derefs=True)


def run(ctx):
    ctx.explanation.append(
        'For registries with the runtime_checks policy (with and without an error handler, with and without '
        'indirection) every operation that makes a virtual_ptr and every enumerated method call is normalised to a '
        'gated value graph that must equal: if not initialized, report once and abort, touching nothing; then, for the '
        'final forms, if the dynamic type differs from the static one, report both and abort; then the unchecked '
        'operation. For registries without the policy the graph must contain no check at all.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'probe policies are opaque and have no side effects']
    ops = [o for o in vptrs.raw_ops() + vptrs.smart_ops()]
    regs = CHECKED + UNCHECKED
    V01.run_ops(ctx, 'virtual-ptr-checks', ops, regs, flags=['-DOMV_UNCOUNTED'])
    ws = shapes.thorough_shapes() if ctx.thorough else shapes.quick_shapes()
    jobs = []
    for i, w in enumerate(ws):
        one = sum(c in shapes.VIRT for c in w) == 1
        ret = D01.RETS[i % len(D01.RETS)].replace('X0&', 'Big&')
        regs = (CHECKED + UNCHECKED) if one else ['checked', 'checked_quiet', 'checked_indirect', 'handled']
        jobs += [(w, r, ret) for j, r in enumerate(regs) if ctx.thorough or len(w) < 3 or (i + j) % len(regs) < 2]
    n = 8 * (4 if ctx.thorough else 1)
    fl = parallel(lambda k: call_unit(ctx, 'd04_call%d' % k, jobs[k::n]), list(range(n)))
    for f in fl:
        f.check('call-checks')
