"""D03: the not-implemented and ambiguous handlers of methods."""
from vlib import *
import flow, shapes

REGS = ['handled', 'checked', 'plain', 'checked_indirect']
HAS = {'handled', 'checked', 'checked_indirect'}
FNS = [('fn_not_implemented', 'no_overrider', 'rec_no_overrider'), ('fn_ambiguous', 'ambiguous_call', 'rec_ambiguous')]


def dyn(k, i):
    return {'v': 'dyn_type<X%d>(a%d)', 'l': 'dyn_type<X%d>(a%d)', 'r': 'dyn_type<X%d>(a%d)', 'q': 'dyn_type<X%d>(*a%d)',
            'f': 'dyn_type<F%d>(a%d)', 'p': 'dyn_type<X%d>(*a%d.obj)', 'c': 'dyn_type<X%d>(*a%d.obj)',
            's': 'dyn_type<X%d>(*a%d.obj.p)', 'k': 'dyn_type<X%d>(*a%d.obj.p)'}[k] % (i, i)


def unit(ctx, name, jobs):
    code = shapes.PRELUDE + shapes.classes(max(len(j[0]) for j in jobs))
    for j, (w, reg, ret) in enumerate(jobs):
        sh = shapes.Shape(w)
        code += 'struct id%d; using M%d = method<id%d, %s(%s), %s>;\n' % (j, j, j, ret, sh.sig(reg), reg)
        decl = sh.decl.replace(', Reg>', ', %s>' % reg)
        for fn, err, rec in FNS:
            tag = '%s_%s_%s' % (fn, w, reg)
            code += 'extern "C" %s probe_%s(%s) { %sM%d::%s(%s); }\n' % (ret, tag, decl, '' if ret == 'void' else 'return ', j, fn, sh.args())
            body = ''
            if reg in HAS:
                body += '%s e; e.method = &tid<M%d>::id; e.arity = %d; ' % (err, j, len(sh.virt))
                for n, i in enumerate(sh.virt[:16]):
                    body += 'e.types[%d] = %s; ' % (n, dyn(w[i], i))
                body += '%s(e.method, e.arity, e.types); ' % rec
            code += 'static %s spec%s%d(%s) { %sabort(); }\n' % (ret, fn, j, decl, body)
            code += 'extern "C" %s ref_%s(%s) { %sspec%s%d(%s); }\n' % (ret, tag, decl, '' if ret == 'void' else 'return ', fn, j, sh.args())
    return flow.Flow(ctx, name, code, distinct=True)


def run(ctx):
    ctx.explanation.append(
        'The two error functions that every method registers are normalised to gated value graphs for each enumerated '
        'method shape: with an error handler, exactly one report carrying the method\'s type id, the number of virtual '
        'parameters and the dynamic type of each virtual argument in order (the first 16), then abort; without one, '
        'abort. No path returns.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'reference arguments denote distinct objects']
    ws = shapes.thorough_shapes() if ctx.thorough else shapes.quick_shapes()
    ws = ws + ['k', 'kv', 'v' * 16, 'v' * 17, 'n' + 'v' * 16 + 'n', 'nv' * 17, 'p' * 18, 'n' * 17 + 'v', 'vn' * 9 + 'p']
    ws = list(dict.fromkeys(ws))
    jobs = []
    for i, w in enumerate(ws):
        for j, r in enumerate(REGS):
            if ctx.thorough or j == 0 or (i + j) % 4 == 0:
                jobs.append((w, r, ['int', 'void', 'Big'][(i + j) % 3]))
    n = 8 * (3 if ctx.thorough else 1)
    fl = parallel(lambda kc: unit(ctx, 'd03_%d' % kc[0], kc[1]), [(i, jobs[i::n]) for i in range(n) if jobs[i::n]])
    for f in fl:
        f.check('unresolved-call')
