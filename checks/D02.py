"""D02: what an overrider receives, for each combination of parameter kinds and
adjustments, as value graphs of the thunks."""
from vlib import *
import flow, shapes, itertools

RETS = [('int', 'int'), ('void', 'void'), ('X0&', 'D0&'), ('Big', 'Big'), ('Mover', 'Mover'), ('X1*', 'D1*')]


def target(k, i, conv):
    c = ('F%d' if conv == 'X' else 'G%d') % i if k == 'f' else '%s%d' % (conv, i)
    src = ('F%d' if k == 'f' else 'X%d') % i
    return src, c


def conv_expr(k, i, conv, reg):
    """(overrider parameter type, statements, argument expression)"""
    a = 'a%d' % i
    src, c = target(k, i, conv)

    def ref(cv, e):
        if conv == 'V' and k != 'f':
            return '(*(%s%s*) dyn_cast<%s>(std::addressof(%s)))' % (cv, c, c, e)
        return 'static_cast<%s%s&>(%s)' % (cv, c, e)
    if k in 'vf':
        return 'const %s&' % c, '', ref('const ', a)
    if k == 'l':
        return c + '&', '', ref('', a)
    if k == 'r':
        return c + '&&', '', 'std::move(%s)' % ref('', a)
    if k == 'q':
        return 'const %s*' % c, '', ('dynamic_cast<const %s*>(%s)' if conv == 'V' else 'static_cast<const %s*>(%s)') % (c, a)
    if k in 'pc':
        t = 'virtual_ptr<%s, %s>' % (c, reg)
        mk = '[&]{ %s r; r.obj = &%s; r.vp = %s.vp; return r; }()' % (t, ref('', '*%s.obj' % a), a)
        if k == 'p':
            return t, '', mk
        return 'const %s&' % t, '', mk
    if k in 'sk':
        t = 'virtual_ptr<sp<%s>, %s>' % (c, reg)
        if k == 's':
            # the one reference is handed over
            mk = '[&]{ %s r; r.obj.p = &%s; r.vp = %s.vp; %s.obj.p = nullptr; return r; }()' % (t, ref('', '*%s.obj.p' % a), a, a)
            return t, '', mk
        mk = '[&]{ %s r; r.obj.p = &%s; r.vp = %s.vp; hook_addref(r.obj.p); return r; }()' % (t, ref('', '*%s.obj.p' % a), a)
        return 'const %s&' % t, '', mk
    t = shapes.sub(shapes.KINDS[k][1], i)
    return t, '', ('std::move(%s)' if k in 'moi' else '%s') % a


def unit(ctx, name, jobs):
    n = max(len(j[0]) for j in jobs)
    code = shapes.PRELUDE + shapes.classes(max(n, 2))
    for j, (w, convs, reg, ret) in enumerate(jobs):
        sh = shapes.Shape(w)
        cv = iter(convs)
        parts = [conv_expr(k, i, next(cv) if k in shapes.VIRT else None, reg) for i, k in enumerate(w)]
        code += 'struct id%d; using M%d = method<id%d, %s(%s), %s>;\n' % (j, j, j, ret[0], sh.sig(reg), reg)
        code += '%s ov%d(%s);\n' % (ret[1], j, ', '.join(p[0] for p in parts))
        decl = sh.decl.replace(', Reg>', ', %s>' % reg)
        tag = '%s_%s_%s_%s' % (w, convs, reg, ret[1].replace('&', 'ref').replace('*', 'ptr'))
        # by-value parameters of class type with a destructor are passed by the
        # caller: the probe takes references and lets the call copy nothing
        code += ('extern "C" %s probe_%s(%s) { return M%d::thunk<ov%d, decltype(&ov%d)>::fn(%s); }\n'
                 % (ret[0], tag, decl, j, j, j, sh.args()))
        code += ('static %s spec%d(%s) { return ov%d(%s); }\n' % (ret[0], j, decl, j, ', '.join(p[2] for p in parts)))
        code += 'extern "C" %s ref_%s(%s) { return spec%d(%s); }\n' % (ret[0], tag, decl, j, sh.args())
    return flow.Flow(ctx, name, code, distinct=True)


def jobs_of(ctx):
    ws = []
    for k in 'vlrqfpcsk':
        for c in 'XDV':
            if k == 'f' and c == 'V':
                continue
            ws.append((k, c))
    for w, n in (('vpn', 3), ('csv', 2), ('rmo', 3), ('kpg', 2)) if not ctx.thorough else (('vpnc', 4), ('csvk', 3), ('rmoq', 3), ('kpgi', 3), ('vlfs', 3)):
        for x in shapes.words(w, n):
            nv = sum(c in shapes.VIRT for c in x)
            if not nv or len(x) < 2:
                continue
            cs = [''.join(c) for c in itertools.product('XDV', repeat=nv)]
            cs = [c for c in cs if not any(k == 'f' and d == 'V' for k, d in zip([k for k in x if k in shapes.VIRT], c))]
            ws += [(x, c) for c in cs] if ctx.thorough else [(x, cs[len(ws) % len(cs)]), (x, cs[(7 * len(ws) + 3) % len(cs)])]
    for k in 'ndmobegih':
        ws += [('v' + k, 'D'), (k + 'p', 'V'), (k + 'v' + k, 'X')]
    ws += [('npnvnfnsbo', 'DVGX'.replace('G', 'D')), ('vpclrq', 'DVDVDV'), ('pppp', 'XDVD')]
    out = []
    for i, (w, c) in enumerate(dict.fromkeys(ws)):
        out.append((w, c, 'plain', RETS[i % len(RETS)]))
        if ctx.thorough or i % 3 == 0:
            out.append((w, c, 'indirect', RETS[(i + 1) % len(RETS)]))
    return out


def run(ctx):
    ctx.explanation.append(
        'For every enumerated combination of parameter kinds and of adjustments of the virtual parameters (same class, '
        'non-leading base, virtual base), the thunk is normalised to a gated value graph, which must be one call of the '
        'overrider with each virtual argument denoting the same object adjusted to the overrider\'s class and the same '
        'v-table pointer, each other argument unaltered, references to smart pointers balanced, and the result returned.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'reference arguments denote distinct objects']
    jobs = jobs_of(ctx)
    n = 8 * (4 if ctx.thorough else 1)
    fl = parallel(lambda kc: unit(ctx, 'd02_%d' % kc[0], kc[1]), [(i, jobs[i::n]) for i in range(n) if jobs[i::n]])
    for f in fl:
        f.check('overrider-call')
