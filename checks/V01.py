"""V01/V02/V04/D04 share the value-graph probes of the virtual_ptr operations;
this module builds them and decides V01."""
from vlib import *
import flow, vptrs

ZERO = ['_ZN5boost10openmethod6detail9null_vptrE']


def pair(op, reg, extra, k):
    """probe and specification of one operation.  extra selects what is observed:
    'value' (v-table and object), 'place' (stored word), 'source' (moved-from)."""
    ind = 'indirect' in reg
    word = 'const vptr_type*' if ind else 'vptr_type'
    tag = '%s_%s' % (op.name, reg)
    pre = 'using R = %s; using VP = %s; ' % (reg, op.vp)
    args = op.args.replace(', R>', ', %s>' % reg)
    if op.assign:
        args += ', %s w0, void* o0' % word
    smart = op.smart
    objt = 'decltype(h.p.obj.p)' if smart else 'decltype(h.p.obj)'
    prb = pre + 'Hold<VP> h; '
    if op.assign:
        prb += 'h.p.vp = w0; h.p.obj%s = (%s) o0; ' % ('.p' if smart else '', objt)
    prb += op.code + ' '
    if extra == 'place':
        prb += 'out->place = (const void*) h.p.vp; out->o = h.p.get(); '
    else:
        prb += 'out->v = h.p.vptr(); out->o = h.p.get(); '
    if op.src == 's.obj':
        prb += 'out->sv = s.vptr(); out->so = s.get(); '
    elif op.src:
        prb += 'out->so = s.p; '
    w, v = vptrs.spec_value(op, ind)
    sp = pre
    # checks come first
    g0 = 'if (%s) { ' % op.guard if op.guard else ''
    g1 = '} ' if op.guard else ''
    chk = 'checked' in reg or 'quiet' in reg or reg == 'ev_indirect'
    if chk and op.check:
        sp += g0 + 'if (!R::initialized) { %s abort(); } ' % ('rec_not_initialized();' if 'quiet' not in reg else '') + g1
        if op.final:
            c, e = op.final
            sp += 'if (type_index(dyn_type<%s>(%s)) != type_index(&tid<%s>::id)) { %s abort(); } ' % (
                c, e, c, 'rec_final(&tid<%s>::id, dyn_type<%s>(%s));' % (c, c, e) if 'quiet' not in reg else '')
    ev = reg.startswith('ev_')
    place = op.place
    if ev and place and 'dyn_vptr' in place:
        place = place.replace('dyn_vptr', 'hook_vptr')
    sp += 'const volatile void* ob = %s; ' % op.obj
    if op.vp_from:
        sp += '%s w = %s; ' % (word, op.vp_from)
    else:
        val = ('&' if ind else '') + place
        if op.guard:
            sp += '%s w = %s; ' % (word, '&detail::null_vptr' if ind else 'nullptr') + g0 + 'w = %s; ' % val + g1
        else:
            sp += '%s w = %s; ' % (word, val)
    if op.events == 'share':
        sp += 'if (ob) hook_addref(ob); '
    elif op.events == 'share1':
        sp += 'hook_addref(ob); '
    elif op.events == 'cast_take':
        sp += 's.obj.p = nullptr; '
    elif op.events == 'take':
        sp += ('s.obj.p = nullptr; s.vp = %s; ' % ('&detail::null_vptr' if ind else 'nullptr')) if op.src == 's.obj' else 's.p = nullptr; '
    if op.assign and smart:
        sp += 'if (o0) hook_release(o0); '
    if extra == 'place':
        sp += 'out->place = (const void*) w; out->o = ob; '
    else:
        sp += 'out->v = %sw; out->o = ob; ' % ('*' if ind else '')
    if op.src == 's.obj':
        if op.events == 'cast_take':
            sp += 'out->sv = %ss.vp; out->so = nullptr; ' % ('*' if ind else '')
        else:
            sp += 'out->sv = nullptr; out->so = nullptr; '
    elif op.src:
        sp += 'out->so = nullptr; '
    return ('extern "C" void probe_%s(Out* out, %s) { %s}\nextern "C" void ref_%s(Out* out, %s) { %s}\n'
            % (tag, args, prb, tag, args, sp))


def ops_unit(ctx, name, ops, reg, extra='value', **kw):
    code = vptrs.PRE + ''.join(pair(op, reg, extra, i) for i, op in enumerate(ops))
    return flow.Flow(ctx, name, code, distinct=True, zero=ZERO, **kw)


def run_ops(ctx, rule, ops, regs, extra='value', **kw):
    jobs = []
    for reg in regs:
        n = 3 if len(ops) > 40 else 1
        for i in range(n):
            jobs.append((reg, i, ops[i::n]))
    fl = parallel(lambda j: ops_unit(ctx, 'vp_%s_%s_%d_%s' % (rule.replace('-', '_'), j[0], j[1], extra), j[2], j[0], extra, **kw), jobs)
    for f in fl:
        f.check(rule)


def accessors(reg):
    ind = 'indirect' in reg
    star = '*' if ind else ''
    R = reg
    T = []

    def a(name, ret, args, probe, ref):
        args = args.replace(', R>', ', %s>' % R)
        T.append('extern "C" %s probe_%s_%s(%s) { return %s; }\nextern "C" %s ref_%s_%s(%s) { return %s; }\n'
                 % (ret, name, R, args, probe, ret, name, R, args, ref))
    for kind, t, o in (('plain', 'virtual_ptr<X, R>', 's.obj'), ('const', 'virtual_ptr<const X, R>', 's.obj'),
                       ('smart', 'virtual_ptr<sp<X>, R>', 's.obj.p')):
        cx = 'const X' if kind == 'const' else 'X'
        a('get_' + kind, cx + '*', 'const %s& s' % t, 's.get()', o)
        a('arrow_' + kind, cx + '*', 'const %s& s' % t, 's.operator->()', o)
        a('member_' + kind, 'long', 'const %s& s' % t, 's->x', o + '->x')
        a('star_' + kind, cx + '&', 'const %s& s' % t, '*s', '*' + o)
        a('pointer_' + kind, ('const sp<X>&' if kind == 'smart' else cx + '*'), 'const %s& s' % t, 's.pointer()', 's.obj')
        a('vptr_' + kind, 'vptr_type', 'const %s& s' % t, 's.vptr()', star + 's.vp')
        for op, neg in (('==', ''), ('!=', '!')):
            nm = 'eq' if op == '==' else 'ne'
            a('%s_%s' % (nm, kind), 'bool', 'const %s& s, const %s& t' % (t, t), 's %s t' % op, '%s(%s == %s)' % (neg, o, o.replace('s.', 't.')))
    a('eq_mixed', 'bool', 'const virtual_ptr<X, R>& s, const virtual_ptr<D, R>& t', 's == t', 's.obj == (t.obj ? static_cast<X*>(t.obj) : nullptr)')
    a('ne_mixed', 'bool', 'const virtual_ptr<D, R>& s, const virtual_ptr<X, R>& t', 's != t', '(s.obj ? static_cast<X*>(s.obj) : nullptr) != t.obj')
    a('eq_addconst', 'bool', 'const virtual_ptr<X, R>& s, const virtual_ptr<const X, R>& t', 's == t', 's.obj == t.obj')
    return ''.join(T)


def run(ctx):
    ctx.explanation.append(
        'Every operation that makes, assigns, converts or casts a plain or smart virtual_ptr is inlined and normalised '
        'to a gated value graph; the resulting object must be the given one adjusted to the pointed-to class, and the '
        'v-table the one of its dynamic class (final forms: of its static class), or the one carried by the source '
        'virtual_ptr. Accessors and comparisons are normalised likewise.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'probe policies are opaque and have no side effects',
                        'source and destination of an operation are distinct objects']
    regs = ['plain', 'indirect', 'handled']
    run_ops(ctx, 'carries-vtable-of-object', vptrs.raw_ops() + vptrs.smart_ops(), regs)
    fl = parallel(lambda r: flow.Flow(ctx, 'acc_' + r, vptrs.PRE + accessors(r), distinct=True, zero=ZERO), regs)
    for f in fl:
        f.check('accessors')
