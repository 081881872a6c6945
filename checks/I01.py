"""I01: the relation between overriders that decides which one is called."""
from vlib import *
import initp


def run(ctx):
    ctx.explanation.append(
        'compiler::is_more_specific is compiled for overriders of every arity up to the bound, whose classes are unknown '
        'pointers and whose inheritance is an unknown relation (membership in transitive_derived is an uninterpreted '
        'predicate); the loop over the parameters unrolls and the resulting value graph must be the definition: some '
        'parameter is properly derived, and none the other way round. Both orders of evaluation of the relation, and '
        'every tuple of equal, derived, base and unrelated classes are covered by the normal form.')
    ctx.assumptions += ['inheritance is reflexive and antisymmetric (I04)', 'membership has no side effect',
                        'clang 18 -O2 preserves semantics']
    top = 5 if ctx.thorough else 4
    code = ''
    for n in range(1, top + 1):
        ps = ', '.join('cls* a%d, cls* b%d' % (i, i) for i in range(n))
        guard = ''.join('if (!sane(a%d, b%d)) return false; ' % (i, i) for i in range(n))
        mk = 'ov A, B; A.vp = {%s}; B.vp = {%s}; ' % tuple(', '.join(x + str(i) for i in range(n)) for x in 'ab')
        for opt, c in (('', 'C'), ('_n2216', 'comp_of<bom::n2216>')):
            if opt and not ctx.thorough and n > 2:
                continue
            cc = c if not opt else c
            mk2 = mk
            call = '%s::is_more_specific(&A, &B)' % cc
            code += ('extern "C" bool probe_arity_%d%s(%s) { %s%sreturn %s; }\n' % (n, opt, ps, guard, mk2, call) +
                     'extern "C" bool ref_arity_%d%s(%s) { %s%sreturn more_specific(&A, &B, %d); }\n' % (n, opt, ps, guard, mk2, n))
    initp.unit(ctx, 'i01', code, opaque=True, cap=8).check('dominance')
