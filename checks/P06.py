"""P06: fast_perfect_hash is a fixed collision-free function on registered type ids."""
from vlib import *
import initp, itertools
import P05

PRE = P05.PRE.replace('#include <boost/openmethod/policies/vptr_vector.hpp>', '#include <boost/openmethod/policies/fast_perfect_hash.hpp>\n#include <boost/openmethod/policies/vptr_vector.hpp>') \
    .replace('struct recorder', '''extern "C" { void omv_rec_missing_x() noexcept; void omv_rec_search() noexcept; }
struct reporter : bom::policies::error_handler {
    template<class Registry> struct fn {
        static void error(const bom::missing_class& e) { if (e.type == id(NX)) omv_rec_missing_x(); else omv_rec_other(); }
        static void error(const bom::policies::fast_perfect_hash::search_error&) { omv_rec_search(); }
        static void error(const bom::openmethod_error&) { omv_rec_other(); }
    };
};
template<class... X> using fast = bom::registry<types, bom::policies::fast_perfect_hash, X...>;
template<class R> using hasher = typename R::template policy<bom::policies::type_hash>;
struct recorder''', 1)


def run(ctx):
    ctx.explanation.append(
        'fast_perfect_hash::initialize is compiled for contexts of a constant number of unknown type ids, with the random '
        'numbers unknown (a function of the seed and of their rank), the control table replaced by a model of a vector of '
        'unknown size, and the search bounded to two attempts per pass. Whenever it returns, the hashes that hash() then '
        'computes are pairwise distinct and within the reported bounds; a second initialization gives the same; with '
        'runtime_checks hash() accepts the registered ids, and reports missing_class and aborts for any other; otherwise '
        'initialize reports search_error and aborts. Accesses out of bounds of the table, and any call (to clocks, random '
        'devices...) that is not one of those, are violations.')
    ctx.assumptions += ['type ids are distinct numbers less than 2^32', 'an attempt does not depend on the number of the previous ones', 'clang 18 preserves semantics']
    quiet = {('abort',)}
    units = []
    for reg, chk, rep in (('fast<>', 0, 0), ('fast<checks>', 1, 0), ('fast<reporter>', 0, 1), ('fast<checks, reporter>', 1, 1)):
        search = ('omv_rec_search', 'abort') if rep else ('abort',)
        tag = '%s%s' % ('checked_' if chk else '', 'reported_' if rep else '')
        jobs = []
        for sh in [[1], [1, 1]] + ([] if chk and rep else [[2, 1]]) + ([[1, 1, 1, 1]] if ctx.thorough else []):
            it = iter(range(9))
            cl = [(c, [next(it) for _ in range(k)]) for c, k in enumerate(sh)]
            total = sum(sh)
            names = '_'.join(map(str, sh))
            assume = ''.join(' if (N%d == N%d) return true;' % x for x in itertools.combinations(range(total), 2))
            head = 'using R = %s; using H = hasher<R>;%s H::finalize(none); %s auto b = H::initialize(c, none); ' % (reg, assume, P05.ctxt('c', cl))
            h = ['H::hash(id(N%d))' % i for i in range(total)]
            for x in itertools.combinations(range(total), 2):
                jobs.append(('distinct_%d_%d' % x, names, head + 'return %s != %s;' % (h[x[0]], h[x[1]]), search))
            for i in range(total if total < 3 else 0):
                jobs.append(('least_%d' % i, names, head + 'return b.first <= %s;' % h[i], search))
                jobs.append(('greatest_%d' % i, names, head + 'return %s <= b.second;' % h[i], search))
            jobs.append(('again', names, head + 'auto h = %s; auto d = H::initialize(c, none); return h == %s && b == d;' % (h[-1], h[-1]), search))
            if chk:
                jobs.append(('unknown', names, ''.join(' if (N%d == NX) return true;' % x for x in range(total)) + head + '%s; H::hash(id(NX)); return false;' % '; '.join(h), search))
        for what, names, body, allowed in jobs:
            units.append((tag + what + '_' + names, body, allowed, what == 'unknown' and rep))
    for f, al in parallel(lambda u: (initp.unit(ctx, 'p06_' + u[0], PRE + 'extern "C" bool probe_%s() { %s }\n' % (u[0], u[1]), prelude=False, cap=8, flags=['-DOMV_TABLES'], project=True, constraints=True, few=1 if 'unknown' in u[0] or u[0].startswith('checked') and u[0].endswith('2_1') else 2), [u[2]] + ([('omv_rec_missing_x', 'abort')] if u[3] else [])), units):
        f.check_holds('perfect-hash', al)
