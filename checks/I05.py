"""I05: errors that initialization detects."""
from vlib import *
import initp, itertools

PRE = r'''
#include "probe.hpp"
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
using namespace omv;
extern "C" { void omv_rec_missing_class(type_id); void omv_rec_missing_base(type_id base, type_id derived); void omv_rec_other(); }
struct recorder : bom::policies::error_handler {
    template<class Registry> struct fn {
        static void error(const bom::missing_class& e) { omv_rec_missing_class(e.type); }
        static void error(const bom::missing_base& e) { omv_rec_missing_base(e.base, e.derived); }
        static void error(const bom::openmethod_error&) { omv_rec_other(); }
    };
};
using R = bom::registry<omv::rtti, recorder>;
using Q = bom::registry<omv::rtti>;
using bom::detail::method_info; using bom::detail::overrider_info; using bom::detail::class_info;
typedef void (*fp)();
using cls = bom::detail::generic_compiler::class_;
extern "C" { extern type_id T[16]; extern fp PF[8]; extern cls K[10]; }
extern "C" __attribute__((const, nothrow)) bool omv_in(const void* set, const void* key);
inline std::size_t key(int i) { return type_index(T[i]); }
// the type ids of an instance identify distinct classes
inline bool distinct(int n) {
    bool r = type_index(Q::rtti::template static_type<void>()) != key(0);
    for (int i = 0; i < n; ++i) {
        r &= type_index(Q::rtti::template static_type<void>()) != key(i);
        for (int j = i + 1; j < n; ++j) r &= key(i) != key(j);
    }
    return r;
}
template<class X> inline void blank(X& x) { __builtin_memset(static_cast<void*>(&x), 0, sizeof(x)); }
'''

# a method of some arity, whose parameters are of classes 0.., and its overriders


def setup(reg, mp, ovs, ret, orets, missing):
    """types: parameter p is of class mp[p]; overrider k's parameter p is of class ovs[k][p]"""
    arity = len(mp)
    n = 1 + max(mp + [c for o in ovs for c in o] + [r for r in [ret] + orets if r is not None])
    s = 'using C = %s::compiler<>; if (!distinct(%d)) return -1;\n C comp;\n' % (reg, n)
    for i in range(n):
        s += ' K[%d].type_ids.clear(); K[%d].type_ids.push_back(T[%d]); K[%d].used_by_vp.clear();' % (i, i, i, i)
        if i != missing:
            s += ' comp.class_map[key(%d)] = &K[%d];' % (i, i)
        s += '\n'
    s += ' blank(%s::methods); method_info m; blank(m); type_id mv[] = {%s}; m.vp_begin = mv; m.vp_end = mv + %d; m.return_type_id = %s;\n' % (
        reg, ', '.join('T[%d]' % i for i in mp), arity, 'Q::rtti::template static_type<void>()' if ret is None else 'T[%d]' % ret)
    s += ' m.not_implemented = PF[6]; m.ambiguous = PF[7];\n'
    for k, o in enumerate(ovs):
        s += (' alignas(overrider_info) unsigned char ob%d[sizeof(overrider_info)]; blank(ob%d); auto& o%d = *reinterpret_cast<overrider_info*>(ob%d);'
              ' type_id ov%d[] = {%s}; o%d.method = &m; o%d.vp_begin = ov%d; o%d.vp_end = ov%d + %d; o%d.return_type = %s; o%d.pf = PF[%d]; m.overriders.push_back(o%d);\n' % (
                  k, k, k, k, k, ', '.join('T[%d]' % c for c in o), k, k, k, k, k, arity, k, 'T[%d]' % orets[k] if orets[k] is not None else 'm.return_type_id', k, k, k))
    s += ' %s::methods.push_back(m);\n auto in = [&](int b, int d) { return omv_in(&K[b].transitive_derived, &K[d]); };\n' % reg
    return s


def run(ctx):
    ctx.explanation.append(
        'compiler::augment_methods is compiled for methods and overriders of constant arity and number with unknown, '
        'distinct types and an unknown inheritance relation, over bounded models of the containers. For each class that '
        'may be missing, and each overrider parameter that may not be derived from the method\'s, the events must be: '
        'the error with those types, then abort; otherwise none, and the method and overriders refer to their classes. '
        'The same for a listed base that is not registered, in augment_classes.')
    ctx.assumptions += ['only one class is missing or unrelated at a time', 'clang 18 preserves semantics']
    jobs, listed = [], []

    def add(tag, probe, ref, to=jobs):
        to.append('extern "C" int probe_%s() { %s }\nextern "C" int ref_%s() { %s }\n' % (tag, probe, tag, ref))
    shapes = [([0, 0], [[0, 1], [2, 0]], None, [None, None]), (1, [], None, []), (1, [[0]], None, [None]), (1, [[1], [2]], None, [None, None]), (2, [[2, 1]], None, [None]), (2, [[0, 2], [3, 1]], None, [None, None]),
              (2, [[2, 3], [4, 5]], None, [None, None]), (1, [[1]], 2, [2]), (1, [[1], [1]], 2, [2, 3]), (2, [[2, 3]], 4, [5]), (1, [[1]], 0, [1])]
    if ctx.thorough:
        shapes += [(3, [[3, 4, 5]], None, [None]), (2, [[2, 3], [4, 1], [0, 5]], None, [None] * 3), (3, [[3, 4, 5], [0, 1, 6]], 7, [7, 8])]
    for n, (mp, ovs, ret, orets) in enumerate(shapes):
        mp = list(range(mp)) if isinstance(mp, int) else mp
        arity = len(mp)
        used = set(mp) | {c for o in ovs for c in o} | {r for r in orets if r is not None}
        for reg in ('R', 'Q'):
            loud = reg == 'R'
            # a class is missing; if it is the method's return type, there is nothing covariant
            for c in sorted(used):
                if c == ret:
                    continue
                add('missing_class_%d_%d_%s' % (n, c, reg), setup(reg, mp, ovs, ret, orets, c) + ' comp.augment_methods(); return 0;',
                    'if (!distinct(%d)) return -1; ' % (1 + max(used | {ret or 0})) + ('omv_rec_missing_class(T[%d]); ' % c if loud else '') + 'abort();')
            # an overrider's class is not derived from the method's
            pairs = sorted({(mp[p], o[p]) for o in ovs for p in range(arity) if o[p] != mp[p]})
            ass = ['in(%d, %d)' % x for x in pairs]
            base = setup(reg, mp, ovs, ret, orets, None)
            for i, (b, d) in enumerate(pairs):
                others = ' && '.join(ass[:i] + ass[i + 1:]) or 'true'
                add('missing_base_%d_%d_%s' % (n, i, reg),
                    base + ' if (!(%s)) return -1; bool ok = in(%d, %d); comp.augment_methods(); return ok;' % (others, b, d),
                    base + ' if (!(%s)) return -1; if (!in(%d, %d)) { %sabort(); } return 1;' % (
                        others, b, d, 'omv_rec_missing_base(T[%d], T[%d]); ' % (b, d) if loud else ''))
        # nothing is missing
        checks = ['comp.methods.size() == 1', 'q.info == &m', 'q.not_implemented.pf == PF[6]', 'q.ambiguous.pf == PF[7]',
                  'q.overriders.size() == %d' % len(ovs), 'q.vp.size() == %d' % arity, 'q.slots.size() == %d' % arity,
                  'q.covariant_return_type == %s' % ('nullptr' if ret is None else '&K[%d]' % ret)]
        checks += ['q.vp[%d] == &K[%d]' % (p, c) for p, c in enumerate(mp)]
        for k, o in enumerate(ovs):
            checks += ['q.overriders[%d].info == &o%d' % (k, k), 'q.overriders[%d].pf == PF[%d]' % (k, k), 'q.overriders[%d].vp.size() == %d' % (k, arity)]
            checks += ['q.overriders[%d].vp[%d] == &K[%d]' % (k, p, c) for p, c in enumerate(o)]
            if ret is not None:
                checks += ['q.overriders[%d].covariant_return_type == &K[%d]' % (k, orets[k])]
        for c in sorted(set(mp)):
            ps = [p for p in range(arity) if mp[p] == c]
            checks += ['K[%d].used_by_vp.size() == %d' % (c, len(ps))]
            for i, p in enumerate(ps):
                checks += ['K[%d].used_by_vp[%d].method == &q' % (c, i), 'K[%d].used_by_vp[%d].param == %d' % (c, i, p)]
        ok = ' && '.join(ass) or 'true'
        add('complete_%d' % n, setup('R', mp, ovs, ret, orets, None) + ' if (!(%s)) return -1; comp.augment_methods(); auto& q = comp.methods[0]; return %s;' % (ok, ' && '.join(checks)),
            setup('R', mp, ovs, ret, orets, None) + ' if (!(%s)) return -1; return 1;' % ok)
        if ret is not None and ret not in used - {r for r in orets if r is not None}:
            o2 = [None if r is None else r for r in orets]
            add('uncovariant_%d' % n, setup('R', mp, ovs, ret, o2, ret) + ' if (!(%s)) return -1; comp.augment_methods(); auto& q = comp.methods[0]; return q.covariant_return_type == nullptr;' % ok,
                setup('R', mp, ovs, ret, o2, ret) + ' if (!(%s)) return -1; return 1;' % ok)
    # a listed base is not registered
    lists = [(1, [[1]]), (1, [[0, 1]]), (2, [[0, 1, 2], [1]]), (2, [[2], [0, 2]]), (3, [[1], [2, 3], []]), (2, [[0], [3, 1]])]
    for n, (nc, bases) in enumerate(lists):
        miss = [b for bs in bases for b in bs if b >= nc][0]
        for reg in ('R', 'Q'):
            p = 'using C = %s::compiler<>; if (!distinct(4)) return -1; blank(%s::classes); C comp;\n' % (reg, reg)
            for k in range(nc):
                bs = bases[k] if k < len(bases) else []
                p += (' alignas(class_info) unsigned char cb%d[sizeof(class_info)]; blank(cb%d); auto& c%d = *reinterpret_cast<class_info*>(cb%d);'
                      ' type_id b%d[] = {%s}; c%d.type = T[%d]; c%d.first_base = b%d; c%d.last_base = b%d + %d; %s::classes.push_back(c%d);\n' % (
                          k, k, k, k, k, ', '.join('T[%d]' % b for b in bs) or 'T[0]', k, k, k, k, k, k, len(bs), reg, k))
            add('missing_listed_%d_%s' % (n, reg), p + ' comp.augment_classes(); return 0;',
                'if (!distinct(4)) return -1; ' + ('omv_rec_missing_class(T[%d]); ' % miss if reg == 'R' else '') + 'abort();', listed)
    n = 8
    units = [('i05_%d' % k, jobs[k::n], 2) for k in range(n)] + [('i05_l%d' % k, listed[k::3], 0) for k in range(3)]
    for f in parallel(lambda u: initp.unit(ctx, u[0], PRE + ''.join(u[1]), prelude=False, opaque=u[2], cap=10, project=True, lists=True), units):
        f.check('missing')
