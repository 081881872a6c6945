"""I02: what initialization stores in each cell, and as next."""
from vlib import *
import initp, itertools

COMMON = r'''
extern "C" { extern cls K0, K1, K2, K3, Q0, Q1, Q2, Q3; extern bom::detail::overrider_info I0, I1, I2, I3; extern bom::detail::method_info MI; }
using bits = C::bitvec;
using gmap = C::group_map;
enum { NI = 8, AMB = 9, OTHER = 10, NONE = 11 };
template<int N> inline int code(const meth& m, const ov* o) {
    if (o == &m.not_implemented) return NI;
    if (o == &m.ambiguous) return AMB;
    for (int i = 0; i < N; ++i) if (o == &m.overriders[i]) return i;
    return o ? OTHER : NONE;
}
template<int N> inline bool sane_all(cls* const (&k)[N]) {
    bool r = true;
    for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) r &= sane(k[i], k[j]);
    return r;
}
template<int N> inline bool transitive(cls* const (&k)[N]) {
    bool r = true;
    for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c)
        r &= !(derived(k[a], k[b]) && derived(k[b], k[c])) || derived(k[a], k[c]);
    return r;
}
// the specification of the selection among the overriders of a mask
template<int N> inline int undominated(int mask, cls* const (&k)[N]) {
    int live = 0;
    for (int j = 0; j < N; ++j) if (mask >> j & 1) {
        bool dom = false;
        for (int i = 0; i < N; ++i) if (i != j && mask >> i & 1) dom |= proper(k[i], k[j]);
        live |= int(!dom) << j;
    }
    return live;
}
// ... of which the return type is not a base of the return type of another
template<int N> inline int most_covariant(int live, cls* const (&q)[N]) {
    int r = 0;
    for (int i = 0; i < N; ++i) if (live >> i & 1) {
        bool base = false;
        for (int j = 0; j < N; ++j) if (i != j && live >> j & 1) base |= proper(q[j], q[i]);
        r |= int(!base) << i;
    }
    return r;
}
// the overriders that apply whenever another one does: the candidates for its next
template<int N> inline int bases(int mask, int e, cls* const (&k)[N]) {
    int r = 0;
    for (int j = 0; j < N; ++j) if (j == e) for (int i = 0; i < N; ++i) r |= int((mask >> i & 1) && proper(k[j], k[i])) << i;
    return r;
}
// the same for two virtual parameters
template<int N> inline int undominated2(int mask, cls* const (&a)[N], cls* const (&b)[N]) {
    int live = 0;
    for (int j = 0; j < N; ++j) if (mask >> j & 1) {
        bool dom = false;
        for (int i = 0; i < N; ++i) if (i != j && mask >> i & 1) dom |= (proper(a[i], a[j]) || proper(b[i], b[j])) && !proper(a[j], a[i]) && !proper(b[j], b[i]);
        live |= int(!dom) << j;
    }
    return live;
}
template<int N> inline int bases2(int mask, int j, cls* const (&a)[N], cls* const (&b)[N]) {
    int r = 0;
    for (int i = 0; i < N; ++i) if (mask >> i & 1)
        r |= int((a[i] != a[j] || b[i] != b[j]) && (a[i] == a[j] || derived(a[j], a[i])) && (b[i] == b[j] || derived(b[j], b[i]))) << i;
    return r;
}
inline int count(int m) { return (m & 1) + (m >> 1 & 1) + (m >> 2 & 1) + (m >> 3 & 1); }
inline int only(int m) { return m == 1 ? 0 : m == 2 ? 1 : m == 4 ? 2 : m == 8 ? 3 : OTHER; }
inline int cell(int live) { return live == 0 ? NI : count(live) > 1 ? AMB : only(live); }
template<int N> inline void fill(meth& m, cls* const (&k)[N], cls* const (&q)[N], bool cov) {
    bom::detail::overrider_info* const info[] = {&I0, &I1, &I2, &I3};
    m.info = &MI;
    m.overriders.resize(N);
    for (int i = 0; i < N; ++i) {
        auto& o = m.overriders[i];
        for (int d = 0; d < OMV_DIMS; ++d) o.vp.push_back(k[i]);
        o.info = info[i]; o.spec_index = i;
        if (cov) o.covariant_return_type = q[i];
    }
}
template<class Comp> inline void build1(Comp& comp, meth& m, int mask, int n) {
    m.vp.push_back(&K0);
    std::vector<gmap> groups; groups.resize(1);
    groups[0].omv_append(gmap::value_type(bits(n, mask), C::group()));
    bits all(n); all = ~all;
    comp.build_dispatch_table(m, 0, groups.end() - 1, all, true);
}
'''


def one(tag, N, mask, classes, opt):
    """one cell of a method with one virtual parameter"""
    ks, qs = (', '.join('&' + x for x in c) for c in (classes, ['Q%d' % i for i in range(N)]))
    n22 = opt == 'n2216'
    comp = 'comp_of<bom::n2216> comp{bom::n2216()}' if opt else 'C comp'
    head = ('cls* const k[] = {%s}; cls* const q[] = {%s}; if (!sane_all(k)%s) return -1; ' % (ks, qs, ' || !transitive(k)' if N > 3 else '') +
            ('if (!sane_all(q) || !transitive(q)) return -1; ' if n22 else ''))
    p = ('extern "C" int probe_%s() { %s%s; meth m; fill(m, k, q, %d); build1(comp, m, %d, %d);\n'
         ' int e = m.dispatch_table.size() == 1 ? code<%d>(m, m.dispatch_table[0]) : OTHER;\n'
         % (tag, head, comp, n22, mask, N, N))
    r = 'extern "C" int ref_%s() { %s int live = undominated(%d, k);\n' % (tag, head, mask)
    if n22:
        # several may remain: any of them may be picked
        p += (' int live = undominated(%d, k), best = most_covariant(live, q); if (count(best) > 1) return e < %d && (best >> e & 1) && m.report.ambiguous == 1 && !m.report.not_implemented;\n' % (mask, N))
        r += ' int best = most_covariant(live, q); if (count(best) > 1) return 1; live = best;\n'
    elif opt:
        # without covariant return types, any of the undominated may be picked
        p += ' int live = undominated(%d, k); if (count(live) > 1) return e < %d && (live >> e & 1) && m.report.ambiguous == 1 && !m.report.not_implemented;\n' % (mask, N)
        r += ' if (count(live) > 1) return 1;\n'
    p += (' int x = e < %d ? code<%d>(m, m.overriders[e].next) : NONE; if (e < %d) { auto rest = bases(%d, e, k); (void) rest; %s }\n'
          % (N, N, N, mask,
             'int l2 = undominated(rest, k); %s if (count(b2) > 1) x = x < %d && (b2 >> x & 1) ? 12 : 13;'
             % ('int b2 = most_covariant(l2, q);' if n22 else 'int b2 = l2;', N) if opt else '') +
          ' for (int i = 0; i < %d; ++i) if (i != e && m.overriders[i].next) x = 14;\n' % N +
          ' return e | x << 4 | int(m.report.not_implemented) << 8 | int(m.report.ambiguous) << 12 | int(m.report.cells) << 16; }\n')
    r += (' int e = cell(live), x = NONE; if (e < %d) { int l2 = undominated(bases(%d, e, k), k); %s x = %s; }\n' % (
        N, mask, 'int b2 = most_covariant(l2, q);' if n22 else 'int b2 = l2;',
        'count(b2) > 1 ? 12 : cell(b2)' if opt else 'cell(b2)') +
          ' return e | x << 4 | (e == NI) << 8 | (e == AMB) << 12; }\n')
    return p + r


def pair(tag, first, second, mask):
    """one cell of a method with two virtual parameters"""
    N = len(first)
    a, b = (', '.join('&' + x for x in c) for c in (first, second))
    head = ('cls* const a[] = {%s}; cls* const b[] = {%s}; if (!sane_all(a) || !sane_all(b)) return -1; ' % (a, b))
    p = ('extern "C" int probe_%s() { %sC comp; meth m; fill(m, a, a, false); for (int i = 0; i < %d; ++i) m.overriders[i].vp[1] = b[i];\n'
         ' std::vector<gmap> groups; groups.resize(2); m.vp.push_back(&K0); m.vp.push_back(&Q0);\n'
         ' for (int d = 0; d < 2; ++d) groups[d].omv_append(gmap::value_type(bits(%d, %d), C::group()));\n'
         ' bits all(%d); all = ~all; comp.build_dispatch_table(m, 1, groups.end() - 1, all, true);\n'
         ' if (m.dispatch_table.size() != 1) return OTHER;\n'
         ' int e = code<%d>(m, m.dispatch_table[0]), x = NONE; for (int i = 0; i < %d; ++i) if (i == e) x = code<%d>(m, m.overriders[i].next); else if (m.overriders[i].next) return -2;\n'
         ' return e | x << 4; }\n' % (tag, head, N, N, mask, N, N, N, N))
    r = ('extern "C" int ref_%s() { %sint live = undominated2(%d, a, b); int e = cell(live), x = NONE;\n'
         ' for (int j = 0; j < %d; ++j) if (j == e) x = cell(undominated2(bases2(%d, j, a, b), a, b));\n'
         ' return e | x << 4; }\n' % (tag, head, mask, N, mask))
    return p + r


def grid(tag, N, masks):
    """the order of the cells of a method with several virtual parameters"""
    dims = len(masks)
    ks = ', '.join('&K%d' % i for i in range(N))
    cells = list(itertools.product(*[range(len(g)) for g in reversed(masks)]))
    out = []
    for which, cell in enumerate(cells):
        m = (1 << N) - 1
        for d, g in enumerate(reversed(cell)):
            m &= masks[d][g]
        head = 'cls* const k[] = {%s}; if (!sane_all(k)) return -1; ' % ks
        p = 'extern "C" int probe_%s_cell_%d() { %sC comp; meth m; fill(m, k, k, false); std::vector<gmap> groups; groups.resize(%d);\n' % (tag, which, head, dims)
        for d in range(dims):
            p += ' m.vp.push_back(&K0);'
            for g in masks[d]:
                p += ' groups[%d].omv_append(gmap::value_type(bits(%d, %d), C::group()));' % (d, N, g)
            p += '\n'
        p += (' bits all(%d); all = ~all; comp.build_dispatch_table(m, %d, groups.end() - 1, all, true);\n'
              ' return m.dispatch_table.size() == %d ? code<%d>(m, m.dispatch_table[%d]) : -2; }\n' % (N, dims - 1, len(cells), N, which))
        p += 'extern "C" int ref_%s_cell_%d() { %sreturn cell(undominated(%d, k)); }\n' % (tag, which, head, m)
        out.append(p)
    return out


FOUR = [[(2, [[3, 1], [1, 2, 0], [3], [1, 3]])]]
# three virtual parameters, with several groups in each dimension
THREE = [[(1, [[1, 0], [0, 1], [1, 0]])], [(2, [[1, 2, 0], [3, 1], [1, 3]])]]


def check_grouped(ctx, name, sets, rule):
    """the entry that the groups of the classes of the arguments select"""
    import I09
    grouped = []
    for n, ms in enumerate(sets):
        x = I09.Instance(ms)
        base = 0
        for k, (cnt, dims) in enumerate(ms):
            slots = x.slots(k)
            p, r = [], []
            for i, t in enumerate(x.tuples(k)):
                m = (1 << cnt) - 1 & I09._and([dims[d][c] for d, c in enumerate(t)])
                idx = ' + '.join('K%d.vtbl[%d].group_index%s' % (c, slots[d] - x.first(c), ' * m%d.strides[%d]' % (k, d - 1) if d else '') for d, c in enumerate(t))
                p.append('(unsigned long) code(m%d, %d, m%d.dispatch_table[%s]) << %d' % (k, cnt, k, idx, 4 * i))
                r.append('(unsigned long) cell(undominated(%d, %d, %d, %d)) << %d' % (m, cnt, len(dims), base, 4 * i))
            tag = '%d_%d' % (n, k)
            # the entries say which method and parameter they are for
            marks = ' && '.join('K%d.vtbl[%d].method_index == %d && K%d.vtbl[%d].vp_index == %d' % (c, slots[d] - x.first(c), k, c, slots[d] - x.first(c), d)
                                for d, cs in enumerate(dims) for c in range(len(cs)))
            grouped.append('extern "C" unsigned long probe_grouped_%s() {%s%s comp.build_dispatch_tables(); if (!(%s)) return -2; return %s; }\n'
                           'extern "C" unsigned long ref_grouped_%s() {%s return %s; }\n' % (tag, x.assume(), x.setup(), marks, ' | '.join(p), tag, x.assume(), ' | '.join(r)))
            base += cnt * len(dims)
    for f in parallel(lambda k: initp.unit(ctx, '%s%d' % (name, k), I09.COMMON + grouped[k], opaque=True, cap=8, depth=5, project=True), list(range(len(grouped)))):
        f.check(rule)


def run(ctx):
    ctx.explanation.append(
        'compiler::build_dispatch_table and the selection that it uses are compiled for every set of applicable overriders '
        'among a constant number of them, with an unknown inheritance relation between their classes, unrolled, and '
        'compared with the specification: the entry is not-implemented iff nothing remains, ambiguous iff several '
        'undominated remain and N2216 is off, else the undominated one; next is the same for the rest; with N2216 the '
        'candidates whose return type is a proper base of another\'s are eliminated and one of the rest is picked. For '
        'several virtual parameters, each cell is the selection among the intersection of its groups, in the order that '
        'the strides describe; the per-method counters count those entries.')
    ctx.assumptions += ['inheritance is reflexive and antisymmetric, and transitive among return types and, in the instances with four overriders, among parameters (I04)',
                        'N2216: return types of the candidates are all registered (I05) and distinct', 'clang 18 preserves semantics']
    jobs = {1: [], 2: [], 3: [], 4: []}
    top = 4 if ctx.thorough else 3
    for opt in ('', 'n2216', 'n2216_nocov'):
        for N in range(1, {'': top, 'n2216': 3, 'n2216_nocov': 3}[opt] + 1):
            for mask in range(1 << N):
                if N == 4 and bin(mask).count('1') < 3:
                    continue
                jobs[1].append(one('select%s_%d_of_%d' % ('_' + opt if opt else '', mask, N), N, mask, ['K%d' % i for i in range(N)], opt))
    for i, (c, opt) in enumerate(itertools.product((['K0', 'K0'], ['K0', 'K0', 'K1'], ['K1', 'K0', 'K0'], ['K0', 'K1', 'K0'], ['K0', 'K0', 'K0']), ('',))):
        jobs[1].append(one('same_class_%d' % i, len(c), (1 << len(c)) - 1, c, opt))
    for i, (a, b) in enumerate([('01', '01'), ('012', '012'), ('001', '012'), ('010', '012'), ('011', '012'), ('012', '001'), ('012', '010'), ('012', '011'), ('001', '011'), ('001', '010')]):
        jobs[2].append(pair('pair_%d' % i, ['K' + c for c in a], ['Q' + c for c in b], (1 << len(a)) - 1))
    for i, masks in enumerate([[[1, 3], [2, 3]], [[1, 2, 3], [1, 2]], [[3], [0, 1, 3]], [[1, 3], [2, 3], [3, 1]], [[0, 2], [3], [2, 1]]] +
                              ([[[1, 3, 7, 5], [2, 3, 7]], [[1, 3], [2, 3], [3, 1], [3, 2]]] if ctx.thorough else [])):
        jobs[len(masks)] += grid('grid_%d' % i, 3 if any(7 in g for g in masks) else 2, masks)
    units = [(a, k, v[k::n]) for a, v in jobs.items() for n in [min(len(v), (8 if a == 1 else 4) * (3 if ctx.thorough else 1))] for k in range(n)]
    for f in parallel(lambda u: initp.unit(ctx, 'i02_%d_%d' % u[:2], COMMON + ''.join(u[2]), opaque=True, cap=4 if not ctx.thorough else 16, depth=5, flags=['-DOMV_ARITY=%d' % u[0], '-DOMV_DIMS=%d' % u[0]]), units):
        f.check('dispatch-cell')
    sets = [[(1, [[0, 1]])], [(2, [[3, 1]])], [(2, [[0, 3, 2]])], [(2, [[3, 1], [3, 2]])], [(2, [[1, 3, 1], [2, 3]])], [(1, [[1, 0], [1, 1]]), (1, [[0, 1]])], [(0, [[0], [0]])], [(1, [[1], [1, 0]])], [(1, [[1, 0], [1, 1], [0, 1]])]]
    if ctx.thorough:
        sets += [[(2, [[3, 1], [3, 2], [1, 3]])], [(3, [[7, 3, 1], [7, 5]])], [(2, [[1, 2], [3, 3]]), (2, [[0, 3]])]]
    check_grouped(ctx, 'i02_g', sets + THREE, 'dispatch-cell')
