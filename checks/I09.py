"""I09: the counts of the report."""
from vlib import *
import initp, itertools

COMMON = r'''
extern "C" { extern cls K0, K1, K2, K3, O0, O1, O2, O3, O4, O5, O6, O7, O8, O9, O10, O11; extern bom::detail::overrider_info I[4]; extern bom::detail::method_info MI[2]; extern std::size_t N[16]; }
inline cls* const OS[] = {&O0, &O1, &O2, &O3, &O4, &O5, &O6, &O7, &O8, &O9, &O10, &O11};
enum { NI = 8, AMB = 9, OTHER = 10 };
inline int code(const meth& m, int n, const ov* o) {
    int r = OTHER;
    for (int i = 0; i < n; ++i) r = o == &m.overriders[i] ? i : r;
    return o == &m.not_implemented ? NI : o == &m.ambiguous ? AMB : r;
}
inline int undominated(int mask, int n, int dims, int base) {
    int live = 0;
    for (int j = 0; j < n; ++j) if (mask >> j & 1) {
        bool dom = false;
        for (int i = 0; i < n; ++i) if (i != j && mask >> i & 1) {
            bool some = false, none = true;
            for (int d = 0; d < dims; ++d) {
                some |= proper(OS[base + i * dims + d], OS[base + j * dims + d]);
                none &= !proper(OS[base + j * dims + d], OS[base + i * dims + d]);
            }
            dom |= some & none;
        }
        live |= int(!dom) << j;
    }
    return live;
}
inline int count(int m) { return (m & 1) + (m >> 1 & 1) + (m >> 2 & 1) + (m >> 3 & 1); }
inline int only(int m) { return m == 1 ? 0 : m == 2 ? 1 : m == 4 ? 2 : m == 8 ? 3 : OTHER; }
inline int cell(int live) { return live == 0 ? NI : count(live) > 1 ? AMB : only(live); }
'''


class Instance:
    """methods whose virtual parameters apply to the classes K, and their
    overriders; which overriders apply to which class is fixed, the inheritance
    between the classes of overriders is not"""

    def __init__(self, methods, order=lambda l: l):
        # order: that in which the classes derived from that of a parameter are enumerated
        self.order = order
        # per method: per parameter, per class, the set of applicable overriders
        self.methods = methods

    def assume(self):
        s, base = '', 0
        for k, (n, dims) in enumerate(self.methods):
            for d, classes in enumerate(dims):
                for c, mask in enumerate(classes):
                    for i in range(n):
                        s += ' if (omv_in(&O%d.transitive_derived, &K%d) != %s) return -1;' % (base + i * len(dims) + d, c, 'true' if mask >> i & 1 else 'false')
            for d in range(len(dims)):
                for i in range(n):
                    for j in range(i + 1):
                        s += ' if (!sane(&O%d, &O%d)) return -1;' % (base + i * len(dims) + d, base + j * len(dims) + d)
            base += n * len(dims)
        return s + '\n'

    def setup(self, comp='C comp;'):
        nk = max(len(c) for _, dims in self.methods for c in dims)
        s = comp + ' comp.methods.resize(%d);\n' % len(self.methods)
        for c in range(nk):
            s += ' K%d.first_slot = %d; K%d.vtbl.clear(); K%d.vtbl.resize(8); K%d.type_ids.clear(); K%d.type_ids.push_back(nullptr);\n' % (c, self.first(c), c, c, c, c)
        base = 0
        for k, (n, dims) in enumerate(self.methods):
            s += ' auto& m%d = comp.methods[%d]; m%d.info = &MI[%d]; m%d.overriders.resize(%d);\n' % (k, k, k, k, k, n)
            for d, classes in enumerate(dims):
                # the static class of the parameter, and those derived from it
                s += ' cls v%d_%d; v%d_%d.type_ids.push_back(nullptr); cls* e%d_%d[] = {%s}; v%d_%d.transitive_derived.omv_items(e%d_%d, %d); m%d.vp.push_back(&v%d_%d); m%d.slots.push_back(%d);\n' % (
                    k, d, k, d, k, d, ', '.join('&K%d' % c for c in self.order(list(range(len(classes))))), k, d, k, d, len(classes), k, k, d, k, self.slots(k)[d])
            for i in range(n):
                s += ' m%d.overriders[%d].info = &I[%d]; m%d.overriders[%d].spec_index = %d;' % (k, i, i, k, i, i)
                for d in range(len(dims)):
                    s += ' m%d.overriders[%d].vp.push_back(&O%d);' % (k, i, base + i * len(dims) + d)
                s += '\n'
            base += n * len(dims)
        return s

    def slots(self, k):
        """of the virtual parameters of a method, in a table of 8 entries"""
        return [1 + 3 * k + (0, 2, 1, 3)[d] for d in range(len(self.methods[k][1]))]

    def first(self, c):
        return c % 2

    def tuples(self, k):
        return list(itertools.product(*[range(len(c)) for c in self.methods[k][1]]))

    def cells(self, k):
        n, dims = self.methods[k]
        masks = [sorted(set(c)) for c in dims]
        return [(1 << n) - 1 & _and(c) for c in itertools.product(*masks)]


def _and(c):
    r = -1
    for x in c:
        r &= x
    return r


def run(ctx):
    ctx.explanation.append(
        'compiler::build_dispatch_tables is compiled for methods of constant arity and number of overriders and of '
        'classes. Which overriders apply to each class is enumerated, the dominance between them is unknown. The totals '
        'in the report must be the number of distinct combinations of applicable sets of the methods with several '
        'virtual parameters, and the numbers of methods of which some combination leaves no overrider, or several '
        'undominated ones. accumulate is compared for unknown values.')
    ctx.assumptions += ['inheritance is reflexive and antisymmetric (I04)', 'clang 18 preserves semantics']
    jobs = {}
    one = [(1, [[1]]), (1, [[0, 1]]), (2, [[3, 1]]), (2, [[0, 3, 2]]), (0, [[0, 0]])]
    two = [(1, [[1, 0], [1, 1]]), (2, [[3, 1], [3, 2]]), (2, [[1, 3, 1], [2, 3]]), (2, [[1, 2], [3, 3]]), (1, [[0], [1]]), (0, [[0, 0], [0]])]
    sets = [[x] for x in one + two] + [[(1, [[1, 0], [0, 1], [1, 0]])]] + [[one[1], two[1]], [two[0], one[2]], [one[0], one[4]], [two[4], two[3]]]
    if ctx.thorough:
        sets += [[(3, [[7, 3, 1], [7, 5]])], [two[2], two[0]], [(2, [[3, 1], [3, 2], [1, 3]])], [one[3], one[1]]]
    for n, ms in enumerate(sets):
        arities = {len(d) for _, d in ms}
        x = Instance(ms)
        ass = x.assume()
        p = 'extern "C" unsigned long probe_report_%d() {%s%s comp.build_dispatch_tables(); auto& r = comp.report; return r.cells | r.not_implemented << 16 | r.ambiguous << 32; }\n' % (n, ass, x.setup())
        cells = sum(len(x.cells(k)) for k in range(len(ms)) if len(ms[k][1]) > 1)
        base, ni, amb = 0, [], []
        for k, (cnt, dims) in enumerate(ms):
            u = ['undominated(%d, %d, %d, %d)' % (m, cnt, len(dims), base) for m in x.cells(k)]
            ni.append('(' + ' || '.join('%s == 0' % c for c in u) + ')')
            amb.append('(' + ' || '.join('count(%s) > 1' % c for c in u) + ')')
            base += cnt * len(dims)
        r = 'extern "C" unsigned long ref_report_%d() {%s return %dUL | (unsigned long) (%s) << 16 | (unsigned long) (%s) << 32; }\n' % (
            n, ass, cells, ' + '.join('int%s' % c for c in ni), ' + '.join('int%s' % c for c in amb))
        jobs.setdefault(tuple(sorted(arities)), []).append(p + r)
    acc = ('extern "C" unsigned long probe_accumulate_%s() { C::method_report p; struct C::report t; p.cells = N[0]; p.not_implemented = N[1]; p.ambiguous = N[2]; t.cells = N[3]; t.not_implemented = N[4]; t.ambiguous = N[5];'
           ' bom::detail::generic_compiler::accumulate(p, t); return t.%s; }\n'
           'extern "C" unsigned long ref_accumulate_%s() { return N[%d] + %s; }\n')
    jobs[()] = [acc % ('cells', 'cells', 'cells', 3, 'N[0]'), acc % ('ni', 'not_implemented', 'ni', 4, '(N[1] != 0)'), acc % ('amb', 'ambiguous', 'amb', 5, '(N[2] != 0)')]
    units = []
    for a, v in jobs.items():
        n = min(len(v), 4)
        units += [(a, k, v[k::n]) for k in range(n)]

    def build(u):
        a, k, v = u
        return initp.unit(ctx, 'i09_%s_%d' % (''.join(map(str, a)), k), COMMON + ''.join(v), opaque=True, cap=8, depth=5,
                          project=True)
    for f in parallel(build, units):
        f.check('report-counts')
