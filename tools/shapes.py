"""Enumeration of method shapes for the value-graph probes."""
import itertools

# kind: (declared parameter, argument type, expression for the v-table, forwarding)
KINDS = {
    'v': ('virtual_<const X%d&>', 'const X%d&', 'dyn_vptr(a%d)', 'a%d'),
    'l': ('virtual_<X%d&>', 'X%d&', 'dyn_vptr<X%d>(a%d)', 'a%d'),
    'r': ('virtual_<X%d&&>', 'X%d&&', 'dyn_vptr<X%d>(a%d)', 'std::move(a%d)'),
    'q': ('virtual_<const X%d*>', 'const X%d*', 'dyn_vptr(*a%d)', 'a%d'),
    'f': ('virtual_<const F%d&>', 'const F%d&', 'fn_vptr(a%d)', 'a%d'),
    'p': ('virtual_ptr<X%d, R>', 'virtual_ptr<X%d, R>', 'a%d.vptr()', 'a%d'),
    'c': ('const virtual_ptr<X%d, R>&', 'const virtual_ptr<X%d, R>&', 'a%d.vptr()', 'a%d'),
    's': ('virtual_ptr<sp<X%d>, R>', 'virtual_ptr<sp<X%d>, R>', 'a%d.vptr()', 'std::move(a%d)'),
    'n': ('int', 'int', None, 'a%d'),
    'd': ('double', 'double', None, 'a%d'),
    'm': ('NoCopy&&', 'NoCopy&&', None, 'std::move(a%d)'),
    'o': ('Mover', 'Mover', None, 'std::move(a%d)'),
    'b': ('Big', 'Big', None, 'a%d'),
    'e': ('const Big&', 'const Big&', None, 'a%d'),
    'g': ('Big&', 'Big&', None, 'a%d'),
}
KINDS['k'] = ('const virtual_ptr<sp<X%d>, R>&', 'const virtual_ptr<sp<X%d>, R>&', 'a%d.vptr()', 'a%d')
KINDS['i'] = ('int&&', 'int&&', None, 'std::move(a%d)')
KINDS['h'] = ('const int&', 'const int&', None, 'a%d')
VIRT = 'vlrqfpcsk'


def sub(fmt, i):
    return fmt % ((i,) * fmt.count('%d')) if fmt else fmt


class Shape:
    def __init__(self, kinds):
        self.kinds = kinds
        self.params = [sub(KINDS[k][0], i) for i, k in enumerate(kinds)]
        self.types = [sub(KINDS[k][1], i) for i, k in enumerate(kinds)]
        self.vtbl = [sub(KINDS[k][2], i) for i, k in enumerate(kinds)]
        self.fwd = [sub(KINDS[k][3], i) for i, k in enumerate(kinds)]
        self.virt = [i for i, k in enumerate(kinds) if k in VIRT]

    @property
    def decl(self):
        return ', '.join('%s a%d' % (t.replace(', R>', ', Reg>'), i) for i, t in enumerate(self.types))

    def sig(self, reg, what=None):
        return ', '.join(x.replace(', R>', ', %s>' % reg) for x in (what or self.params))

    def args(self):
        return ', '.join(self.fwd)


def words(alpha, n):
    for l in range(1, n + 1):
        for w in itertools.product(alpha, repeat=l):
            yield ''.join(w)


def quick_shapes():
    out = [w for w in words('vpn', 3)] + [w for w in words('lcfrqsmobegd', 1)]
    out += ['vpcl', 'nvnp', 'vnnv', 'nnvv', 'vvvv', 'pnpnp', 'pppppp', 'npnvnfn', 'rs', 'sr', 'mr', 'rm',
            'ob', 'vob', 'ovm', 'qf', 'fq', 'sns', 'cnc', 'gve', 'evg', 'nlnlnln', 'bvbv', 'dvd', 'cpcp', 'ss', 'sos']
    seen, res = set(), []
    for w in out:
        if w not in seen and any(c in VIRT for c in w):
            seen.add(w)
            res.append(w)
    return res


def thorough_shapes():
    out = list(quick_shapes()) + list(words('vpn', 5)) + list(words('lcfrqsmobe', 2)) + \
        ['v' * 8, 'p' * 10, 'nv' * 7, 'vn' * 7, 'c' * 9, 'vpclfrqsn' * 2]
    seen, res = set(), []
    for w in out:
        if w not in seen and any(c in VIRT for c in w):
            seen.add(w)
            res.append(w)
    return res


PRELUDE = '''
#include <probe.hpp>
#include <smart.hpp>
using namespace omv; using namespace boost::openmethod;
struct Big { long v[5]; };
struct NoCopy { int v; NoCopy(NoCopy&&) = delete; };
void* hook_mv(void*); void hook_rel(void*);
// a move-only value: moving and destroying it are recorded
struct Mover { void* p; Mover(Mover&& o) : p(o.p) { o.p = nullptr; } ~Mover() { if (p) hook_rel(p); } };
'''


def classes(n):
    s = ''
    for i in range(n):
        s += 'struct X%d { virtual ~X%d(); long x%d; };\n' % (i, i, i)
        s += 'struct Y%d { virtual ~Y%d(); long y%d; };\n' % (i, i, i)
        s += 'struct D%d : Y%d, X%d { long d%d; };\n' % (i, i, i, i)
        s += 'struct V%d : virtual Y%d, virtual X%d { long d%d; };\n' % (i, i, i, i)
        s += 'struct F%d { long f; };\n' % i
        s += 'struct G%d : Y%d, F%d { long g; };\n' % (i, i, i)
        s += 'OMV_CONST const vptr_type& fn_vptr(const F%d&);\n' % i
        s += 'template<class R> const vptr_type& boost_openmethod_vptr(const F%d& f, R*) { return fn_vptr(f); }\n' % i
    return s
