"""I03: what initialization writes is what calls read."""
from vlib import *
import initp, itertools

PRE = r'''
#include "probe.hpp"
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
using namespace omv;
// a vptr policy that yields what initialization stored in the class's place
template<class X> struct place { static vptr_type vptr; };
template<class X> vptr_type place<X>::vptr;
struct placed : bom::policies::vptr {
    template<class Registry> struct fn {
        template<class X> static auto dynamic_vptr(const X&) -> const vptr_type& { return place<std::remove_cv_t<X>>::vptr; }
        template<class... T> static auto initialize(T&&...) -> void {}
    };
};
using R = bom::registry<omv::rtti, placed>;
struct reg : R {};
using C = R::compiler<>;
using cls = C::class_; using ov = C::overrider; using meth = C::method;
struct A { virtual ~A(); }; struct B { virtual ~B(); }; struct D { virtual ~D(); }; struct E { virtual ~E(); };
using bom::virtual_; using bom::method;
struct id1; struct id2; struct id3; struct id4;
using M1 = method<id1, int(virtual_<A&>), reg>;
using M2 = method<id2, int(virtual_<A&>, int, virtual_<B&>), reg>;
using M3 = method<id3, int(virtual_<A&>, virtual_<B&>, virtual_<D&>), reg>;
using M4 = method<id4, int(virtual_<B&>), reg>;
typedef void (*fp)();
extern "C" { extern fp PF[32]; extern std::size_t S[8]; extern bom::detail::overrider_info OI[8]; extern fp NEXT[8]; }
// the overriders that entries point to
struct pool { ov o[32]; pool() { for (int i = 0; i < 32; ++i) o[i].pf = PF[i]; } };
// what the constructor of a method sets
extern "C" { extern type_id TI[8]; }
template<class M> inline M& method_of(int arity) { M::fn.vp_begin = TI; M::fn.vp_end = TI + arity; M::fn.slots_strides_ptr = M::fn.slots_strides; return M::fn; }
// a method with that many groups in each dimension, whose cells are consecutive overriders
inline void fill(meth& m, bom::detail::method_info& info, pool& p, int first, std::initializer_list<std::size_t> groups, const std::size_t* slots) {
    m.info = &info; m.overriders.resize(2);
    std::size_t cells = 1, dim = 0;
    for (auto g : groups) {
        m.vp.push_back(nullptr); m.slots.push_back(slots[dim]);
        if (dim) m.strides.push_back(cells);
        cells *= g; ++dim;
    }
    for (std::size_t i = 0; i < cells; ++i) m.dispatch_table.push_back(&p.o[first + i]);
}
inline void entry(cls& c, std::size_t at, std::size_t m, std::size_t vp, std::size_t group) {
    auto& e = c.vtbl[at]; e.method_index = m; e.vp_index = vp; e.group_index = group;
}
'''


def regs(body, methods=4):
    """three classes and four methods"""
    return 'new (static_cast<void*>(&R::dispatch_data)) std::vector<word>(); C comp; pool p; comp.methods.resize(%d); comp.classes.resize(3); cls &a = comp.classes[0], &b = comp.classes[1], &d = comp.classes[2];\n a.static_vptr = &place<A>::vptr; b.static_vptr = &place<B>::vptr; d.static_vptr = &place<D>::vptr;\n' % methods + body


def sized(shape2, shape3, ga, gb, gd):
    # slots: A: S0.. = first(A) + 0.. ; B: first(B) + ..
    s = 'std::size_t fa = S[0], fb = S[1], fd = S[2]; a.first_slot = fa; b.first_slot = fb; d.first_slot = fd;\n'
    s += 'std::size_t s1[] = {fa + 1}, s2[] = {fa, fb + 1}, s3[] = {fa + 2, fb + 2, fd}, s4[] = {fb};\n'
    s += 'fill(comp.methods[0], method_of<M1>(1), p, 0, {2}, s1); fill(comp.methods[1], method_of<M2>(2), p, 2, {%s}, s2); fill(comp.methods[2], method_of<M3>(3), p, 11, {%s}, s3); fill(comp.methods[3], method_of<M4>(1), p, 29, {3}, s4);\n' % (
        ', '.join(map(str, shape2)), ', '.join(map(str, shape3)))
    s += 'a.vtbl.resize(3); b.vtbl.resize(3); d.vtbl.resize(1);\n'
    s += 'entry(a, 1, 0, 0, %d); entry(a, 0, 1, 0, %d); entry(a, 2, 2, 0, %d);\n' % ga
    s += 'entry(b, 0, 3, 0, %d); entry(b, 1, 1, 1, %d); entry(b, 2, 2, 1, %d);\n' % gb
    s += 'entry(d, 0, 2, 2, %d);\n' % gd
    return s


def tight(shape2, shape3, ga, gb, gd):
    # the same without the methods with one virtual parameter
    s = 'std::size_t fa = S[0], fb = S[1], fd = S[2]; a.first_slot = fa; b.first_slot = fb; d.first_slot = fd;\n'
    s += 'std::size_t s2[] = {fa, fb + 1}, s3[] = {fa + 2, fb, fd};\n'
    s += 'fill(comp.methods[0], method_of<M2>(2), p, 2, {%s}, s2); fill(comp.methods[1], method_of<M3>(3), p, 11, {%s}, s3);\n' % (', '.join(map(str, shape2)), ', '.join(map(str, shape3)))
    s += 'a.vtbl.resize(3); b.vtbl.resize(2); d.vtbl.resize(1);\n'
    s += 'entry(a, 0, 0, 0, %d); entry(a, 1, 0, 0, 0); entry(a, 2, 1, 0, %d);\n' % ga[1:]
    s += 'entry(b, 1, 0, 1, %d); entry(b, 0, 1, 1, %d);\n' % gb[1:]
    s += 'entry(d, 0, 1, 2, %d);\n' % gd
    return s


def fits(s2, s3, ga):
    """every v-table and dispatch table is inside of what is allocated"""
    ends = 'for (auto& k : comp.classes) { auto b = *k.static_vptr + k.first_slot - R::dispatch_data.data(); ok = ok && b >= 0 && b + k.vtbl.size() <= R::dispatch_data.size(); }'
    ends += ' auto t2 = a.static_vptr[0][fa].pw - %d - R::dispatch_data.data(), t3 = a.static_vptr[0][fa + 2].pw - %d - R::dispatch_data.data();' % (ga[1], ga[2])
    ends += ' ok = ok && t2 >= 0 && t2 + %d <= R::dispatch_data.size() && t3 >= 0 && t3 + %d <= R::dispatch_data.size();' % (s2[0] * s2[1], s3[0] * s3[1] * s3[2])
    return ends


def run(ctx):
    ctx.explanation.append(
        'compiler::write_global_data is compiled for registries of constant size (methods of one to three virtual '
        'parameters with several groups each, classes with v-tables of several entries) with unknown slots, first slots '
        'and function pointers, and composed with the call operator of the methods: the call must go to the overrider '
        'of the cell that the groups of its arguments designate. The words must fit in what is allocated, and the next '
        'pointers must be those of the overriders that were selected.')
    ctx.assumptions += ['groups and cells are numbered as I02 establishes', 'clang 18 preserves semantics']
    jobs, done = [], set()
    shapes = [((2, 2), (2, 2, 2)), ((3, 2), (2, 3, 2)), ((1, 3), (3, 2, 3))] + ([((3, 3), (1, 3, 3)), ((2, 3), (3, 3, 2))] if ctx.thorough else [])
    for n, (s2, s3) in enumerate(shapes):
        cells = []
        for i, j, k in itertools.product(*[range(x) for x in s3]):
            cells.append(((i % 2, min(i, s2[0] - 1), i), (k % 3, j % s2[1], j), k))
        for c, (ga, gb, gd) in enumerate(cells):
            pre = regs(sized(s2, s3, ga, gb, gd))
            want = {'m1': ('M1::fn(x)', ga[0], '(A&)', '(x)'),
                    'm2': ('M2::fn(x, n, y)', 2 + ga[1] + gb[1] * s2[0], '(A&, int, B&)', '(x, n, y)'),
                    'm3': ('M3::fn(x, y, z)', 11 + ga[2] + gb[2] * s3[0] + gd * s3[0] * s3[1], '(A&, B&, D&)', '(x, y, z)'),
                    'm4': ('M4::fn(y)', 29 + gb[0], '(B&)', '(y)')}
            if c == 0:
                ends = fits(s2, s3, ga)
                for k, p in (('', pre), ('tight_', regs(tight(s2, s3, ga, gb, gd), 2))):
                    jobs.append('extern "C" int probe_fits_%s%d() { %s comp.write_global_data(); bool ok = true; %s return ok; }\n'
                                'extern "C" int ref_fits_%s%d() { return 1; }\n' % (k, n, p, ends, k, n))
            for m, (call, w, sig, args) in want.items():
                if (n, m, w) in done:
                    continue
                done.add((n, m, w))
                t = '%s_%d_cell_%d' % (m, n, c)
                jobs.append('extern "C" int probe_%s(A& x, B& y, D& z, int n) { %s comp.write_global_data(); return %s; }\n'
                            'extern "C" int ref_%s(A& x, B& y, D& z, int n) { return ((int (*)%s) PF[%d])%s; }\n' % (t, pre, call, t, sig, w, args))
    # next
    for k in range(3):
        jobs.append('''extern "C" fp probe_next_%d() { new (static_cast<void*>(&R::dispatch_data)) std::vector<word>(); C comp; pool p; comp.methods.resize(2); std::size_t s[] = {S[0], S[1]};
 fill(comp.methods[0], method_of<M1>(1), p, 0, {1}, s); fill(comp.methods[1], method_of<M2>(2), p, 1, {1, 1}, s);
 for (int i = 0; i < 2; ++i) { auto& o = comp.methods[i].overriders; for (int j = 0; j < 2; ++j) { o[j].info = &OI[2 * i + j]; OI[2 * i + j].next = &NEXT[2 * i + j]; } }
 comp.methods[0].overriders[0].next = &p.o[8]; comp.methods[0].overriders[1].next = &p.o[9];
 comp.methods[1].overriders[0].next = &p.o[10]; comp.methods[1].overriders[1].next = nullptr;
 comp.write_global_data(); return NEXT[%d]; }
 extern "C" fp ref_next_%d() { return PF[%d]; }\n''' % (k, k, k, 8 + k))
    n = 8
    for f in parallel(lambda k: initp.unit(ctx, 'i03_%d' % k, PRE + ''.join(jobs[k::n]), prelude=False, cap=4, flags=['-DOMV_WORDS=32'], project=True), list(range(n))):
        f.check('layout')
    # the strides are those of the order in which the cells are built
    import I02
    I02.check_grouped(ctx, 'i03_g', I02.THREE + I02.FOUR, 'stride')
