"""I10: every type id of every class is published to the vptr policy."""
from vlib import *
import initp, itertools
import I03

PRE = I03.PRE.replace('using bom::virtual_;', '''using bom::virtual_;''').replace('struct placed : bom::policies::vptr {', '''
extern "C" { extern type_id IDS[8]; void omv_rec_begin() noexcept; void omv_rec_class(std::size_t) noexcept; void omv_rec_id(type_id) noexcept; void omv_rec_place(const vptr_type*) noexcept; void omv_rec_word(const word*) noexcept; void omv_rec_hash(type_id) noexcept; }
struct opt { int value; };
extern "C" void omv_rec_option(int) noexcept;
template<class Ctx, class... O> inline void publish(const Ctx& ctx, const std::tuple<O...>& o) {
    omv_rec_begin();
    if constexpr (sizeof...(O)) omv_rec_option(std::get<0>(o).value);
    for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c) {
        omv_rec_class(0);
        for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t) omv_rec_id(*t);
        omv_rec_place(&c->vptr());
        omv_rec_word(c->vptr());
    }
}
struct watcher : bom::policies::vptr {
    template<class Registry> struct fn {
        template<class X> static auto dynamic_vptr(const X&) -> const vptr_type& { return place<std::remove_cv_t<X>>::vptr; }
        template<class Ctx, class... O> static void initialize(const Ctx& ctx, const std::tuple<O...>& o) { publish(ctx, o); }
    };
};
struct placed : bom::policies::vptr {''', 1) + '''
using W = bom::registry<omv::rtti, watcher>;
using N0 = bom::registry<omv::rtti>;
template<class X> struct holder { static vptr_type vptr; };
'''


def run(ctx):
    ctx.explanation.append(
        'The installation of the tables is compiled for registries of a constant number of classes, with unknown type ids '
        'and v-table positions, and a vptr policy that enumerates the classes that it is given: the sequence of the ids, '
        'of the places of the v-table pointers, and of the pointers themselves must be that of the classes, with the '
        'pointers that initialization leaves in place. A registry without a vptr policy initializes none.')
    ctx.assumptions += ['clang 18 preserves semantics']
    shapes = [[], [1], [1, 1], [2, 1], [1, 3], [0, 1]] + ([[1, 1, 1], [2, 2, 2], [1, 1, 1, 1]] if ctx.thorough else [])
    jobs = []
    for n, sh in enumerate(shapes):
        for reg, optn in (('W', 0), ('W', 1), ('N0', 0)):
            it = iter(range(9))
            cl = [[next(it) for _ in range(k)] for k in sh]
            s = 'using X = %s; using C = X::compiler<%s>; new (static_cast<void*>(&X::dispatch_data)) std::vector<word>(); C comp%s; comp.classes.resize(%d); vptr_type v[%d];\n' % (
                reg, 'opt' if optn else '', '{opt{int(S[7])}}' if optn else '', len(sh), len(sh) or 1)
            for i, ids in enumerate(cl):
                s += ' {auto& k = comp.classes[%d]; k.static_vptr = &v[%d]; k.first_slot = S[%d];%s}\n' % (i, i, i, ''.join(' k.type_ids.push_back(IDS[%d]);' % j for j in ids))
            install = 'comp.compilation_done = true; comp.install_global_tables(); '
            body = s + ' ' + install + 'return R_; '
            # places are local: their order in v is what is recorded
            probe = s + install
            tag = '%d_%s%d' % (n, reg, optn)
            spec = s
            if reg == 'W':
                ev = 'omv_rec_begin(); ' + ('omv_rec_option(int(S[7])); ' if optn else '')
                for i, ids in enumerate(cl):
                    ev += 'omv_rec_class(0); ' + ''.join('omv_rec_id(IDS[%d]); ' % j for j in ids) + 'omv_rec_place(&PL[%d]); omv_rec_word(PL[%d]); ' % (i, i)
            else:
                ev = ''
            # the pointers are those that the same installation leaves in a registry that publishes nothing
            s = s.replace('&v[', '&PL[').replace('vptr_type v[%d];' % (len(sh) or 1), '')
            jobs.append('extern "C" int probe_publish_%s() { %s %s return 0; }\n' % (tag, s, install) +
                        'extern "C" int ref_publish_%s() { %s %s return 0; }\n' % (tag, s.replace('using X = %s;' % reg, 'using X = N0;').replace('X::compiler<opt>', 'X::compiler<>').replace('C comp{opt{int(S[7])}}', 'C comp'), install + ev))
    n = 6
    pre = PRE.replace('void omv_rec_begin()', 'extern vptr_type PL[8]; void omv_rec_begin()')
    for f in parallel(lambda k: initp.unit(ctx, 'i10_%d' % k, pre + ''.join(jobs[k::n]), prelude=False, cap=4, flags=['-DOMV_WORDS=8'], project=True), list(range(n))):
        f.check('publication')
