"""I06: a registry is marked initialized only while its tables are complete."""
from vlib import *
import initp, itertools
import I05

EXT = r'''
extern bool WAS; extern std::size_t COUNT; extern int OPT;
void omv_rec_vptr(bool, std::size_t) noexcept; void omv_rec_odr() noexcept; void omv_rec_fin(int, int) noexcept; [[noreturn]] void omv_rec_fail(bool) noexcept;
void omv_rec_state(bool) noexcept;
'''
PRE = I05.PRE.replace('extern "C" { extern type_id T[16];', 'extern "C" { ' + EXT + ' extern vptr_type VP[8]; extern bool AB[8]; extern type_id T[16];') + r'''
struct opt { int value; };
template<class... O> inline int value_of(const std::tuple<O...>& o) { if constexpr (sizeof...(O)) return std::get<0>(o).value; else return -1; }
// tells whether the registry looks initialized while the policies are
template<int Fail> struct watch : bom::policies::vptr {
    template<class Registry> struct fn {
        template<class X> static auto dynamic_vptr(const X&) -> const vptr_type& { return VP[0]; }
        template<class Ctx, class... O> static void initialize(const Ctx& c, const std::tuple<O...>&) {
            if (Fail) omv_rec_fail(Registry::registry_type::initialized);
            std::size_t n = 0; for (auto i = c.classes_begin(); i != c.classes_end(); ++i) n += c.classes_begin()->vptr() != nullptr;
            omv_rec_vptr(Registry::registry_type::initialized, 0);
        }
        template<class... O> static void finalize(const std::tuple<O...>& o) { omv_rec_fin(1, value_of(o)); }
    };
};
struct err : bom::policies::error_handler {
    template<class Registry> struct fn {
        static void error(const bom::odr_violation&) { omv_rec_odr(); }
        static void error(const bom::openmethod_error&) { omv_rec_other(); }
        static void finalize(const std::tuple<>&) { omv_rec_fin(2, -1); }
    };
};
struct hash : bom::policies::type_hash {
    template<class Registry> struct fn { // not finalized
        template<class Ctx, class... O> static auto initialize(const Ctx&, const std::tuple<O...>&) { return std::pair<std::size_t, std::size_t>(0, 0); }
        static std::size_t hash(type_id) { return 0; }
        static void finalize() { omv_rec_fin(3, -1); }
    };
};
struct checks {
    using category = checks;
    template<class Registry> struct fn { template<class... O> static void finalize(std::tuple<O...> o) { omv_rec_fin(4, value_of(o)); } };
};
using W = bom::registry<omv::rtti, watch<0>, err>;
using F = bom::registry<omv::rtti, watch<1>, err>;
using N = bom::registry<omv::rtti>;
using E = bom::registry<omv::rtti, err>;
using Z = bom::registry<omv::rtti, checks, hash, err, watch<0>>;
template<class X> inline void prepare() {
    blank(X::classes); blank(X::methods);
    new (static_cast<void*>(&X::dispatch_data)) std::vector<bom::detail::word>();
    X::initialized = WAS; bom::detail::odr_check<X>::count = COUNT;
}
'''


def classes(reg, n):
    """n classes, unrelated"""
    p = ''
    for k in range(n):
        p += (' alignas(class_info) unsigned char cb%d[sizeof(class_info)]; blank(cb%d); auto& c%d = *reinterpret_cast<class_info*>(cb%d);'
              ' type_id b%d[] = {T[0]}; c%d.type = T[%d]; c%d.static_vptr = &VP[%d]; c%d.first_base = b%d; c%d.last_base = b%d; %s::classes.push_back(c%d);\n' % (
                  k, k, k, k, k, k, k, k, k, k, k, k, k, reg, k))
    return p


def run(ctx):
    ctx.explanation.append(
        'initialize and finalize are compiled for registries of a constant, small number of classes, an unknown initial state and an '
        'unknown number of definitions of the registry, with policies that record whether the registry looks initialized while they '
        'are initialized, or that fail then. The events and the final state must be those of the specification: nothing but '
        'the error for several definitions; otherwise not initialized while policies are, initialized afterwards, and '
        'not after finalize, which calls each policy that accepts the options, and leaves no dispatch data.')
    ctx.assumptions += ['a policy that fails does not return', 'clang 18 preserves semantics']
    jobs = []

    def add(tag, probe, ref):
        jobs.append('extern "C" int probe_%s() { %s }\nextern "C" int ref_%s() { %s }\n' % (tag, probe, tag, ref))
    for reg in 'WFNEZ':
        loud = reg != 'N'
        for n in (0, 1) if not ctx.thorough or reg not in 'WZ' else (0, 1, 2):
            pre = 'if (!distinct(%d)) return -1; ' % n + ''.join('if (T[%d] == T[%d]) return -1; ' % (i, j) for i in range(n) for j in range(i))
            probe = pre + ' prepare<%s>(); %s::dispatch_data.resize(3);\n' % (reg, reg) + classes(reg, n)
            odr = 'if (COUNT > 1) { %sabort(); } ' % ('omv_rec_odr(); ' if loud else '')
            during = {'W': 'omv_rec_vptr(false, 0); ', 'Z': 'omv_rec_vptr(false, 0); ', 'F': 'omv_rec_fail(false); '}.get(reg, '')
            for o, e in (('', ''), ('opt{OPT}', '1'), ('bom::n2216()', '2')):
                add('init_%s%d%s' % (reg, n, e), probe + ' bom::initialize<%s>(%s); return %s::initialized;' % (reg, o, reg), pre + odr + during + 'return 1;')
            if reg in 'WNZ':
                ev = {'W': 'omv_rec_fin(2, -1); omv_rec_fin(1, -1); ', 'Z': 'omv_rec_fin(4, -1); omv_rec_fin(2, -1); omv_rec_fin(1, -1); ', 'N': ''}[reg]
                ev = {'W': 'omv_rec_fin(1, -1); omv_rec_fin(2, -1); '}.get(reg, ev)
                add('over_%s%d' % (reg, n), probe + ' bom::initialize<%s>(); bom::finalize<%s>(); return !%s::initialized && %s::dispatch_data.empty();' % (reg, reg, reg, reg),
                    pre + odr + during + ev + 'return 1;')
    for reg in 'WNZE':
        for o, e in (('', ''), ('opt{OPT}', '1')):
            v = 'OPT' if o else '-1'
            two = '' if o else 'omv_rec_fin(2, -1); '
            ev = {'W': 'omv_rec_fin(1, %s); ' % v + two, 'N': '', 'E': two, 'Z': 'omv_rec_fin(4, %s); ' % v + two + 'omv_rec_fin(1, %s); ' % v}[reg]
            for k in (0, 1, 3):
                for how in ('bom::finalize<%s>' % reg, '%s::finalize' % reg):
                    add('finalize_%s%s%d%d' % (reg, e, k, how[0] == 'b'), ' prepare<%s>(); %s::dispatch_data.resize(%d); %s(%s); return !%s::initialized && %s::dispatch_data.empty();' % (
                        reg, reg, k, how, o, reg, reg), ev + 'return 1;')
        add('premature_' + reg, ' prepare<%s>(); %s::compiler<> c; c.install_global_tables(); return 0;' % (reg, reg), 'abort();')
        add('compile_only_' + reg, 'prepare<%s>(); %s::compiler<> c; c.compile(); return %s::initialized;' % (reg, reg, reg), 'return WAS;')
    n = 8
    for f in parallel(lambda k: initp.unit(ctx, 'i06_%d' % k, PRE + ''.join(jobs[k::n]), prelude=False, cap=2, flags=['-DOMV_WORDS=4'], depth=1, project=True, lists=True), list(range(n))):
        f.check('state')
