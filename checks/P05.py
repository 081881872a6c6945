"""P05: the shipped vptr policies return the v-table of the dynamic class."""
from vlib import *
import initp, itertools

PRE = r'''
#include "probe.hpp"
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
using namespace omv;
extern "C" {
    // type ids are unknown; they are made of numbers that leave room for one more
    extern const unsigned N0, N1, N2, N3, NX;
    extern vptr_type VP0, VP1, VP2, VP3;
    extern const std::size_t HMIN, HMAX;
    void omv_rec_missing_class(type_id) noexcept; void omv_rec_other() noexcept; void omv_rec_touch() noexcept; void omv_rec_hash_init() noexcept; void omv_rec_hash_finalize() noexcept;
    __attribute__((pure, nothrow)) std::size_t omv_hash(type_id);
}
inline type_id id(unsigned n) { return type_id(std::uintptr_t(n)); }
struct obj { type_id t; };
struct types : bom::policies::rtti {
    template<class Registry> struct fn : bom::policies::rtti::defaults {
        template<class C> static constexpr bool is_polymorphic = true;
        template<class C> static auto static_type() -> type_id { return &tid<C>::id; }
        static auto dynamic_type(const obj& o) -> type_id { return o.t; }
    };
};
struct recorder : bom::policies::error_handler {
    template<class Registry> struct fn {
        static void error(const bom::missing_class& e) { omv_rec_missing_class(e.type); }
        static void error(const bom::openmethod_error&) { omv_rec_other(); }
    };
};
inline void distinct_hashes() {
    const std::size_t h[] = {omv_hash(id(N0)), omv_hash(id(N1)), omv_hash(id(N2)), omv_hash(id(N3))};
    for (int i = 0; i < 4; ++i) { if (!(h[i] < HMAX + 1)) abort(); for (int j = 0; j < i; ++j) if (h[i] == h[j]) abort(); }
}
struct hashp : bom::policies::type_hash {
    template<class Registry> struct fn {
        template<class C, class... O> static auto initialize(const C&, const std::tuple<O...>&) { omv_rec_hash_init(); distinct_hashes(); return std::pair<std::size_t, std::size_t>(HMIN, HMAX); }
        static auto hash(type_id t) -> std::size_t { return omv_hash(t); }
        template<class... O> static void finalize(const std::tuple<O...>&) { omv_rec_hash_finalize(); }
    };
};
// what a vptr policy is given: the classes
struct klass {
    type_id ids[4]; std::size_t n; const vptr_type* v;
    auto type_id_begin() const -> const type_id* { return ids; }
    auto type_id_end() const -> const type_id* { return ids + n; }
    auto vptr() const -> const vptr_type& { return *v; }
};
template<int N> struct context {
    klass classes[N ? N : 1];
    bool tr = false;
    template<class Option> static constexpr bool has_option = false;
    auto classes_begin() const -> const klass* { return classes; }
    auto classes_end() const -> const klass* { return classes + N; }
};
template<class... X> using vec = bom::registry<types, bom::policies::vptr_vector, X...>;
template<class... X> using hashed = bom::registry<types, bom::policies::vptr_vector, hashp, X...>;
template<class... X> using map = bom::registry<types, bom::policies::vptr_map<>, X...>;
using thru = bom::policies::indirect_vptr; using checks = bom::policies::runtime_checks;
template<class R> using pol = typename R::template policy<bom::policies::vptr>;
const std::tuple<> none;
'''
# the order of the numbers: the greatest decides the size of the table
ORDERS = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1), (1, 2, 0)], 4: [(0, 1, 2, 3), (2, 3, 0, 1), (3, 1, 2, 0)]}


def ctxt(name, classes):
    """classes: [(vptr, [ids])]"""
    r = 'context<%d> %s;' % (len(classes), name)
    for i, (v, ids) in enumerate(classes):
        r += ' {auto& k = %s.classes[%d]; k.n = %d; k.v = &VP%d;%s}' % (name, i, len(ids), v, ''.join(' k.ids[%d] = id(N%s);' % x for x in enumerate(ids)))
    return r


def run(ctx):
    ctx.explanation.append(
        'vptr_vector and vptr_map, with and without type_hash, indirect_vptr, runtime_checks and an error handler, are '
        'compiled with their tables replaced by a model of a vector of unknown size (the value that fills it and the '
        'elements that were written) and of a map, initialized from an unknown previous state with contexts of a constant '
        'number of classes and unknown type ids, and then asked for the v-table of an object of an unknown id: it must be '
        'that of the class, read through its static_vptr when indirect; a v-table of an unregistered id must not be '
        'returned, and missing_class reported. Accesses out of the bounds of the table are events.')
    ctx.assumptions += ['the ids of the classes are distinct; without type_hash they are less than SIZE_MAX', 'type_hash maps registered ids to distinct numbers that do not exceed the maximum that it returns (P06)', 'clang 18 preserves semantics']
    shapes = [[1], [1, 1], [2, 1], [1, 2]] + ([[1, 1, 1], [2, 2], [3, 1]] if ctx.thorough else [])
    out = []
    n = 0
    for kind, ind, chk in itertools.product(('vec', 'hashed', 'map'), (0, 1), (0, 1, 2)):
        reg = '%s<%s>' % (kind, ', '.join(['thru'] * ind + ['checks'] * (chk > 0) + ['recorder'] * (chk == 2)))
        if kind == 'hashed' and chk == 1:
            continue

        def lookup(x):
            return 'return pol<R>::dynamic_vptr(obj{id(N%s)});' % x

        def missing(x):
            return ('omv_rec_missing_class(id(N%s)); ' % x if chk == 2 else '') + 'abort();'

        def emit(ids, orders, pre, post, spec, tag):
            nonlocal n
            for o in (orders if kind == 'vec' else orders[:1]):
                assume = ' if (!VP0 || !VP1 || !VP2 || !VP3) return nullptr;'
                if kind == 'vec':
                    assume += ''.join(' if (!(N%s < N%s)) return nullptr;' % (ids[a], ids[b]) for a, b in zip(o, o[1:]))
                for a, b in itertools.combinations(range(4) if kind == 'hashed' else ids, 2):
                    assume += ' if (N%s == N%s) return nullptr;' % (a, b)
                p, s = pre, spec
                name = '%s_%d' % (tag, n)
                n += 1
                out.append('extern "C" vptr_type probe_%s() { using R = %s;%s %s %s }\nextern "C" vptr_type ref_%s() { using R = %s;%s %s }\n' % (
                    name, reg, assume, p, post, name, reg, assume, s))
        tag = '%s%s%s' % (kind, '_indirect' if ind else '', ['', '_checked', '_reported'][chk])
        touch = 'omv_rec_touch(); ' if ind else ''
        hi = 'omv_rec_hash_init(); distinct_hashes(); ' if kind == 'hashed' else ''
        fresh = ' pol<R>::finalize(none);'
        for sh in shapes:
            it = iter(range(9))
            cl = [(c, [next(it) for _ in range(k)]) for c, k in enumerate(sh)]
            total = sum(sh)
            init = (fresh if kind == 'map' else '') + ctxt('c', cl) + ' pol<R>::initialize(c, none); ' + touch
            for c, ids in cl:
                for i in ids:
                    emit(list(range(total)), ORDERS[total], init, lookup(i), hi + touch + 'return VP%d;' % c, tag)
            if chk and kind != 'hashed':
                emit(list(range(total)), ORDERS[total], init + ''.join('if (NX == N%d) return nullptr; ' % i for i in range(total)), lookup('X'), touch + ''.join('if (NX == N%d) return nullptr; ' % i for i in range(total)) + missing('X'), tag + '_unknown')
        # a second initialization replaces the first; another registry has its own; finalize forgets
        a, b = ctxt('c', [(0, [0]), (1, [1])]), ctxt('d', [(2, [1])])
        two = fresh + a + b + ' pol<R>::initialize(c, none); pol<R>::initialize(d, none); '
        emit([0, 1], ORDERS[2], two, lookup(1), hi + hi + 'return VP2;', tag + '_again')
        q = 'bom::registry<types, bom::policies::%s, recorder%s>' % ({'vec': 'vptr_map<>', 'hashed': 'vptr_vector', 'map': 'vptr_vector'}[kind], ', thru' if ind else '')
        other = fresh + a + b + ' using Q = %s; pol<Q>::finalize(none); pol<R>::initialize(c, none); pol<Q>::initialize(d, none); pol<Q>::finalize(none); ' % q
        emit([0, 1], ORDERS[2][:1], other, lookup(1), hi + 'return VP1;', tag + '_other')
        if chk and kind != 'hashed':
            emit([0, 1], ORDERS[2], two, lookup(0), missing(0), tag + '_again')
            emit([0, 1], ORDERS[2], fresh + a + ' pol<R>::initialize(c, none); pol<R>::finalize(none); ', lookup(1), missing(1), tag + '_finalized')
    k = 16
    for f in parallel(lambda i: initp.unit(ctx, 'p05_%d' % i, PRE + ''.join(out[i::k]), prelude=False, cap=8, flags=['-DOMV_TABLES'], project=True, constraints=True), list(range(k))):
        f.check('vptr-policy')
