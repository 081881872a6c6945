"""P01: policy lists of registries - with, without, policy look-up, traits."""
import itertools, random
from teng import *

PRELUDE = r'''
#include <boost/openmethod.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <type_traits>
using namespace boost::openmethod;
namespace pol = boost::openmethod::policies;
template<int> struct tag {};
#define CAT(X) struct X { using category = X; }; \
  struct X##1 : X { template<class R> struct fn { using id = tag<1>; }; }; \
  struct X##2 : X { template<class R> struct fn { using id = tag<2>; }; }; \
  struct X##3 : X##2 { template<class R> struct fn { using id = tag<3>; }; };
CAT(A) CAT(B) CAT(C)
struct D final { using category = D; template<class R> struct fn {}; };
struct deferred : pol::deferred_static_rtti { template<class R> struct fn : pol::rtti::defaults {
  template<class C> static constexpr bool is_polymorphic = false; template<class C> static type_id static_type() { return nullptr; } }; };
template<class L, class... P> constexpr bool holds =
  boost::mp11::mp_size<L>::value == sizeof...(P) && (boost::mp11::mp_contains<L, P>::value && ... && true);
struct mine : registry<A1, pol::static_rtti> {};
'''

ERR = r'''
#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS
'''
POOL = ['A1', 'A2', 'A3', 'B1', 'B2', 'C1', 'D']


def cat(p):
    return p[0]


def py_with(lst, new):
    out = list(lst)
    for p in new:
        k = [i for i, q in enumerate(out) if cat(q) == cat(p)]
        if k:
            out[k[0]] = p
        else:
            out.append(p)
    return out


def py_without(lst, cats):
    return [p for p in lst if cat(p) not in cats]


def facts(ctx):
    F = []
    lists = [l for n in range(0, 4) for l in itertools.permutations(['A1', 'A2', 'B1', 'C1', 'D'], n)
             if len({cat(p) for p in l}) == len(l)]
    adds = [a for n in (1, 2, 3) for a in itertools.permutations(POOL, n)]
    removes = [r for n in (1, 2, 3) for r in itertools.permutations('ABCD', n)]
    rnd = random.Random(ctx.seed)
    limit = 12 if not ctx.thorough else 60

    def holds(t, l):
        return 'holds<%s>' % ', '.join(['typename %s::policy_list' % t] + list(l))
    for l in lists:
        R = 'registry<%s>' % ', '.join(l)
        short = [a for a in adds if len(a) == 1]
        for a in short + rnd.sample([x for x in adds if len(x) > 1], limit):
            w = py_with(l, a)
            F.append(('%s::with<%s>' % (R, ','.join(a)), holds('%s::with<%s>' % (R, ', '.join(a)), w)))
        for r in [x for x in removes if len(x) == 1] + rnd.sample([x for x in removes if len(x) > 1], min(limit, 20)):
            F.append(('%s::without<%s>' % (R, ','.join(r)), holds('%s::without<%s>' % (R, ', '.join(r)), py_without(l, r))))
        F.append(('%s::with<>' % R, holds(R + '::with<>', l)))
        F.append(('%s::without<>' % R, holds(R + '::without<>', l)))
        for c in 'ABCD':
            p = [q for q in l if cat(q) == c]
            want = '%s::fn<typename %s::registry_type>' % (p[0], R) if p else 'void'
            F.append(('%s::policy<%s>' % (R, c), 'std::is_same_v<typename %s::policy<%s>, %s>' % (R, c, want)))
    # a policy derived from another one is found under the common category
    F.append(('derived policy', 'std::is_same_v<registry<B1, A3>::policy<A>, A3::fn<registry<B1, A3>>>'))
    F.append(('derived policy, by base', 'std::is_same_v<registry<B1, A3>::policy<A2>, A3::fn<registry<B1, A3>>>'))
    F.append(('no policy of a derived kind', 'std::is_void_v<registry<B1, A2>::policy<A3>>'))
    F.append(('user registry', 'std::is_same_v<mine::policy<A>, A1::fn<registry<A1, pol::static_rtti>>>'))
    F.append(('user registry with', 'holds<mine::with<B1>::policy_list, A1, pol::static_rtti, B1>'))
    F.append(('user registry without', 'holds<mine::without<A>::policy_list, pol::static_rtti>'))
    # shipped policies, their categories and the traits of registries
    shipped = {'rtti': ['pol::std_rtti', 'pol::static_rtti', 'deferred'], 'vptr': ['pol::vptr_vector', 'pol::vptr_map<>'],
               'error_handler': ['pol::default_error_handler', 'pol::throw_error_handler'], 'output': ['pol::stderr_output'],
               'type_hash': ['pol::fast_perfect_hash'], 'indirect_vptr': ['pol::indirect_vptr'], 'runtime_checks': ['pol::runtime_checks']}
    kinds = list(shipped)
    for n in range(len(kinds) + 1):
        for ks in itertools.combinations(kinds, n):
            pick = {k: rnd.choice(shipped[k]) for k in ks}
            for_order = list(pick.values())
            rnd.shuffle(for_order)
            R = 'registry<%s>' % ', '.join(for_order)
            for k in kinds:
                want = '%s::fn<typename %s::registry_type>' % (pick[k], R) if k in pick else 'void'
                F.append(('%s::policy<%s>' % (R, k), 'std::is_same_v<typename %s::policy<pol::%s>, %s>' % (R, k, want)))
            for alias in ('rtti', 'vptr', 'error_handler', 'output'):
                want = '%s::fn<typename %s::registry_type>' % (pick[alias], R) if alias in pick else 'void'
                F.append(('%s::%s' % (R, alias), 'std::is_same_v<typename %s::%s, %s>' % (R, alias, want)))
            for trait, k in (('has_vptr', 'vptr'), ('has_error_handler', 'error_handler'), ('has_output', 'output'),
                             ('has_runtime_checks', 'runtime_checks'), ('has_indirect_vptr', 'indirect_vptr')):
                F.append(('%s::%s' % (R, trait), '%s::%s == %s' % (R, trait, 'true' if k in pick else 'false')))
            d = pick.get('rtti') == 'deferred'
            F.append(('%s::has_deferred_static_rtti' % R, '%s::has_deferred_static_rtti == %s' % (R, 'true' if d else 'false')))
    for k, ps in shipped.items():
        for p in ps:
            for q in ps:
                F.append(('%s replaces %s' % (p, q), 'holds<registry<A1, %s, B1>::with<%s>::policy_list, A1, %s, B1>' % (q, p, p)))
            F.append(('without %s removes %s' % (k, p), 'holds<registry<A1, %s, B1>::without<pol::%s>::policy_list, A1, B1>' % (p, k)))
    base = 'pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, pol::stderr_output'
    F.append(('default registry, checks off', 'holds<default_registry::policy_list, %s>' % base))
    F.append(('indirect registry, checks off', 'holds<indirect_registry::policy_list, %s, pol::indirect_vptr>' % base))
    G = [('default registry, checks on', 'holds<default_registry::policy_list, %s, pol::runtime_checks>' % base),
         ('indirect registry, checks on', 'holds<indirect_registry::policy_list, %s, pol::runtime_checks, pol::indirect_vptr>' % base),
         ('runtime checks detected', 'default_registry::has_runtime_checks && indirect_registry::has_runtime_checks'),
         ('indirection detected', '!default_registry::has_indirect_vptr && indirect_registry::has_indirect_vptr')]
    return F, G


def run(ctx):
    ctx.explanation.append(
        'Policy lists computed by with/without over enumerated lists of synthetic and shipped policies, policy look-up by '
        'category and every trait of the resulting registries are compared, during type checking, with an independent '
        'set-of-categories model (list order is not compared).')
    F, G = facts(ctx)
    for std in ((17, 20) if ctx.thorough else (17,)):
        Types(ctx, PRELUDE, std).facts('policy-list', F)
        Types(ctx, ERR + PRELUDE, std).facts('policy-list-checks-on', G)
