"""P04: the RTTI policies, as value graphs."""
from vlib import *
import flow

PRE = r'''
#include <probe.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <typeinfo>
#include <typeindex>
using namespace omv; using namespace boost::openmethod;
struct Y { virtual ~Y(); long y; };
struct X { virtual ~X(); long x; };
struct D : Y, X { long d; };
struct V : virtual Y, virtual X { long v; };
struct P { long p; };             // not polymorphic
struct Q : P { virtual ~Q(); };
union U { int a; }; enum E { e }; enum class EC { f };
namespace n1 { struct X { int a; }; struct W {}; } namespace n2 { struct X { int a; }; struct W {}; }
namespace { struct L { virtual ~L(); }; struct M { virtual ~M(); }; }
template<class T> struct TT { T t; };
using SR = policies::std_rtti::fn<plain>;
using TR = policies::static_rtti::fn<plain>;
struct sreg : registry<policies::std_rtti, omv::vptr> {};
struct treg : registry<policies::static_rtti, omv::vptr> {};
struct Os {}; void os_name(const char*, std::size_t); void os_id(const void*);
inline Os& operator<<(Os& o, const char*) { return o; }
inline Os& operator<<(Os& o, const void* p) { os_id(p); return o; }
inline Os& operator<<(Os& o, const std::string& s) { os_name(s.data(), s.size()); return o; }
'''
CLASSES = ['X', 'Y', 'D', 'V', 'P', 'Q', 'n1::X', 'n2::X', 'n1::W', 'n2::W', 'TT<int>', 'TT<long>', 'TT<TT<int>>', 'L', 'M', 'sreg', 'treg',
           'int', 'unsigned', 'char', 'U', 'E', 'EC', 'X*', 'D*', 'void(*)(int)', 'void(*)(X&)']


def code(ctx):
    T = []

    def two(tag, ret, args, prb, ref):
        T.append('extern "C" %s probe_%s(%s) { %s }\nextern "C" %s ref_%s(%s) { %s }\n' % (ret, tag, args, prb, ret, tag, args, ref))
    for i, c in enumerate(CLASSES):
        for r, F in (('fn', 'SR'), ('reg', 'sreg::rtti')):
            two('static_%s_%d' % (r, i), 'const void*', '', 'return %s::static_type<%s>();' % (F, c), 'return &typeid(%s);' % c)
            two('const_%s_%d' % (r, i), 'const void*', '', 'return %s::static_type<const %s>();' % (F, c) if '*' not in c else 'return &typeid(%s);' % c, 'return &typeid(%s);' % c)
    poly = ['X', 'D', 'V', 'Q', 'L', 'Y']
    for c in poly + ['P', 'int', 'TT<int>']:
        n = c.replace('<', '').replace('>', '')
        two('dynamic_' + n, 'const void*', 'const %s& o' % c, 'return SR::dynamic_type(o);', 'return &typeid(o);')
    for c in poly + ['P', 'int']:
        two('poly_' + c, 'bool', '', 'return SR::is_polymorphic<%s>;' % c, 'return std::is_polymorphic_v<%s>;' % c)
        two('notpoly_' + c, 'bool', '', 'return TR::is_polymorphic<%s>;' % c, 'return false;')
    # identity is that of the types, not that of the addresses of their type_infos
    two('same_type', 'bool', 'const std::type_info& a, const std::type_info& b', 'return SR::type_index(&a) == SR::type_index(&b);', 'return a == b;')
    two('other_type', 'bool', 'const std::type_info& a, const std::type_info& b', 'return SR::type_index(&a) != SR::type_index(&b);', 'return !(a == b);')
    two('hash', 'std::size_t', 'const std::type_info& a', 'return std::hash<decltype(SR::type_index(&a))>()(SR::type_index(&a));', 'return a.hash_code();')
    two('index_id', 'bool', 'const void* a, const void* b', 'return TR::type_index(a) == TR::type_index(b);', 'return a == b;')
    # casts
    for s, d in (('X', 'D'), ('X', 'V'), ('Y', 'X'), ('D', 'X'), ('V', 'D'), ('X', 'X'), ('V', 'Y')):
        two('cast_%s%s' % (s, d), 'const void*', s + '& o', 'return &SR::dynamic_cast_ref<%s&>(o);' % d, 'return &dynamic_cast<%s&>(o);' % d)
        two('ccast_%s%s' % (s, d), 'const void*', 'const %s& o' % s, 'return &SR::dynamic_cast_ref<const %s&>(o);' % d, 'return &dynamic_cast<const %s&>(o);' % d)
        two('rcast_%s%s' % (s, d), 'const void*', s + '& o', '%s&& r = SR::dynamic_cast_ref<%s&&>(std::move(o)); return &r;' % (d, d),
            '%s&& r = dynamic_cast<%s&&>(o); return &r;' % (d, d))
    # static_rtti: one id per type, always the same
    for i, a in enumerate(CLASSES):
        two('sid_%d' % i, 'bool', '', 'return TR::static_type<%s>() && TR::static_type<%s>() == TR::static_type<%s>();' % (a, a, a), 'return true;')
        for j, b in enumerate(CLASSES[:i]):
            two('sdiff_%d_%d' % (j, i), 'bool', '', 'return TR::static_type<%s>() == TR::static_type<%s>();' % (a, b), 'return false;')
            if (i + j) % 4 == 0 or ctx.thorough:
                two('rdiff_%d_%d' % (j, i), 'bool', '', 'return treg::rtti::static_type<%s>() == treg::rtti::static_type<%s>();' % (a, b), 'return false;')
    # names
    two('name_default', 'void', 'const void* t', 'Os os; TR::type_name(t, os);', 'Os os; os << t;')
    return ''.join(T)


def run(ctx):
    ctx.explanation.append(
        'The functions of std_rtti and static_rtti are normalised to gated value graphs for the enumerated types and compared '
        'with typeid, type_info equality and dynamic_cast; ids given by static_rtti are decided to be the addresses of '
        'different variables for every pair of the enumerated types.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'libstdc++']
    fl = parallel(lambda s: flow.Flow(ctx, 'rtti_%d' % s, PRE + code(ctx), std=s), [17, 20] if ctx.thorough else [17])
    for f in fl:
        f.check('rtti-policy')
    # classes are looked up by type index, wherever several ids may denote one class
