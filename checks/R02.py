"""R02: what registrars record."""
import re
from vlib import *
import flow, shapes, random, itertools

# where a registrar keeps the lists it points to is its own business
OWN = re.compile(r'(override_impl|use_class_aux)<.*>::\w+$')

PRE = '''
#define BODY(M) __builtin_memset(&M, 0, sizeof M)
using boost::openmethod::detail::class_info; using boost::openmethod::detail::method_info; using boost::openmethod::detail::overrider_info;
using boost::openmethod::detail::deferred_class_info; using boost::openmethod::detail::deferred_method_info; using boost::openmethod::detail::deferred_overrider_info;
// type ids that exist only once main() runs
template<class C> struct late { static type_id id; };
struct late_rtti : bom::policies::deferred_static_rtti {
    template<class Registry> struct fn : bom::policies::rtti::defaults {
        template<class C> static constexpr bool is_polymorphic = poly<std::remove_cv_t<C>>::value;
        template<class C> static auto static_type() -> type_id { return late<std::remove_cv_t<C>>::id; }
        template<class C> static auto dynamic_type(const C& obj) -> type_id { return dyn_type(obj); }
        template<typename D, typename B> static auto dynamic_cast_ref(B&& obj) -> D {
            return static_cast<D>(*static_cast<std::remove_reference_t<D>*>(
                dyn_cast<std::remove_cv_t<std::remove_reference_t<D>>>(std::addressof(obj))));
        }
    };
};
struct later : bom::registry<late_rtti, vptr> {};
struct fixed_rtti : bom::policies::deferred_static_rtti { template<class R> struct fn : omv::rtti::fn<R> {}; };
struct fixed : bom::registry<fixed_rtti, vptr> {};
struct Poly { virtual ~Poly(); };
'''


def ident(reg, c):
    return '(long)late<%s>::id' % c if reg == 'later' else '(long)&tid<%s>::id' % c


RETS = ['int', 'void', 'Poly&', 'Poly*', 'const Poly&', 'virtual_ptr<Poly, R>', 'Big', 'Big&', 'int&', 'int*']
RETID = {'int': 'void', 'void': 'void', 'Poly&': 'Poly', 'Poly*': 'Poly', 'const Poly&': 'Poly', 'virtual_ptr<Poly, R>': 'Poly', 'Big': None, 'Big&': None, 'int&': None, 'int*': None}
ORET = {'Poly&': 'SubPoly&', 'Poly*': 'SubPoly*', 'const Poly&': 'const SubPoly&'}


def method_unit(ctx, k, jobs):
    c = shapes.PRELUDE + PRE + 'struct SubPoly : Poly {};\n' + shapes.classes(max(len(j[0]) for j in jobs))
    T = [c]

    def two(tag, args, prb, ref):
        T.append('extern "C" void probe_%s(%s) { %s }\nextern "C" void ref_%s(%s) { %s }\n' % (tag, args, prb, tag, args, ref))
    for n, (w, reg, ret) in enumerate(jobs):
        sh = shapes.Shape(w)
        M = 'M%d' % n
        R = ret.replace(', R>', ', %s>' % reg)
        tag = '%s_%s_%d' % (w, reg, RETS.index(ret))
        T.append('struct id%d; using %s = method<id%d, %s(%s), %s>;\n' % (n, M, n, R, sh.sig(reg), reg))
        cls = ['%s%d' % ('F' if w[i] == 'f' else 'X', i) for i in sh.virt]
        a = len(cls)
        rid = ident(reg, RETID[ret] or 'ret_%d' % n)
        if RETID[ret] is None:
            T.append('using ret_%d = detail::virtual_type<%s, %s>;\n' % (n, R, reg))

        def see(x, ids, extra):
            return ('auto& x = %s; auto cnt = x.vp_end - x.vp_begin; n[0] = cnt; ' % x +
                    (''.join('id[%d] = (long)x.vp_begin[%d]; ' % (i, i) for i in range(a)) if ids else '') + extra)

        def spec(ids, extra):
            return 'n[0] = %d; ' % a + (''.join('id[%d] = %s; ' % (i, ident(reg, cl)) for i, cl in enumerate(cls)) if ids else '') + extra
        # --- methods
        obs = 'id[100] = (long)x.method_type_id; id[101] = (long)x.return_type_id; '
        fns = 'f[0] = x.not_implemented; f[1] = x.ambiguous; s[0] = x.slots_strides_ptr; n[1] = x.overriders.empty(); n[2] = (method_info*)&%s; ' % 'm'
        obsr = 'id[100] = %s; id[101] = %s; ' % (ident(reg, M), rid)
        fnsr = 'f[0] = (void(*)())&%s::fn_not_implemented; f[1] = (void(*)())&%s::fn_ambiguous; s[0] = m.slots_strides; n[1] = 1; ' % (M, M)
        fns = fns.replace(' n[2] = (method_info*)&m; ', ' ')
        args = '%s& m, long* id, long* n, void(**f)(), std::size_t** s, bool* in' % M
        pre = 'BODY(m); BODY(%s::methods); ' % reg
        end = 'BODY(m); BODY(%s::methods); ' % reg
        obs_l = 'auto it = %s::methods.begin(); in[0] = it != %s::methods.end() && &*it == &m; if (in[0]) { ++it; in[1] = it == %s::methods.end(); } ' % (reg, reg, reg)
        push = 'in[0] = true; in[1] = true; '
        res = 'm.%s::resolve_type_ids(); ' % M if reg == 'later' else ''
        two('method_' + tag, args, pre + 'new (&m) %s; %s%s' % (M, res, see('m', True, obs + fns)) + obs_l + end,
            pre + push + spec(True, obsr + fnsr) + end)
        if reg == 'later':
            zero = 'id[100] = (long)x.method_type_id; id[101] = (long)x.return_type_id; ' + ''.join('id[%d] = (long)x.vp_begin[%d]; ' % (i, i) for i in range(a))
            two('method_static_' + tag, args, pre + 'new (&m) %s; %s' % (M, see('m', False, zero)) + obs_l + end,
                pre + push + spec(False, 'id[100] = id[101] = 0; ' + ''.join('id[%d] = 0; ' % i for i in range(a))) + end)
        # --- overriders: every virtual parameter in a derived class
        oc = ['%s%d' % ('G' if w[i] == 'f' else 'D', i) for i in sh.virt]
        osig = sh.sig(reg, sh.types)
        for i in sh.virt:
            osig = osig.replace('X%d' % i, 'D%d' % i).replace('F%d' % i, 'G%d' % i)
        OR = ORET.get(ret, R)
        T.append('%s ov%d(%s); using O%d = %s::override_impl<ov%d, %s>;\n' % (OR, n, osig, n, M, n, OR))
        T.append('using Fn%d = decltype(&ov%d);\n' % (n, n))
        orid = ident(reg, 'SubPoly') if ret in ORET else rid

        def ospec(ids, extra):
            return 'n[0] = %d; ' % a + (''.join('id[%d] = %s; ' % (i, ident(reg, cl)) for i, cl in enumerate(oc)) if ids else '') + extra
        args = 'O%d& o, %s::FunctionPointer* given, long* id, long* n, void(**f)(), void(***x_next)(), void** mm, bool* in' % (n, M)
        obs = 'id[100] = (long)x.type; id[101] = (long)x.return_type; '
        obsr = 'id[100] = %s; id[101] = %s; ' % (ident(reg, 'Fn%d' % n), orid)
        fns = 'f[0] = x.pf; x_next[0] = x.next; mm[0] = x.method; '
        fnsr = 'f[0] = (void(*)())&%s::thunk<ov%d, Fn%d>::fn; x_next[0] = (void(**)())%%s; mm[0] = static_cast<method_info*>(&%s::fn); ' % (M, n, n, M)
        pre = 'BODY(o); BODY(%s::fn.overriders); ' % M
        end = 'BODY(o); BODY(%s::fn.overriders); ' % M
        obs_l = 'auto it = %s::fn.overriders.begin(); in[0] = it != %s::fn.overriders.end() && &*it == &o; if (in[0]) { ++it; in[1] = it == %s::fn.overriders.end(); } ' % (M, M, M)
        push = 'in[0] = true; in[1] = true; '
        res = 'o.O%d::resolve_type_ids(); ' % n if reg == 'later' else ''
        two('overrider_' + tag, args, pre + 'new (&o) O%d; %s%s' % (n, res, see('o', True, obs + fns)) + obs_l + end,
            pre + push + ospec(True, obsr + fnsr % ('&%s::next<ov%d>' % (M, n))) + end)
        two('overrider_next_' + tag, args, pre + 'new (&o) O%d(given); %s%s' % (n, res, see('o', True, obs + fns)) + obs_l + end,
            pre + push + ospec(True, obsr + fnsr % 'given') + end)
        if reg == 'later':
            z = ''.join('id[%d] = (long)x.vp_begin[%d]; ' % (i, i) for i in range(a))
            two('overrider_static_' + tag, args, pre + 'new (&o) O%d; %s' % (n, see('o', False, obs + z)) + obs_l + end,
                pre + push + ospec(False, 'id[100] = id[101] = 0; ' + ''.join('id[%d] = 0; ' % i for i in range(a))) + end)
    return flow.Flow(ctx, 'r02_m%d' % k, ''.join(T), distinct=True, refargs=True, ignore=OWN.search, zero=OWN)


CLS = '''
struct A { virtual ~A(); }; struct B : A { virtual void pure() = 0; }; struct C : A {}; struct D : B { void pure() override; };
struct E : virtual A {}; struct G : virtual E, virtual A {}; struct H : D, Poly {}; struct I { virtual ~I(); virtual void p() = 0; };
struct J : H, I { };
struct K : private A { }; 
inline long typ(type_id t) { return (long)t; }
inline long bases(const class_info& c) {
    long s = 0; auto n = c.last_base - c.first_base;
#define ONE(i) if (n > i && c.first_base[i] != c.type) s += (long)c.first_base[i];
    ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7)
    return s;
}
inline long proper(const class_info& c) {
    long s = 0; auto n = c.last_base - c.first_base;
#undef ONE
#define ONE(i) if (n > i && c.first_base[i] != c.type) s += 1;
    ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7)
    return s + (n > 8 ? 1000 : 0);
}
'''
BASES = {'A': '', 'B': 'A', 'C': 'A', 'D': 'BA', 'E': 'A', 'G': 'EA', 'H': 'DBA', 'I': '', 'J': 'HDBAI'}
ABSTRACT = 'BIJ'


def class_unit(ctx, reg, lists, name):
    T = [shapes.PRELUDE + PRE + CLS]
    for k, l in enumerate(lists):
        tag = '%s_%s' % (''.join(l), reg)
        U = 'U%d' % k
        T.append('using %s = use_classes<%s, %s>;\n' % (U, ', '.join(l), reg))
        want = list(dict.fromkeys(l))
        args = '%s& u, long* seen, long* b, long* nb, bool* abs, const vptr_type** sv, long* total' % U
        look = 'auto i = %s::classes.begin(); total[0] = 0; ' % reg
        for j in range(len(l)):
            look += 'if (i != %s::classes.end()) { total[0]++; auto& c = *i; ' % reg
            for x, cl in enumerate(want):
                # classes are told apart by their v-table pointer
                look += 'if (c.static_vptr == &%s::static_vptr<%s>) { seen[%d] = (long)c.type; b[%d] = bases(c); nb[%d] = proper(c); abs[%d] = c.is_abstract; } ' % (reg, cl, x, x, x, x)
            look += '++i; } '
        look += 'total[1] = i == %s::classes.end(); ' % reg
        wipe = '__builtin_memset(&%s::classes, 0, sizeof %s::classes); BODY(u); ' % (reg, reg)
        spec = 'total[0] = %d; total[1] = true; ' % len(l)
        for x, cl in enumerate(want):
            bs = [b for b in BASES[cl] if b in want]
            spec += 'seen[%d] = %s; b[%d] = 0%s; nb[%d] = %d; abs[%d] = %s; ' % (
                x, ident(reg, cl), x, ''.join(' + ' + ident(reg, b) for b in bs), x, len(bs), x, 'true' if cl in ABSTRACT else 'false')
        T.append('extern "C" void probe_%s(%s) { %s%snew (&u) %s; %s %s }\n' % (tag, args, wipe, '', U, look, 'wipe_%s(&u, sizeof u);' % tag))
        T.append('extern "C" void ref_%s(%s) { %s %s %s }\n' % (tag, args, wipe, spec, 'wipe_%s(&u, sizeof u);' % tag))
        T.insert(1, 'inline void wipe_%s(void* u, std::size_t n) { __builtin_memset(u, 0, n); __builtin_memset(&%s::classes, 0, sizeof %s::classes); }\n' % (tag, reg, reg))
    return flow.Flow(ctx, name, ''.join(T), distinct=True, refargs=True, ignore=OWN.search, zero=OWN)


def deferred_class_unit(ctx, lists):
    """class registrars of a registry with deferred RTTI."""
    T = [shapes.PRELUDE + PRE + CLS]
    for k, l in enumerate(lists):
        tag = ''.join(l)
        U = 'U%d' % k
        T.append('using %s = detail::use_class_aux<fixed, boost::mp11::mp_list<%s>>;\n' % (U, ', '.join(l)))
        args = '%s& u, long* out, bool* in, const vptr_type** sv' % U
        pre = 'BODY(u); BODY(fixed::classes); '
        see = ('out[%d] = (long)u.type; out[%d] = bases(u); out[%d] = proper(u); ')
        look = 'auto it = fixed::classes.begin(); in[0] = it != fixed::classes.end() && &*it == &u; if (in[0]) { ++it; in[1] = it == fixed::classes.end(); } in[2] = u.is_abstract; sv[0] = u.static_vptr; '
        c, bs = l[0], [b for b in l[1:] if b != l[0]]
        T.append('extern "C" void probe_deferred_%s(%s) { %s new (&u) %s; %s u.%s::resolve_type_ids(); %s %s %s }\n' % (
            tag, args, pre, U, see % (0, 1, 2), U, see % (3, 4, 5), look, pre))
        T.append('extern "C" void ref_deferred_%s(%s) { %s out[0] = 0; out[1] = 0; out[3] = (long)&tid<%s>::id; out[4] = 0%s; out[5] = %d; in[0] = in[1] = true; in[2] = %s; sv[0] = &fixed::static_vptr<%s>; %s }\n' % (
            tag, args, pre, c, ''.join(' + (long)&tid<%s>::id' % b for b in bs), len(bs), 'true' if c in ABSTRACT else 'false', c, pre))
    return flow.Flow(ctx, 'r02_deferred', ''.join(T).replace('out[2] = proper(u); ', ''), distinct=True, refargs=True, ignore=OWN.search, zero=OWN)


def run(ctx):
    ctx.explanation.append(
        'The constructor of every enumerated registrar is inlined and normalised; what the information structures then '
        'hold - read the way initialization reads them - must be the identities of the declaration, and the registrar '
        'must be in its list. With deferred RTTI the static part must not contain any type id, and the resolution '
        'function, called the way initialization calls it, must record them all.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'registrars have static storage duration (zero-initialized)']
    words = ['v', 'p', 'l', 'r', 'q', 'f', 'c', 's', 'vn', 'nv', 'vp', 'pv', 'vvv', 'nvnpn', 'ppn', 'vpcl', 'sq', 'fns', 'vvvvv']
    rng = random.Random(1)
    if ctx.thorough:
        words = shapes.quick_shapes()
    regs = ['plain', 'later', 'indirect']
    jobs = []
    for k, w in enumerate(words):
        for r, reg in enumerate(regs):
            if r < 2 or ctx.thorough or k % 5 == 0:
                jobs.append((w, reg, RETS[(k + r) % len(RETS)]))
    jobs += [('v', reg, r) for reg in regs[:2] for r in RETS]
    jobs = list(dict.fromkeys(jobs))
    size = 12
    for f in parallel(lambda p: method_unit(ctx, p[0], p[1]), [(i, jobs[i:i + size]) for i in range(0, len(jobs), size)]):
        f.check('method-and-overrider-registrars')
    lists = [('A',), ('A', 'B'), ('B', 'A'), ('A', 'B', 'C'), ('C', 'B', 'A'), ('D', 'A'), ('B', 'D', 'A'), ('A', 'E', 'G'),
             ('G', 'E', 'A'), ('H', 'B'), ('I', 'A', 'J'), ('A', 'C', 'I'), ('E', 'C')]
    if ctx.thorough:
        lists += [p for n in (2, 3) for p in itertools.permutations('ABCDEHI', n)]
        lists += [('J', 'H', 'D', 'B', 'A', 'I'), ('A', 'I', 'B', 'D', 'H', 'J')]
        lists = list(dict.fromkeys(lists))
    cj = [(reg, lists[i:i + 30], 'r02_c_%s%d' % (reg, i)) for reg in ('plain', 'indirect') for i in range(0, len(lists), 30)]
    for f in parallel(lambda p: class_unit(ctx, *p), cj):
        f.check('class-registrars')
    deferred_class_unit(ctx, ['AA', 'BA', 'CAC', 'DBA', 'DADB', 'EA', 'GEA', 'HDBA', 'JHDBAI', 'II', 'JIABDH']).check('deferred-class-registrars')
