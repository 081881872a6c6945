"""S01: ownership across casts, conversions, calls and the make functions, with
the standard and Boost smart pointers."""
from vlib import *
import flow

PRE = r'''
#include <bits/c++config.h>
#include <bits/gthr.h>
#undef __GTHREADS
#include <memory>
#include <boost/smart_ptr/intrusive_ptr.hpp>
#include <probe.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
using namespace omv; using namespace boost::openmethod;
void hook_delete(const volatile void*); void hook_other();
struct Y { virtual ~Y(); long y; };
struct X { virtual ~X(); long x; long rc; };
struct D : Y, X { D(); D(int, long&&); long d; };
struct V : virtual Y, virtual X { V(); long v; };
// classes whose destruction is one recorded event
struct UY { long y; };
struct UX { ~UX() { hook_delete(this); } long x; };
struct UD : UY, UX { long d; };
struct UV : virtual UY, virtual UX { long v; };
template<> struct omv::poly<UX> : std::true_type {}; template<> struct omv::poly<UD> : std::true_type {}; template<> struct omv::poly<UV> : std::true_type {};
// the count of an object that has an owner
#define LIVE(c) do { if ((c) < 1 || (c) > 1000000) __builtin_unreachable(); } while (0)
inline void intrusive_ptr_add_ref(const X* p) { ++const_cast<X*>(p)->rc; }
inline void intrusive_ptr_release(const X* p) { if (--const_cast<X*>(p)->rc == 0) hook_delete(p); }
template<class T> using up = std::unique_ptr<T>;
template<class T> using shp = std::shared_ptr<T>;
template<class T> using ip = boost::intrusive_ptr<T>;
template<class C> struct rttidyn { template<class T> static C& ref(T& t) { return *(C*) dyn_cast<std::remove_cv_t<C>>(&t); } };
// a registry whose dynamic casts are observable: they may throw
template<class C> void* dcast_ev(const volatile void*);
struct rtti_ev : omv::rtti { template<class R> struct fn : omv::rtti::fn<R> {
    template<typename D, typename B> static auto dynamic_cast_ref(B&& obj) -> D {
        return static_cast<D>(*static_cast<std::remove_reference_t<D>*>(dcast_ev<std::remove_cv_t<std::remove_reference_t<D>>>(std::addressof(obj)))); } }; };
struct castev : registry<rtti_ev, omv::vptr> {};
template<class T> union Hold { T p; Hold() {} ~Hold() {} };
template<class T> void live(const shp<T>& p) { if (p._M_refcount._M_pi) { LIVE(p._M_refcount._M_pi->_M_use_count); LIVE(p._M_refcount._M_pi->_M_weak_count); } }
template<class T> void live(const ip<T>& p) { if (p.px) LIVE(p.px->rc); }
template<class T> void live(const up<T>& p) {}
template<class T> void livenn(const shp<T>& p) { if (!p._M_ptr) __builtin_unreachable(); live(p); }
template<class T> void livenn(const ip<T>& p) { if (!p.px) __builtin_unreachable(); live(p); }
template<class T> void livenn(const up<T>& p) { if (!p.get()) __builtin_unreachable(); }
template<class T, class P> void put(P* out, T&& x) { new(out) P(std::forward<T>(x)); }
'''


def casts(reg, std=17):
    """virtual_traits<>::cast of every shipped smart pointer"""
    T = []

    def two(tag, args, prb, ref):
        tag += '_' + reg
        T.append('extern "C" void probe_%s(%s) { using R = %s; %s }\nextern "C" void ref_%s(%s) { using R = %s; %s }\n' % (tag, args, reg, prb, tag, args, reg, ref))
    for a, b, dyn in (('X', 'D', 0), ('X', 'V', 1), ('X', 'X', 0), ('D', 'X', 0), ('const X', 'const D', 0), ('const X', 'const V', 1)):
        n = (a + b).replace('const ', 'c')
        to = lambda p: 'dynref<%s>(*%s)' % (b, p) if dyn else 'static_cast<%s&>(*%s)' % (b, p)
        dref = lambda p: 'rttidyn<%s>::ref(*%s)' % (b, p) if dyn else 'static_cast<%s&>(*%s)' % (b, p)
        two('unique_' + n, 'up<%s>& s, up<%s>* out' % (a, b),
            'livenn(s); put(out, virtual_traits<up<%s>, R>::template cast<up<%s>>(std::move(s)));' % (a, b),
            'livenn(s); %s* q = &%s; s.release(); new(out) up<%s>(q);' % (b, dref('s'), b))
        for arg, tag in (('const %s<%s>& s', 'clv'), ('%s<%s>& s', 'lv'), ('%s<%s>&& s', 'rv'), ):
            for w in ('ip', 'shp'):
                e = 'std::move(s)' if tag == 'rv' else 's'
                if w == 'ip':
                    sref = '%s* q = &%s; new(out) ip<%s>(q);' % (b, dref('s'), b)
                else:
                    sref = 'new(out) shp<%s>(std::%s_pointer_cast<%s>(%s));' % (b, 'dynamic' if dyn else 'static', b, e if std > 17 else 's')
                two('%s_%s_%s' % (w, n, tag), arg % (w, a) + ', %s<%s>* out' % (w, b),
                    'livenn(s); put(out, virtual_traits<%s<%s>, R>::template cast<%s<%s>>(%s));' % (w, a, w, b, e),
                    'livenn(s); ' + sref)
                if a != b and tag != 'rv':
                    for t in ('const %s<%s>&', '%s<%s>'):
                        two('%s_%s_ref_%s_%s' % (w, n, tag, 'c' if '&' in t else 'v'), arg % (w, a) + ', %s<%s>* out' % (w, b),
                            'livenn(s); put(out, virtual_traits<const %s<%s>&, R>::template cast<%s>(%s));' % (w, a, t % (w, b), e),
                            'livenn(s); ' + sref)
    return ''.join(T)



def throwing(reg='castev'):
    """the source still owns the object while the cast, which may throw, is done"""
    T = []
    for a, b in (('X', 'V'), ('const X', 'const V')):
        n = (a + b).replace('const ', 'c')
        dc = '(%s*) dcast_ev<%s>(s.get())' % (b, b.replace('const ', ''))
        T.append('extern "C" void probe_unique_%s(up<%s>& s, up<%s>* out) { livenn(s); put(out, virtual_traits<up<%s>, %s>::template cast<up<%s>>(std::move(s))); }\n'
                 'extern "C" void ref_unique_%s(up<%s>& s, up<%s>* out) { livenn(s); %s* q = %s; s.release(); new(out) up<%s>(q); }\n' % (n, a, b, a, reg, b, n, a, b, b, dc, b))
        vp = 'virtual_ptr<up<%s>, %s>' 
        va, vb = vp % (a, reg), vp % (b, reg)
        T.append('extern "C" void probe_vunique_%s(%s& s, up<%s>* out) { livenn(s.obj); %s r = std::move(s).template cast<%s>(); put(out, std::move(r.obj)); }\n'
                 'extern "C" void ref_vunique_%s(%s& s, up<%s>* out) { livenn(s.obj); %s* q = %s; s.obj.release(); new(out) up<%s>(q);}\n' % (n, va, b, vb, b, n, va, b, b, dc.replace('s.get', 's.obj.get'), b))
    return ''.join(T)


def vps(reg):
    """virtual_ptrs to the shipped smart pointers"""
    T = []
    ind = 'indirect' in reg
    null = '(const vptr_type*) &detail::null_vptr' if ind else '(vptr_type) nullptr'
    w = (lambda e: '&' + e) if ind else (lambda e: e)

    def two(tag, args, prb, ref):
        tag += '_' + reg
        T.append('extern "C" void probe_%s(%s) { using R = %s; %s }\nextern "C" void ref_%s(%s) { using R = %s; %s }\n' % (tag, args, reg, prb, tag, args, reg, ref))
    for k in ('shp', 'ip', 'up'):
        X, D, V = ('UX', 'UD', 'UV') if k == 'up' else ('X', 'D', 'V')
        cvs = (('s', '%s<%s>& s', 'lv'), ('s', 'const %s<%s>& s', 'clv'), ('std::move(s)', '%s<%s>&& s', 'rv'))
        for e, arg, tag in cvs:
            if k == 'up' and tag != 'rv':
                continue
            # from a smart pointer
            for c, d in ((X, X), (X, D), (X, V), ('const ' + X, D)):
                vp = 'virtual_ptr<%s<%s>, R>' % (k, c)
                n = '%s_%s%s_%s' % (k, c.replace('const ', 'c'), d, tag)
                a = arg % (k, d) + ', virtual_ptr<%s<%s>, %s>* out' % (k, c, reg)
                two('from_' + n, a, 'live(s); new(out) %s(%s);' % (vp, e),
                    'live(s); auto v = %s; if (s) v = %s; new(&out->obj) %s<%s>(%s); out->vp = v;' % (null, w('dyn_vptr<%s>(*s)' % d), k, c, e))
                # from another virtual_ptr
                a2 = arg.replace('%s<%s>', 'virtual_ptr<%s<%s>, %s>') % (k, d, reg) + ', virtual_ptr<%s<%s>, %s>* out' % (k, c, reg)
                sv = 's.vp = %s;' % ('&detail::null_vptr' if ind else 'nullptr') if tag == 'rv' else ''
                two('vfrom_' + n, a2, 'live(s.obj); new(out) %s(%s);' % (vp, e),
                    'live(s.obj); auto v = s.vp; new(&out->obj) %s<%s>(%s); out->vp = v; %s' % (k, c, e.replace('s', 's.obj') if e == 's' else 'std::move(s.obj)', sv))
            # a downcast
            for c, d in ((X, D), (X, V), (X, X), ('const ' + X, 'const ' + D)):
                # what the source's v-table pointer becomes is not specified
                sv = 's.vp = nullptr;' if tag == 'rv' else ''
                n = '%s_%s%s_%s' % (k, c.replace('const ', 'c'), d.replace('const ', 'c'), tag)
                a2 = arg.replace('%s<%s>', 'virtual_ptr<%s<%s>, %s>') % (k, c, reg) + ', virtual_ptr<%s<%s>, %s>* out' % (k, d, reg)
                E = 'std::move(s.obj)' if tag == 'rv' and k != 'ip' else 's.obj'
                o = 'virtual_traits<%s<%s>, R>::template cast<%s<%s>>(%s)' % (k, c, k, d, E)
                body = lambda prb: 'livenn(s.obj); ' + prb
                two('cast_' + n, a2, body('new(out) virtual_ptr<%s<%s>, R>(%s.template cast<%s>()); %s' % (k, d, e, d, sv)),
                    body('auto v = s.vp; new(&out->obj) %s<%s>(%s); out->vp = v; %s' % (k, d, o, sv)))
        # the make functions, and adopting a pointer to a final class
        mk = dict(shp=('make_shared_virtual', 'std::make_shared<D>(i, std::move(l))'), up=('make_unique_virtual', 'up<D>(new D(i, std::move(l)))'),
                  ip=('make_boost_intrusive_virtual', 'ip<D>(new D(i, std::move(l)))'))[k]
        two('make_' + k, 'int i, long& l, virtual_ptr<%s<D>, %s>* out' % (k, reg),
            'new(out) virtual_ptr<%s<D>, R>(%s<D, R>(i, std::move(l)));' % (k, mk[0]),
            '%s<D> q(%s); auto v = %s; new(&out->obj) %s<D>(std::move(q)); out->vp = v;' % (k, mk[1], w('R::template static_vptr<D>'), k))
        two('make0_' + k, 'virtual_ptr<%s<X>, %s>* out' % (k, reg),
            'new(out) virtual_ptr<%s<X>, R>(%s<V, R>());' % (k, mk[0]),
            '%s<V> q(%s); auto v = %s; new(&out->obj) %s<X>(std::move(q)); out->vp = v;' % (k, mk[1].replace('<D>', '<V>').replace(' D(', ' V(').replace('i, std::move(l)', ''), w('R::template static_vptr<V>'), k))
        two('final_' + k, '%s<D>& s, virtual_ptr<%s<D>, %s>* out' % (k, k, reg),
            'livenn(s); new(out) virtual_ptr<%s<D>, R>(final_virtual_ptr<R>(std::move(s)));' % k,
            'livenn(s); new(&out->obj) %s<D>(std::move(s)); out->vp = %s;' % (k, w('R::template static_vptr<D>')))
    return ''.join(T)


def calls(std, reg):
    """arguments handed to the overrider"""
    T = []

    def two(n, decl, par, ovpar, arg, ref):
        T.append('struct id_%s; using M_%s = method<id_%s, void(int, %s, char&), %s>; void ov_%s(int, %s, char&);\n' % (n, n, n, par, reg, n, ovpar))
        T.append('extern "C" void probe_%s(int i, %s, char& c) { using R = %s; livenn(%s); M_%s::thunk<ov_%s, decltype(&ov_%s)>::fn(i, %s, c); }\n' % (n, decl, reg, 'a.obj' if 'virtual_ptr<' in decl else 'a', n, n, n, arg))
        T.append('extern "C" void ref_%s(int i, %s, char& c) { using R = %s; livenn(%s); %s }\n' % (n, decl, reg, 'a.obj' if 'virtual_ptr<' in decl else 'a', ref.replace('OV(', 'ov_%s(i, ' % n)))
    cp = 'copy'
    for k in ('shp', 'ip', 'up'):
        for d in ('X', 'D', 'V'):
            t, u = '%s<X>' % k, '%s<%s>' % (k, d)
            # the traits are decided on their own
            tr = lambda e, to: 'virtual_traits<%s, R>::template cast<%s>(%s)' % (t, to, e)
            trc = lambda e, to: 'virtual_traits<const %s&, R>::template cast<%s>(%s)' % (t, to, e)
            # the parameter is initialised from the argument by moving
            two('v_%s_%s' % (k, d), t + '& a', 'virtual_<%s>' % t, u, 'std::move(a)',
                '{ %s p(std::move(a)); OV(%s, c); }' % (t, tr('std::move(p)', u)))
            if k != 'up':
                two('cr_%s_%s' % (k, d), 'const %s& a' % t, 'virtual_<const %s&>' % t, 'const %s&' % u, 'a',
                    'OV(%s, c);' % trc('a', 'const %s&' % u))
            vt, vu = 'virtual_ptr<%s, %s>' % (t, reg), 'virtual_ptr<%s, %s>' % (u, reg)
            two('vp_%s_%s' % (k, d), vt + '& a', vt, vu, 'std::move(a)',
                '{ %s p(std::move(a)); OV(std::move(p).template cast<%s>(), c); }' % (vt, d))
            if k != 'up':
                two('cvp_%s_%s' % (k, d), 'const %s& a' % vt, 'const %s&' % vt, 'const %s&' % vu, 'a',
                    'OV(a.template cast<%s>(), c);' % d)
    return ''.join(T)


def run(ctx):
    ctx.explanation.append(
        'virtual_traits<>::cast of std::unique_ptr, std::shared_ptr and boost::intrusive_ptr, the constructions and casts of '
        'virtual_ptrs to them, the make functions and the overrider thunks are normalised to gated value graphs with the '
        'reference counts as memory, and compared with a specification that shares or takes over the one object. For '
        'unique_ptr the casts are normalised again with a cast that may throw: the source must still own the object then.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'libstdc++ without threads (counts are plain integers)',
                        'source and destination are distinct objects', 'a reference count is between 1 and 1000000']
    jobs = [('casts', casts('plain'), 17), ('throwing', throwing(), 17), ('casts_20', casts('plain', 20), 20)]
    jobs += [('vps_' + r, vps(r), 17) for r in ('plain', 'indirect', 'handled')]
    jobs += [('calls_' + r, calls(17, r), 17) for r in ('plain', 'indirect')] + [('calls_20', calls(20, 'plain'), 20)]
    if ctx.thorough:
        jobs += [('casts_23', casts('plain', 20), 23), ('throwing_20', throwing(), 20), ('calls_23', calls(17, 'handled'), 23)]
        jobs += [('vps_%s_20' % r, vps(r), 20) for r in ('plain', 'indirect', 'handled')]
    fl = parallel(lambda j: flow.Flow(ctx, j[0], PRE + j[1], refargs=True, distinct=True, std=j[2], frozen=['_ZN5boost10openmethod6detail9null_vptrE'],
                                      quiet=lambda n: 'hook_' in n or 'operator delete' in n), jobs)
    for f in fl:
        f.check('smart-pointer-' + f.name.split('_')[0])
