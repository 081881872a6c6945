"""The operations that make, assign, cast or move a virtual_ptr, with what each
must leave behind.  Shared by V01, V02, V04 and D04.

op: name, kind, args, code (uses VP = the result type, R = the registry),
    obj (resulting object), place (address of the v-table pointer),
    guard (condition under which there is an object), src (checks on the source)
A place is the persistent location of a v-table pointer; 'vp' says that the
stored word of another virtual_ptr is copied instead."""

PRE = '''
#include <probe.hpp>
#include <smart.hpp>
using namespace omv; using namespace boost::openmethod;
struct Y { virtual ~Y(); long y; };
struct X { virtual ~X(); long x; };
struct D : Y, X { long d; };
struct V : virtual Y, virtual X { long v; };
struct F { long f; };
struct G : Y0, F { long g; };
// polymorphic, with a v-table function
struct P { virtual ~P(); long p; };
OMV_CONST const vptr_type& fn_vptr(const P&);
template<class R> const vptr_type& boost_openmethod_vptr(const P& f, R*) { return fn_vptr(f); }
template<class VP> union Hold { VP p; Hold() {} ~Hold() {} };
struct Out { vptr_type v; const volatile void* o; vptr_type sv; const volatile void* so; const void* place; };
template<class VP> void put(Out* out, const VP& p) { out->v = p.vptr(); out->o = p.get(); }
'''.replace('struct G : Y0, F', 'struct Y0 { virtual ~Y0(); long z; };\nstruct G : Y0, F')


class Op:
    def __init__(self, name, vp, args, code, obj, place=None, vp_from=None, guard=None, assign=False,
                 smart=False, events='', src=None, check=True, final=None, call=None):
        self.name, self.vp, self.args, self.code = name, vp, args, code
        self.obj, self.place, self.vp_from, self.guard = obj, place, vp_from, guard
        self.assign, self.smart, self.events, self.src = assign, smart, events, src
        self.check = check          # subject to the initialization check
        self.final = final          # (class, object) for the final type check
        self.call = call            # number/name of moved-from source


def raw_ops():
    o = []
    for asg in (False, True):
        a = 'asg_' if asg else ''

        def mk(e):
            return ('h.p = %s;' % e) if asg else ('new(&h.p) VP(%s);' % e)
        for cv, tag in (('', ''), ('const ', 'c')):
            o.append(Op(a + 'ref_same' + tag, 'virtual_ptr<%sX, R>' % cv, '%sX& d' % cv, mk('d'), '(const X*) &d', 'dyn_vptr<X>(d)', assign=asg))
            o.append(Op(a + 'ref_derived' + tag, 'virtual_ptr<%sX, R>' % cv, '%sD& d' % cv, mk('d'), '(const X*) &d', 'dyn_vptr<D>(d)', assign=asg))
            o.append(Op(a + 'ref_virtual' + tag, 'virtual_ptr<%sX, R>' % cv, '%sV& d' % cv, mk('d'), '(const X*) &d', 'dyn_vptr<V>(d)', assign=asg))
            o.append(Op(a + 'ptr_same' + tag, 'virtual_ptr<%sX, R>' % cv, '%sX& d' % cv, mk('&d'), '(const X*) &d', 'dyn_vptr<X>(d)', assign=asg))
            o.append(Op(a + 'ptr_derived' + tag, 'virtual_ptr<%sX, R>' % cv, '%sD& d' % cv, mk('&d'), '(const X*) &d', 'dyn_vptr<D>(d)', assign=asg))
            o.append(Op(a + 'copy' + tag, 'virtual_ptr<%sX, R>' % cv, 'const virtual_ptr<%sX, R>& s' % cv, mk('s'), 's.obj', vp_from='s.vp', assign=asg, check=False))
            o.append(Op(a + 'conv' + tag, 'virtual_ptr<%sX, R>' % cv, 'const virtual_ptr<%sD, R>& s' % cv, mk('s'), 's.obj ? (const X*) s.obj : nullptr', vp_from='s.vp', assign=asg, check=False))
            o.append(Op(a + 'conv_lvalue' + tag, 'virtual_ptr<%sX, R>' % cv, 'virtual_ptr<%sD, R>& s' % cv, mk('s'), 's.obj ? (const X*) s.obj : nullptr', vp_from='s.vp', assign=asg, check=False))
            o.append(Op(a + 'conv_rvalue' + tag, 'virtual_ptr<%sX, R>' % cv, 'virtual_ptr<%sD, R>&& s' % cv, mk('std::move(s)'), 's.obj ? (const X*) s.obj : nullptr', vp_from='s.vp', assign=asg, check=False))
        o.append(Op(a + 'add_const', 'virtual_ptr<const X, R>', 'X& d', mk('d'), '(const X*) &d', 'dyn_vptr<X>(d)', assign=asg))
        o.append(Op(a + 'conv_add_const', 'virtual_ptr<const X, R>', 'const virtual_ptr<X, R>& s', mk('s'), 's.obj', vp_from='s.vp', assign=asg, check=False))
        o.append(Op(a + 'vptr_fn', 'virtual_ptr<P, R>', 'P& d', mk('d'), '&d', 'fn_vptr(d)', assign=asg))
        o.append(Op(a + 'vptr_fn_ptr', 'virtual_ptr<P, R>', 'P& d', mk('&d'), '&d', 'fn_vptr(d)', assign=asg))
        o.append(Op(a + 'plain_from_smart', 'virtual_ptr<X, R>', 'const virtual_ptr<sp<X>, R>& s', mk('s'), 's.obj.p', vp_from='s.vp', assign=asg, check=False))
        o.append(Op(a + 'plain_from_smart_derived', 'virtual_ptr<X, R>', 'const virtual_ptr<sp<D>, R>& s', mk('s'), 's.obj.p ? (X*) s.obj.p : nullptr', vp_from='s.vp', assign=asg, check=False))
    F = 'Registry_final'
    o.append(Op('final_ref', 'virtual_ptr<X, R>', 'X& d', 'new(&h.p) VP(final_virtual_ptr<R>(d));', '&d', 'R::template static_vptr<X>', final=('X', 'd')))
    o.append(Op('final_cref', 'virtual_ptr<const X, R>', 'const X& d', 'new(&h.p) VP(final_virtual_ptr<R>(d));', '&d', 'R::template static_vptr<X>', final=('X', 'd')))
    o.append(Op('final_derived', 'virtual_ptr<X, R>', 'D& d', 'new(&h.p) VP(final_virtual_ptr<R>(d));', '(X*) &d', 'R::template static_vptr<D>', final=('D', 'd')))
    o.append(Op('final_member', 'virtual_ptr<X, R>', 'X& d', 'new(&h.p) VP(VP::final(d));', '&d', 'R::template static_vptr<X>', final=('X', 'd')))
    o.append(Op('final_member_derived', 'virtual_ptr<X, R>', 'D& d', 'new(&h.p) VP(VP::final(d));', '(X*) &d', 'R::template static_vptr<D>', final=('D', 'd')))
    o.append(Op('final_nonpoly', 'virtual_ptr<F, R>', 'F& d', 'new(&h.p) VP(final_virtual_ptr<R>(d));', '&d', 'R::template static_vptr<F>'))
    o.append(Op('final_nonpoly_derived', 'virtual_ptr<F, R>', 'G& d', 'new(&h.p) VP(final_virtual_ptr<R>(d));', '(F*) &d', 'R::template static_vptr<G>', final=('G', 'd')))
    o.append(Op('final_rvalue', 'virtual_ptr<X, R>', 'X&& d', 'new(&h.p) VP(final_virtual_ptr<R>(std::move(d)));', '&d', 'R::template static_vptr<X>', final=('X', 'd'))) if False else None
    for t, s, e in (('up', 'D', '(X*) s.obj'), ):
        o.append(Op('cast_up', 'virtual_ptr<X, R>', 'const virtual_ptr<D, R>& s', 'new(&h.p) VP(s.template cast<X>());', '&static_cast<X&>(*s.obj)', vp_from='s.vp', check=False))
    o.append(Op('cast_down', 'virtual_ptr<D, R>', 'const virtual_ptr<X, R>& s', 'new(&h.p) VP(s.template cast<D>());', '&static_cast<D&>(*s.obj)', vp_from='s.vp', check=False))
    o.append(Op('cast_down_const', 'virtual_ptr<const D, R>', 'const virtual_ptr<const X, R>& s', 'new(&h.p) VP(s.template cast<const D>());', '&static_cast<const D&>(*s.obj)', vp_from='s.vp', check=False))
    o.append(Op('cast_same', 'virtual_ptr<X, R>', 'const virtual_ptr<X, R>& s', 'new(&h.p) VP(s.template cast<X>());', 's.obj', vp_from='s.vp', check=False))
    o.append(Op('cast_virtual', 'virtual_ptr<V, R>', 'const virtual_ptr<X, R>& s', 'new(&h.p) VP(s.template cast<V>());', '(V*) dyn_cast<V>(s.obj)', vp_from='s.vp', check=False))
    o.append(Op('cast_virtual_up', 'virtual_ptr<X, R>', 'const virtual_ptr<V, R>& s', 'new(&h.p) VP(s.template cast<X>());', '&static_cast<X&>(*s.obj)', vp_from='s.vp', check=False))
    o.append(Op('cast_nonpoly', 'virtual_ptr<G, R>', 'const virtual_ptr<F, R>& s', 'new(&h.p) VP(s.template cast<G>());', '&static_cast<G&>(*s.obj)', vp_from='s.vp', check=False))
    return [x for x in o if x]


def smart_ops():
    """ev: what happens to the reference counts, before (for a construction)
    or around (for an assignment) the new value."""
    o = []
    for asg in (False, True):
        a = 'asg_' if asg else ''

        def mk(e):
            return ('h.p = %s;' % e) if asg else ('new(&h.p) VP(%s);' % e)

        def share(p):
            return 'if (%s) hook_addref(%s);' % (p, p)
        for T, S, tag in (('X', 'X', ''), ('X', 'D', '_derived'), ('const X', 'X', '_const')):
            up = lambda e: e if S != 'D' else '(%s ? static_cast<X*>(%s) : nullptr)' % (e, e)
            vp = 'virtual_ptr<sp<%s>, R>' % T
            for how, q in (('const sp<%s>& s' % S, 's'), ('sp<%s>& s' % S, 's')):
                n = 'clref' if how.startswith('const') else 'lref'
                o.append(Op('%ssp_%s%s' % (a, n, tag), vp, how, mk(q), up('s.p'), 'dyn_vptr<%s>(*s.p)' % S, guard='s.p', assign=asg, smart=True, events='share'))
            o.append(Op('%ssp_rref%s' % (a, tag), vp, 'sp<%s>&& s' % S, mk('std::move(s)'), up('s.p'), 'dyn_vptr<%s>(*s.p)' % S, guard='s.p', assign=asg, smart=True, events='take', src='s'))
            for how, n in (('const virtual_ptr<sp<%s>, R>& s' % S, 'clref'), ('virtual_ptr<sp<%s>, R>& s' % S, 'lref')):
                o.append(Op('%svp_%s%s' % (a, n, tag), vp, how, mk('s'), up('s.obj.p'), vp_from='s.vp', assign=asg, smart=True, events='share', check=False))
            o.append(Op('%svp_rref%s' % (a, tag), vp, 'virtual_ptr<sp<%s>, R>&& s' % S, mk('std::move(s)'), up('s.obj.p'), vp_from='s.vp', assign=asg, smart=True, events='take', src='s.obj', check=False))
    for T in ('X', ):
        vp = 'virtual_ptr<sp<X>, R>'
        o.append(Op('final_sp_rref', vp, 'sp<X>&& s', 'new(&h.p) VP(final_virtual_ptr<R>(std::move(s)));', 's.p', 'R::template static_vptr<X>', smart=True, events='take', src='s', final=('X', '*s.p')))
        o.append(Op('final_sp_member', vp, 'sp<X>&& s', 'new(&h.p) VP(VP::final(std::move(s)));', 's.p', 'R::template static_vptr<X>', smart=True, events='take', src='s', final=('X', '*s.p')))
        o.append(Op('final_sp_derived', vp, 'sp<D>&& s', 'new(&h.p) VP(final_virtual_ptr<R>(std::move(s)));', '(s.p ? static_cast<X*>(s.p) : nullptr)', 'R::template static_vptr<D>', smart=True, events='take', src='s', final=('D', '*s.p')))
    for nm, S, T, e in (('up', 'D', 'X', '&static_cast<X&>(*s.obj.p)'), ('down', 'X', 'D', '&static_cast<D&>(*s.obj.p)'),
                        ('virtual', 'X', 'V', '(V*) dyn_cast<V>(s.obj.p)'), ('same', 'X', 'X', 's.obj.p')):
        vp = 'virtual_ptr<sp<%s>, R>' % T
        o.append(Op('cast_%s_clref' % nm, vp, 'const virtual_ptr<sp<%s>, R>& s' % S, 'new(&h.p) VP(s.template cast<%s>());' % T, e, vp_from='s.vp', smart=True, events='share1', check=False))
        o.append(Op('cast_%s_lref' % nm, vp, 'virtual_ptr<sp<%s>, R>& s' % S, 'new(&h.p) VP(s.template cast<%s>());' % T, e, vp_from='s.vp', smart=True, events='share1', check=False))
        o.append(Op('cast_%s_rref' % nm, vp, 'virtual_ptr<sp<%s>, R>&& s' % S, 'new(&h.p) VP(std::move(s).template cast<%s>());' % T, e, vp_from='s.vp', smart=True, events='cast_take', src='s.obj', check=False))
    return o


def spec_value(op, indirect):
    """expressions for (stored word, v-table) of the result"""
    if op.vp_from:
        return op.vp_from, ('*' if indirect else '') + op.vp_from
    return ('&' if indirect else '') + op.place, op.place


def is_ptr_expr(op):
    return op.obj
