"""V02: null and moved-from virtual_ptrs."""
from vlib import *
import flow, vptrs
from V01 import run_ops, ZERO


def nulls(reg):
    """null constructions and assignments: both halves null, nothing else touched"""
    ind = 'indirect' in reg
    word = 'const vptr_type*' if ind else 'vptr_type'
    T = []

    def two(tag, pre, prb, ref, args=''):
        tag = '%s_%s' % (tag, reg)
        T.append('extern "C" void probe_%s(Out* out%s) { using R = %s; %s %s out->v = h.p.vptr(); out->o = h.p.get(); }\n'
                 'extern "C" void ref_%s(Out* out%s) { using R = %s; %s out->v = nullptr; out->o = nullptr; }\n'
                 % (tag, args, reg, pre, prb, tag, args, reg, ref))
    for kind, vp, sm in (('raw', 'virtual_ptr<X, R>', 0), ('craw', 'virtual_ptr<const X, R>', 0), ('np', 'virtual_ptr<F, R>', 0),
                         ('smart', 'virtual_ptr<sp<X>, R>', 1), ('csmart', 'virtual_ptr<sp<const X>, R>', 1)):
        pre = 'Hold<%s> h; using VP = %s;' % (vp, vp)
        two('nullptr_' + kind, pre, 'new(&h.p) VP(nullptr);', '')
        two('nullptr_copy_' + kind, pre, 'VP q(nullptr); new(&h.p) VP(q);', '')
        two('nullptr_brace_' + kind, pre, 'new(&h.p) VP{nullptr};', '')
        if sm:
            two('default_' + kind, pre, 'new(&h.p) VP();', '')
            two('value_' + kind, pre, 'new(&h.p) VP{};', '')
            el = 'const X' if 'const' in vp else 'X'
            two('nullsp_rv_' + kind, pre, 'new(&h.p) VP(sp<%s>());' % el, '')
            two('nullsp_lv_' + kind, pre, 'sp<%s> n; new(&h.p) VP(n);' % el, '')
            two('nullsp_clv_' + kind, pre, 'const sp<%s> n; new(&h.p) VP(n);' % el, '')
            two('nullsp_derived_' + kind, pre, 'new(&h.p) VP(sp<D>());', '')
            two('nullsp_derived_lv_' + kind, pre, 'sp<D> n; new(&h.p) VP(n);', '')
            two('final_null_' + kind, pre, 'new(&h.p) VP(nullptr);', '')
        obj = 'h.p.obj.p' if sm else 'h.p.obj'
        rel = 'if (o0) hook_release(o0);' if sm else ''
        ini = ' h.p.vp = w0; %s = (decltype(%s)) o0;' % (obj, obj)
        args = ', %s w0, void* o0' % word
        two('asg_nullptr_' + kind, pre + ini, 'h.p = nullptr;', rel, args)
        if sm:
            two('asg_nullsp_rv_' + kind, pre + ini, 'h.p = sp<X>();', rel, args)
            two('asg_nullsp_lv_' + kind, pre + ini, 'sp<X> n; h.p = n;', rel, args)
            two('asg_nullsp_clv_' + kind, pre + ini, 'const sp<X> n; h.p = n;', rel, args)
            two('asg_nullsp_derived_' + kind, pre + ini, 'h.p = sp<D>();', rel, args)
            two('asg_nullvp_' + kind, pre + ini, 'VP n(nullptr); h.p = n;', rel, args)
            two('asg_nullvp_rv_' + kind, pre + ini, 'h.p = VP(nullptr);', rel, args)
        else:
            two('asg_nullvp_' + kind, pre + ini, 'VP n(nullptr); h.p = n;', rel, args)
    # conversions and copies of a null virtual_ptr
    for tag, a, b in (('up', 'virtual_ptr<X, R>', 'virtual_ptr<D, R>'), ('virt', 'virtual_ptr<X, R>', 'virtual_ptr<V, R>'),
                      ('sup', 'virtual_ptr<sp<X>, R>', 'virtual_ptr<sp<D>, R>'), ('plain', 'virtual_ptr<X, R>', 'virtual_ptr<sp<X>, R>')):
        pre = 'Hold<%s> h; using VP = %s; %s n(nullptr);' % (a, a, b)
        two('null_conv_' + tag, pre, 'new(&h.p) VP(n);', '')
        two('null_conv_rv_' + tag, pre, 'new(&h.p) VP(std::move(n));', '')
        two('null_conv_clv_' + tag, pre, 'const auto& c = n; new(&h.p) VP(c);', '')
        two('null_conv_asg_' + tag, pre, 'new(&h.p) VP(nullptr); h.p = n;', '')
    # comparison with nullptr, and with a null one
    for kind, vp, o in (('raw', 'virtual_ptr<X, %s>' % reg, 's.obj'), ('smart', 'virtual_ptr<sp<X>, %s>' % reg, 's.obj.p')):
        T.append('extern "C" bool probe_isnull_%s_%s(const %s& s) { return s == %s(nullptr); }\n'
                 'extern "C" bool ref_isnull_%s_%s(const %s& s) { return !%s; }\n' % (kind, reg, vp, vp, kind, reg, vp, o))
    return ''.join(T)


def run(ctx):
    ctx.explanation.append(
        'Constructions and assignments from nullptr, null smart pointers and null virtual_ptrs are normalised to gated '
        'value graphs: both halves must be null and the previous object released once. The smart-pointer operations of '
        'V01 are normalised with the source observed: the v-table lookup is gated by the pointer being non-null, a '
        'moved-from virtual_ptr has two null halves, and acquisitions and releases are exactly those of one owner.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'source and destination are distinct objects',
                        'the probe smart pointer is representative of smart pointers with the documented traits']
    regs = ['plain', 'indirect'] + (['handled'] if ctx.thorough else [])
    regs_n = ['plain', 'indirect', 'handled', 'checked', 'checked_indirect']
    fl = parallel(lambda r: flow.Flow(ctx, 'null_' + r, vptrs.PRE + nulls(r), distinct=True, zero=ZERO), regs_n)
    for f in fl:
        f.check('null-virtual-ptr')
    run_ops(ctx, 'null-source-and-move', vptrs.smart_ops(), regs)
