"""Probes of the registry compiler (initialize.hpp), over bounded models of the
standard containers (engine/shim): see DESIGN.md, "constant-size instances"."""
from vlib import *
import flow, time

SHIM = os.path.join(VERIF, 'engine', 'shim')

PRELUDE = r'''
#include "probe.hpp"
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
using namespace omv;
using base_registry = bom::registry<omv::rtti>;
template<class... O> using comp_of = base_registry::compiler<O...>;
using C = comp_of<>;
using cls = C::class_; using ov = C::overrider; using meth = C::method;
'''

OPAQUE = r'''
// membership in the set of a class and of the classes derived from it
static inline bool derived(const cls* d, const cls* b) { return omv_in(&b->transitive_derived, d); }
static inline bool proper(const cls* d, const cls* b) { return d != b && derived(d, b); }
// what holds of every inheritance: reflexive and antisymmetric
static inline bool sane(const cls* x, const cls* y) {
    return derived(x, x) && derived(y, y) && (x == y || !(derived(x, y) && derived(y, x)));
}
static inline bool more_specific(const ov* a, const ov* b, int n) {
    bool some = false, none = true;
    for (int i = 0; i < n; ++i) {
        some |= proper(a->vp[i], b->vp[i]);
        none &= !proper(b->vp[i], a->vp[i]);
    }
    return some && none;
}
'''


# constants are propagated and loops unrolled alternately; the control flow is
# left alone until the loops are gone, because threading jumps obscures them
# opaque: membership in sets is unknown; 1: so are the contents of maps
STEP = 'function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,omv-phigep,gvn,sccp,omv-latch,loop-simplify,lcssa,loop(indvars,loop-unroll-full),sroa,gvn,sccp)'


def unit(ctx, name, code, opaque=False, cap=4, flags=(), rounds=6, prelude=True, lists=False, constraints=False, few=0, fb=150, **kw):
    fl = ['-fstrict-aliasing', '-include', os.path.join(SHIM, 'omv_algo.hpp'), '-I' + SHIM, '-DOMV_CAP=%d' % cap] + (['-DOMV_OPAQUE=%d' % opaque] if opaque else []) + list(flags)
    pre = (PRELUDE + (OPAQUE if opaque else '')) if prelude is True else ''
    step = STEP.replace('omv-phigep,', 'omv-phigep,constraint-elimination,') if constraints else STEP
    first = ['always-inline', 'function(omv-latch)', 'cgscc(inline)'] + (['function(sroa,early-cse,omv-few%d)' % few] if few else []) + ([step, 'function(omv-peel)', step, step] * 3 if lists else []) + [step] * rounds
    last = ['cgscc(inline)'] + [step] * 2 + (['function(jump-threading)'] + [step] * 3) * 2 + ['function(simplifycfg,gvn,dse,adce,simplifycfg)'] + (['function(lower-constant-intrinsics,simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg)'] if few else [])

    def cmd(passes, limit=[]):
        return limit + [
            '/usr/bin/opt-18', '-load-pass-plugin=' + os.path.join(VERIF, 'build', 'phigep.so'), '-passes=' + ','.join(passes), '-memdep-block-scan-limit=100000', '-memdep-block-number-limit=100000', '-available-load-scan-limit=10000',
            '-memssa-check-limit=100000', '-capture-tracking-max-uses-to-explore=100000', '-gvn-max-num-deps=1000', '-unroll-threshold=1000000', '-unroll-max-count=64',
            '-unroll-allow-partial=0', '-unroll-runtime=0',
            '-inline-threshold=1000000', '-inlinehint-threshold=1000000', '-inlinecold-threshold=1000000']

    f = flow.Flow(ctx, name, pre + code, flags=fl, models=True, opt=[cmd(first), cmd(last)], **kw)
    fb = min(fb, int(560 - (time.time() - ctx.t0)))     # a check must end in time
    if f.loops() and fb > 5 and not os.environ.get("OMV_NOFB"):
        # loops whose number of iterations is not apparent to the compiler
        try:
            f = flow.Flow(ctx, name, '', models=True, resume=f.mid, opt=cmd(['function(omv-peel-one)', step] * 9 + [step] * 2 + last, ['timeout', str(fb)]), **kw)
        except AnalysisError:
            pass
    if not os.environ.get('OMV_KEEP') and os.path.exists(f.mid):
        os.remove(f.mid)
    return f
