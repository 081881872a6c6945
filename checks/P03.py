"""P03: the error handlers."""
from vlib import *
import os, re
import flow, vlib, teng

PRE = r'''
#include <utility>
#include <functional>
#include <variant>
namespace omv_out { struct Os { }; void hook_name(const void*); void hook_nl(); void hook_text();
inline Os& operator<<(Os& o, const char* s) { if (s[0] == '\n' && !s[1]) hook_nl(); return o; }
inline Os& operator<<(Os& o, const void* t) { return o; }
inline Os& operator<<(Os& o, std::size_t t) { return o; } }
#include <probe.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
using namespace omv; using namespace boost::openmethod;
using omv_out::Os;
struct named_rtti : omv::rtti { template<class R> struct fn : omv::rtti::fn<R> {
    template<class S> static void type_name(type_id t, S&) { omv_out::hook_name(t); } }; };
struct out_p : policies::output { template<class R> struct fn { static Os os; }; };
template<class R> Os out_p::fn<R>::os;
struct MyErr : openmethod_error { long a, b; template<class R, class S> void write(S& os) const { os << (const void*) a; R::rtti::type_name((type_id) b, os); } };
struct MyErr2 : openmethod_error { long a; template<class R, class S> void write(S& os) const { R::rtti::type_name((type_id) a, os); } };
struct errs_p : policies::extra_hook { }; 
'''
PRE = PRE.replace('struct errs_p : policies::extra_hook { }; \n', '''struct hash_p : policies::type_hash { using errors = std::variant<MyErr, MyErr2>; template<class R> struct fn { static std::size_t hash(type_id t); template<class C> static void initialize(C&&) {} }; };
struct R0 : registry<named_rtti, omv::vptr, policies::default_error_handler> {};
struct R1 : registry<named_rtti, omv::vptr, policies::default_error_handler, out_p> {};
struct R2 : registry<named_rtti, out_p, policies::default_error_handler, policies::vptr_vector, policies::fast_perfect_hash> {};
struct R3 : registry<named_rtti, policies::default_error_handler, omv::vptr, hash_p, out_p> {};
struct R4 : registry<hash_p, policies::default_error_handler, omv::vptr, named_rtti, policies::runtime_checks> {};
struct R5 : registry<named_rtti, policies::default_error_handler, policies::vptr_map<>, out_p, policies::runtime_checks> {};
template<class T> union Hold { T p; Hold() {} ~Hold() {} };
''')
BASE = ['not_initialized', 'no_overrider', 'ambiguous_call', 'missing_class', 'missing_base', 'odr_violation', 'final_error']
EXTRA = {'R2': ['policies::fast_perfect_hash::search_error'], 'R3': ['MyErr', 'MyErr2'], 'R4': ['MyErr', 'MyErr2']}
NAMES = {'missing_class': ['type'], 'missing_base': ['base', 'derived'], 'final_error': ['static_type', 'dynamic_type']}
REGS = ['R0', 'R1', 'R2', 'R3', 'R4', 'R5']


def code():
    T = []

    def two(tag, ret, args, prb, ref):
        T.append('extern "C" %s probe_%s(%s) { %s }\nextern "C" %s ref_%s(%s) { %s }\n' % (ret, tag, args, prb, ret, tag, args, ref))
    for r in REGS:
        H = '%s::error_handler' % r
        V = '%s::error_variant' % H
        FT = '%s::function_type' % H
        for e in BASE + EXTRA.get(r, []):
            n = '%s_%s' % (r, e.split('::')[-1])
            arg = 'void (*f)(const %s&), const %s& e' % (V, e)
            mk = '%s v(std::in_place_type<%s>, e);' % (V, e)
            # the function set last gets the error, whatever was set before
            two('set_' + n, 'void', arg + ', ' + FT.replace('::function', '::function') + '* old', 'Hold<%s> h; new(&h.p) %s(%s::set(f)); %s::error(e);' % (FT, FT, H, H),
                mk + ' f(v);')
            two('set2_' + n, 'void', 'void (*f)(const %s&), void (*g)(const %s&), const %s& e' % (V, V, e),
                'Hold<{0}> h, k; new(&h.p) {0}({1}::set(f)); new(&k.p) {0}({1}::set(g)); {1}::error(e);'.format(FT, H), mk + ' g(v);')
            # set returns the previous function
            two('prev_' + n, 'void', 'void (*f)(const %s&), void (*g)(const %s&), const %s& e' % (V, V, e),
                'Hold<{0}> h, k; new(&h.p) {0}({1}::set(f)); new(&k.p) {0}({1}::set(g)); {2} k.p(v);'.format(FT, H, mk), mk + ' f(v);')
            # what the default handler writes
            if r not in ('R0', 'R4'):
                os = '%s::output::os' % r
                two('default_' + n, 'void', 'const %s& e' % e, mk + ' %s::default_handler(v);' % H,
                    '%s{ (void) e; }' % ''.join('omv_out::hook_name(e.%s); ' % x for x in NAMES.get(e, [])) + ' omv_out::hook_nl();' if e in BASE and e != 'odr_violation' else
                    'e.template write<%s>(%s); omv_out::hook_nl();' % (r, os) if e != 'odr_violation' else
                    'omv_out::hook_name(%s::rtti::static_type<typename %s::registry_type>()); omv_out::hook_nl();' % (r, r))
            else:
                two('default_' + n, 'void', 'const %s& e' % e, mk + ' %s::default_handler(v);' % H, '')
    return PRE + ''.join(T)


def run(ctx):
    ctx.explanation.append(
        'The public functions of default_error_handler (error, set, default_handler) are normalised to gated value graphs for '
        'every error type and several registries and compared with the specification: the function set last receives the '
        'error, set returns the previous function, the default function names the types concerned; static initialization is '
        'analysed for what it stores in the handler. For throw_error_handler every outcome of error is inspected: it ends by '
        'throwing an object whose type info has the error as a public base, and the bytes of the error are copied into it.')
    ctx.assumptions += ['clang 18 -O2 preserves semantics', 'libstdc++ std::function and std::variant']
    t = teng.Types(ctx, PRE, extra=['-fno-access-control', '-I' + os.path.join(VERIF, 'engine')])
    t.facts('accepted-error-types', [('%s accepts %s' % (r, e), 'std::is_constructible_v<%s::error_handler::error_variant, const %s&>' % (r, e))
                                     for r in REGS for e in BASE + EXTRA.get(r, [])])
    f = flow.Flow(ctx, 'handlers', code(), distinct=True, refargs=True, passes='default<O2>,default<O2>', ignore=lambda n: 'default_error_handler' in n)
    f.check('default-error-handler')
    initial(ctx)


def leaves(M, n, seen=None):
    """the leaves of a decision diagram"""
    seen = set() if seen is None else seen
    if n in seen:
        return []
    seen.add(n)
    if M.isleaf(n):
        return [M.lv(n)]
    v, h, l = M.nodes[n]
    return leaves(M, h, seen) + leaves(M, l, seen)


def initial(ctx):
    """static initialization stores the default handler"""
    code = PRE + ''.join('extern "C" void ref_%s() { Hold<%s::error_handler::function_type> h; new(&h.p) %s::error_handler::function_type(%s::error_handler::set(%s::error_handler::default_handler)); }\n'
                         % (r, r, r, r, r) for r in REGS)
    bc = flow.compile_ir(ctx, 'initial', code, ['-fno-exceptions'])
    mod = flow.load_ir(bc, '__cxx_global_var_init', '_GLOBAL__sub_I', 'ref_')
    M = flow.Mgr()
    byg = {}        # global -> {offset: value}, over all initializers

    def writes(fn):
        out = []
        for o in leaves(M, flow.Eval(M, fn, mod, lambda n: True, True).run()):
            if o in (True, False, flow.DC):
                continue
            for a, n, v in o[3]:
                e = flow.Eval(M, fn, mod)
                (gs, off) = e.base(a)
                g = [M[t][1] for t, k in gs if M[t][0] == 'g']
                if len(g) == 1:
                    out.append((g[0], off, n, v))
        return out
    for n, fn in mod['byname'].items():
        if not n.startswith('ref_'):
            for g, off, k, v in writes(fn):
                byg.setdefault(g, {}).setdefault((off, k), set()).add(v)
    for r in REGS:
        want = [w for w in writes(mod['byname']['ref_' + r]) if w[3] is not None]
        gs = {w[0] for w in want}
        ctx.need(len(gs), 'the handler of ' + r)
        for g in gs:
            got = byg.get(g, {})
            ref = {(o, k): v for g2, o, k, v in want if g2 == g}
            ok = bool(got) and all(k in ref and vs == {ref[k]} for k, vs in got.items()) and any(
                M[list(v)[0]][0] == 'g' and 'default_handler' in flow.demangle(M[list(v)[0]][1]) for v in got.values())
            ctx.check('initial-handler', r, ok, '%s is initialised to %s, expected %s' % (
                flow.demangle(g), {k: [M.show(x) for x in v] for k, v in got.items()}, {k: M.show(v) for k, v in ref.items()}))
    throwing(ctx)


def throwing(ctx):
    """the throw handler throws an object that is an Error and carries its bytes"""
    errs = BASE + ['MyErr', 'policies::fast_perfect_hash::search_error']
    regs = {'RT': 'registry<named_rtti, omv::vptr, policies::throw_error_handler>',
            'RU': 'registry<policies::throw_error_handler, named_rtti, omv::vptr, out_p, policies::runtime_checks>'}
    code = PRE + '#include <boost/openmethod/policies/throw_error_handler.hpp>\n' + ''.join('struct %s : %s {};\n' % x for x in regs.items())
    for r in regs:
        for i, e in enumerate(errs):
            code += ('extern "C" void probe_%s_%d(const %s& e) { %s::error_handler::error(e); }\n'
                     'extern "C" { extern const std::size_t size_%s_%d = std::is_empty_v<%s> ? 0 : sizeof(%s); extern const std::type_info* const ti_%s_%d = &typeid(%s); }\n'
                     % (r, i, e, r, r, i, e, e, r, i, e))
    bc = flow.compile_ir(ctx, 'throwing', code, ['-fexceptions'])
    mod = flow.load_ir(bc, 'probe_')
    ll = vlib.run(['/usr/bin/llvm-dis-18', bc, '-o', '-']).stdout
    glob = dict(re.findall(r'^@("[^"]+"|[\w.$]+) = (.*)$', ll, re.M))

    def bases(ti, off=0, depth=0):
        """typeinfo -> offset of the public bases"""
        out = {ti: off}
        d = glob.get(ti) or glob.get('"%s"' % ti) or ''
        m = re.search(r'i32 \d+, i32 \d+, (ptr @.*?) \}', d)
        if m and depth < 8:
            for b, o in re.findall(r'ptr @("[^"]+"|[\w.$]+), i64 (-?\d+)', m.group(1)):
                if int(o) & 2 and not int(o) & 1:
                    out.update(bases(b.strip('"'), off + (int(o) >> 8), depth + 1))
        elif 'si_class_type_info' in d:
            b = re.findall(r'ptr @("[^"]+"|[\w.$]+)', d)[-1].strip('"')
            out.update(bases(b, off, depth + 1))
        return out
    for r in regs:
        for i, e in enumerate(errs):
            n = '%s_%d' % (r, i)
            size = int(re.search(r'constant i64 (\d+)', glob['size_' + n]).group(1))
            ti = re.search(r'constant ptr @("[^"]+"|[\w.$]+)', glob['ti_' + n]).group(1).strip('"')
            M = flow.Mgr()
            M.refargs = True
            E = flow.Eval(M, mod['byname']['probe_' + n], mod, lambda n: False, True)
            out = [l for l in leaves(M, E.run()) if isinstance(l, tuple)]
            bad, threw = [], 0
            for kind, val, trace, ws in out:
                if kind == 'return':
                    bad.append('it can return')
                evs, t = [], trace
                while t is not None and M[t][0] == 'ev':
                    evs.append(M[t])
                    t = M[t][1]
                th = [x for x in evs if M[x[2]] == ('g', '__cxa_throw')]
                if not th:
                    if kind == 'noreturn':
                        bad.append('it can end without throwing')
                    continue
                threw += 1
                exc, tt = th[0][3][0], th[0][3][1]
                tt = M[tt][1] if M[tt][0] == 'g' else None
                bs = bases(tt)
                if ti not in bs:
                    bad.append('it throws %s, which is not a public %s' % (flow.demangle(tt or '?'), e))
                    continue
                # where each byte in memory comes from; the functions of the standard library that
                # are called in between construct their own part of the object
                mem = {}
                for x in reversed(evs):
                    for a, k, v in x[4]:
                        (ga, oa), = [E.base(a)]
                        if M[v][0] in ('load', 'byval'):
                            (gv, ov) = E.base(M[v][1])
                            new = [mem.get((gv, ov + b), (gv, ov + b)) for b in range(k)]
                        else:
                            new = [None] * k
                        for b in range(k):
                            mem[ga, oa + b] = new[b]
                (gx, ox) = E.base(exc)
                got = {o - ox: v for (g, o), v in mem.items() if g == gx}
                arg0 = [t for t in range(len(M.terms)) if M[t] == ('arg', 0)]
                miss = [b for b in range(size) if got.get(bs[ti] + b) != (((arg0[0], 1),), b)]
                if miss:
                    bad.append('bytes %s of the error are not copied to the thrown object' % miss[:20])
            if not threw:
                bad.append('it never throws')
            ctx.check('throw-error-handler', '%s error(%s)' % (regs[r], e), not bad, '; '.join(sorted(set(bad))))
