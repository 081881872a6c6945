"""I07: tracing changes no result, and is silent when off."""
from vlib import *
import initp, teng, flow, re
import I02, I03, I05, I09

# a registry with an output, whose writes are events in one variant and nothing
# in the other
SINK = r'''
extern "C" { extern bool ON; void omv_rec_out(); }
struct sink_stream { template<class T> sink_stream& operator<<(const T&) { OMV_OUT; return *this; } };
struct sink : bom::policies::output { template<class Registry> struct fn { static sink_stream os; }; };
template<class Registry> sink_stream sink::fn<Registry>::os;
'''


def traced(text, on):
    t = re.sub(r'\bC comp;', 'comp_of<bom::trace> comp{bom::trace(%s)};' % on, text)
    t = t.replace('comp_of<bom::n2216> comp{bom::n2216()}', 'comp_of<bom::n2216, bom::trace> comp{bom::n2216(), bom::trace(%s)}' % on)
    return t.replace('C comp', 'comp_of<bom::trace> comp{bom::trace(%s)}' % on) if 'comp_of<bom::' not in t else t


def run(ctx):
    ctx.explanation.append(
        'The steps of initialization are compiled, on the constant-size instances of I02, I03, I05 and I09, with the '
        'trace option and without it. With the option, turned on or off by an unknown flag and writing to an output '
        'that records nothing, what they compute and report must be the same; with the option turned off, and an output '
        'whose every use is an event, there must be no event. That options are recognised by their decayed types and '
        'take the value they were constructed with, and unknown ones are ignored, is decided by the type checker and by '
        'the value of the flag of the trace stream.')
    ctx.assumptions += ['clang 18 preserves semantics', 'output operators and rtti::type_name have no side effect on the registry']
    inits = initp.PRELUDE.replace('using base_registry = bom::registry<omv::rtti>;', SINK + 'using base_registry = bom::registry<omv::rtti, sink>;')
    i5 = I05.PRE.replace('#include <boost/openmethod/initialize.hpp>\nusing namespace omv;\n', '#include <boost/openmethod/initialize.hpp>\nusing namespace omv;\n' + SINK) \
        .replace('bom::registry<omv::rtti, recorder>', 'bom::registry<omv::rtti, recorder, sink>') + 'template<class... X> using comp_of = R::compiler<X...>;\n'
    i3 = I03.PRE.replace('// a vptr policy', SINK + '// a vptr policy', 1).replace('bom::registry<omv::rtti, placed>', 'bom::registry<omv::rtti, placed, sink>') + 'template<class... X> using comp_of = R::compiler<X...>;\n'
    jobs = []       # (prelude, common, tag, type, body, options)
    sel = dict(opaque=True, cap=4, depth=5, flags=['-DOMV_DIMS=1'], project=True)
    for opt in ('', 'n2216'):
        for N, mask in ((2, 3), (2, 1), (2, 0)) + (((3, 7),) if ctx.thorough else ()):
            t = I02.one('x', N, mask, ['K%d' % i for i in range(N)], opt)
            body = t[t.index('{', t.index('int probe_x')):t.index('extern "C" int ref_x')]
            jobs.append((inits + initp.OPAQUE, I02.COMMON, 'select_%s%d_%d' % (opt, N, mask), 'int', body, sel))
    grp = dict(opaque=True, cap=8, depth=5, project=True)
    for n, ms in enumerate([[(1, [[0, 1]])], [(1, [[1, 0], [1, 1]])], [(1, [[0, 1]]), (1, [[1], [1]])]]):
        x = I09.Instance(ms)
        body = '{%s%s comp.build_dispatch_tables(); auto& r = comp.report; return r.cells | r.not_implemented << 16 | r.ambiguous << 32; }\n' % (x.assume(), x.setup())
        jobs.append((inits + initp.OPAQUE, I09.COMMON, 'report_%d' % n, 'unsigned long', body, grp))
        for k, (cnt, dims) in enumerate(ms):
            slots = x.slots(k)
            p = []
            for i, t in enumerate(x.tuples(k)):
                idx = ' + '.join('K%d.vtbl[%d].group_index%s' % (c, slots[d] - x.first(c), ' * m%d.strides[%d]' % (k, d - 1) if d else '') for d, c in enumerate(t))
                p.append('(unsigned long) code(m%d, %d, m%d.dispatch_table[%s]) << %d' % (k, cnt, k, idx, 4 * i))
            jobs.append((inits + initp.OPAQUE, I09.COMMON, 'grouped_%d_%d' % (n, k), 'unsigned long', '{%s%s comp.build_dispatch_tables(); return %s; }\n' % (x.assume(), x.setup(), ' | '.join(p)), grp))
    aug = dict(opaque=2, cap=10, project=True, lists=True)
    for n, (mp, ovs, ret, orets, missing) in enumerate([([0], [[0]], None, [None], None), ([0, 1], [[2, 1]], None, [None], None), ([0], [[1]], None, [None], 1), ([0], [[1]], 2, [2], None)]):
        body = I05.setup('R', mp, ovs, ret, orets, missing).replace('using C = R::compiler<>;', '')
        checks = ['comp.methods.size() == 1', 'q.vp.size() == %d' % len(mp), 'q.overriders.size() == %d' % len(ovs), 'K[%d].used_by_vp.size() == %d' % (mp[0], mp.count(mp[0]))]
        checks += ['q.vp[%d] == &K[%d]' % x for x in enumerate(mp)] + ['q.overriders[0].vp[%d] == &K[%d]' % x for x in enumerate(ovs[0])]
        checks += ['q.overriders[0].pf == PF[0]', 'q.overriders[0].info == &o0', 'q.not_implemented.pf == PF[6]', 'q.ambiguous.pf == PF[7]', 'K[%d].used_by_vp[0].method == &q' % mp[0]]
        jobs.append((i5, 'using C = R::compiler<>;\n', 'methods_%d' % n, 'int', '{' + body + ' comp.augment_methods(); auto& q = comp.methods[0]; return %s; }\n' % ' && '.join(checks), aug))
    lay = dict(cap=4, flags=['-DOMV_WORDS=32'], project=True)
    pre = I03.regs(I03.sized((2, 2), (2, 2, 2), (1, 0, 1), (2, 1, 0), 1))
    for m, call in (('m1', 'M1::fn(x)'), ('m2', 'M2::fn(x, n, y)'), ('m3', 'M3::fn(x, y, z)')):
        jobs.append((i3, '', 'layout_' + m, 'int', '(A& x, B& y, D& z, int n) { %s comp.write_global_data(); return %s; }\n' % (pre, call), lay))

    shape = ((2, 2), (2, 2, 2), (1, 0, 1), (2, 1, 0), 1)
    jobs.append((i3, '', 'fits', 'int', '() { %s comp.write_global_data(); bool ok = true; %s return ok; }\n' % (I03.regs(I03.tight(*shape), 2), I03.fits(shape[0], shape[1], shape[2])), lay))

    def code(tag, ty, body, on):
        args = '()' if body.startswith('{') else ''
        return 'extern "C" %s probe_%s%s %s\nextern "C" %s ref_%s%s %s\n' % (ty, tag, args, traced(body, on), ty, tag, args, body)
    units = []
    for pre, common, tag, ty, body, kw in jobs:
        for variant, out, on in (('same', '(void) 0', 'ON'), ('silent', 'omv_rec_out()', 'false')):
            kw2 = dict(kw, flags=list(kw.get('flags', [])) + ['-DOMV_OUT=' + out], forbid=['omv_rec_out'])
            units.append(('i07_%s_%s' % (variant, tag), pre + common + code('%s_%s' % (variant, tag), ty, body, on), kw2))
    for f in parallel(lambda u: initp.unit(ctx, u[0], u[1], prelude=False, **u[2]), units):
        f.check('trace')
    # options
    F = []
    for o, tr, n2 in (('', 0, 0), ('bom::trace', 1, 0), ('bom::trace&', 1, 0), ('const bom::trace&', 1, 0), ('bom::trace&&', 1, 0), ('bom::n2216&', 0, 1), ('bom::n2216', 0, 1),
                      ('bom::n2216, const bom::trace&', 1, 1), ('const bom::trace, bom::n2216&', 1, 1), ('other&', 0, 0), ('other, bom::trace&', 1, 0), ('const bom::n2216&, other', 0, 1), ('int, bom::n2216&, bom::trace&', 1, 1)):
        t = 'decltype(bom::initialize<TR>(%s))' % ', '.join('std::declval<%s>()' % x for x in o.split(', ') if x)
        F.append(('has_trace with (%s)' % o, '%s::has_trace == %s' % (t, 'true' if tr else 'false')))
        F.append(('has_n2216 with (%s)' % o, '%s::has_n2216 == %s' % (t, 'true' if n2 else 'false')))
        F.append(('options of (%s)' % o, 'std::is_same_v<decltype(std::declval<%s>().options), std::tuple<%s>>' % (t, ', '.join(re.sub(r'const |&', '', x) for x in o.split(', ') if x))))
    teng.Types(ctx, '#include <boost/openmethod.hpp>\n#include <boost/openmethod/initialize.hpp>\n#include <boost/openmethod/policies/std_rtti.hpp>\nnamespace bom = boost::openmethod; struct other {};\n'
               'using TR = bom::registry<bom::policies::std_rtti, bom::policies::stderr_output>;\n').facts('options', F)
    pre = inits.replace('OMV_OUT', '(void) 0') + 'struct other { int i; };\n'
    code, n = '', 0
    for ctor, ref in (('comp_of<bom::trace> c{bom::trace(ON)}', 'ON'), ('comp_of<bom::n2216, bom::trace> c{bom::n2216(), bom::trace(ON)}', 'ON'), ('comp_of<bom::trace, other> c{bom::trace(ON), other()}', 'ON'),
                      ('bom::trace t(ON); comp_of<bom::trace> c{t}', 'ON'), ('comp_of<bom::trace> c{bom::trace()}', 'true'), ('comp_of<> c', 'false'), ('comp_of<other> c{other()}', 'false')):
        code += 'extern "C" bool probe_on_%d() { %s; return c.tr.on; }\nextern "C" bool ref_on_%d() { return %s; }\n' % (n, ctor, n, ref)
        n += 1
    initp.unit(ctx, 'i07_options', pre + code, prelude=False, project=True).check('options')
    flow.Flow(ctx, 'i07_env', '#include <boost/openmethod/preamble.hpp>\nnamespace bom = boost::openmethod;\n'
              'extern "C" bool probe_env() { return bom::trace::from_env().on; }\n'
              'extern "C" bool ref_env() { const char* e = getenv("BOOST_OPENMETHOD_TRACE"); return e && e[0] == \'1\' && e[1] == 0; }\n').check('options')
