"""I08: initialization is a deterministic function of the registrations."""
import vlib
from vlib import *
import initp, itertools, re
import I09, P02

# what differs from one run to the next
SOURCES = (r'^(time|clock|rand|rand_r|random|srand|srandom|drand48|lrand48|mrand48|arc4random\w*|getrandom|getentropy|gettimeofday|clock_gettime|timespec_get|getpid|gettid|'
           r'pthread_self|getenv|secure_getenv|environ|__environ|std::random_device::.*|std::chrono::_V2::\w+::now\(\)|std::this_thread::.*|__builtin_ia32_rd(rand|seed|tsc).*|llvm\.readcyclecounter)$')
OBJECTS = r'boost::openmethod::detail::(generic_compiler::(class_|method|overrider|group|vtbl_entry|parameter)|class_info|method_info|overrider_info|deferred_\w+)'


def callers(uses, target, through):
    """functions that reach one of target, other than by way of a function in through"""
    back = {}
    for f, us in uses.items():
        for u in us:
            back.setdefault(u, set()).add(f)
    seen, todo = {}, [(t, None) for t in target]
    while todo:
        x, via = todo.pop()
        for f in back.get(x, ()):
            if f not in seen and f not in through:
                seen[f] = x
                todo.append((f, x))
    return seen


def sources(ctx):
    regs = {k: v for k, v in dict(P02.REGISTRIES, **(P02.MORE if ctx.thorough else {})).items() if not k.startswith('twin')}
    for name, (_, uses, path) in zip(regs, parallel(lambda n: P02.module(ctx, 'i08_' + n, P02.HEAD + re.sub(r'\bR_', 'reg_' + n, regs[n][0]) + P02.BODY), list(regs))):
        dem = P02.names(set(uses) | set().union(*uses.values()))
        bad = {s for s in dem if re.match(SOURCES, dem[s]) or s in ('__environ', 'environ')}
        through = {f for f in uses if re.match(r'^boost::openmethod::trace::from_env\(', dem[f])}
        if not through and 'output' not in regs[name][0]:
            raise AnalysisError('trace::from_env not found')
        env = {s for s in bad if 'env' in dem[s]}
        seen = callers(uses, bad - env, set())
        # the environment is for those who ask for it
        seen.update(callers(uses, env, through))
        roots = sorted(f for f in seen if f.startswith('op_'))
        why = ''
        if roots:
            f = roots[0]
            while f in seen and len(why) < 2000:
                why += dem.get(f, f)[:200] + ' -> '
                f = seen[f]
            why += dem.get(f, f)
        ctx.check('sources', '%s: no operation depends on time, chance, or the environment' % name, not roots, why or '%d functions' % len(uses))
        if len(uses) < 100:
            raise AnalysisError('only %d functions found' % len(uses))
        # ordered by address
        used = {u: f for f, us in uses.items() if 'boost::openmethod' in dem[f] for u in us}
        less = sorted(s for s in dem if re.match(r'^(bool )?std::(less|greater|less_equal|greater_equal)<(const )?%s( const)?\*( const)?>::operator\(\)' % OBJECTS, dem[s]))
        ctx.check('address-order', '%s: no container or algorithm orders objects of the compiler by address' % name, not less, dem[less[0]][:300] if less else '%d functions' % len(uses))
        fn, hits = None, []
        for l in open(path):
            m = re.match(r'^define .*?' + P02.NAME + r'\(', l)
            if m:
                fn = dem[m.group(1).strip('"')]
                # a function of the library that takes pointers to objects of the compiler
                fn = fn if re.search(r'boost::openmethod', fn) and re.search(OBJECTS + r'( const)?\*', re.sub(r'^.*\(', '(', fn)) and not re.search(r'^std::|^__gnu_cxx::|^boost::(?!openmethod)', re.sub(r'^(bool|void|auto) ', '', fn)) else None
            elif fn and re.search(r'= icmp [us](lt|gt|le|ge) ptr', l):
                hits.append(fn)
        ctx.check('address-order', '%s: no comparison of addresses of objects of the compiler' % name, not hits, hits[0][:300] if hits else '')


def run(ctx):
    ctx.explanation.append(
        'Sources of non-determinism: in the unoptimized code of a program that uses every operation on a registry, no operation '
        'reaches a function that reads the time, a random device, an identity of the process, or the environment, other than '
        'trace::from_env; and objects of the compiler are not ordered by address. Hash order: build_dispatch_tables is compiled as for '
        'I02, with the derived classes of each parameter enumerated in several orders: the entry that the tables select for each '
        'combination of classes must be that of the specification, which does not depend on the order.')
    ctx.assumptions += ['the random engine has a fixed seed and no state outlives a search (P06)', 'clang 18 preserves semantics']
    sources(ctx)
    sets = [[(1, [[0, 1]])], [(2, [[3, 1]])], [(2, [[0, 3, 2]])], [(2, [[3, 1], [3, 2]])], [(2, [[1, 3, 1], [2, 3]])], [(1, [[1, 0], [1, 1]]), (1, [[0, 1]])], [(1, [[1, 0], [1, 1], [0, 1]])]]
    if ctx.thorough:
        sets += [[(2, [[3, 1], [3, 2], [1, 3]])], [(2, [[0, 1, 2, 3]])], [(1, [[0, 1, 1], [1, 0, 1]])]]
    out = []
    orders = [lambda l: l[::-1], lambda l: l[1:] + l[:1]] + ([lambda l: l[-1:] + l[:-1], lambda l: l[:1] + l[:0:-1]] if ctx.thorough else [])
    for n, ms in enumerate(sets):
        done = set()
        for o, order in enumerate(orders):
            x = I09.Instance(ms, order)
            key = str([order(list(range(len(c)))) for _, dims in ms for c in dims])
            if key in done:
                continue
            done.add(key)
            base = 0
            for k, (cnt, dims) in enumerate(ms):
                slots = x.slots(k)
                p, r = [], []
                for i, t in enumerate(x.tuples(k)):
                    m = (1 << cnt) - 1 & I09._and([dims[d][c] for d, c in enumerate(t)])
                    idx = ' + '.join('K%d.vtbl[%d].group_index%s' % (c, slots[d] - x.first(c), ' * m%d.strides[%d]' % (k, d - 1) if d else '') for d, c in enumerate(t))
                    p.append('(unsigned long) code(m%d, %d, m%d.dispatch_table[%s]) << %d' % (k, cnt, k, idx, 4 * i))
                    r.append('(unsigned long) cell(undominated(%d, %d, %d, %d)) << %d' % (m, cnt, len(dims), base, 4 * i))
                tag = '%d_%d_%d' % (n, k, o)
                out.append('extern "C" unsigned long probe_order_%s() {%s%s comp.build_dispatch_tables(); return %s; }\n'
                           'extern "C" unsigned long ref_order_%s() {%s return %s; }\n' % (tag, x.assume(), x.setup(), ' | '.join(p), tag, x.assume(), ' | '.join(r)))
                base += cnt * len(dims)
    for f in parallel(lambda k: initp.unit(ctx, 'i08_g%d' % k, I09.COMMON + out[k], opaque=True, cap=8, depth=5, project=True), list(range(len(out)))):
        f.check('hash-order')
