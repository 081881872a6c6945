"""Type-level engine.

A *fact* is a constant expression that the language itself evaluates while
type checking (static_assert).  A *witness* is a snippet with alternations
@{good@|bad@}: the good variant must type check, the bad variant - the same
program, with only the alternation changed - must be rejected."""
import os, re
from vlib import *

ALT = re.compile(r'@\{(.*?)@\|(.*?)@\}', re.S)


def variants(code):
    good = ALT.sub(lambda m: m.group(1), code)
    n = len(ALT.findall(code))
    bad = ALT.sub(lambda m: m.group(2), code) if n else None
    return good, bad


class Types:
    def __init__(self, ctx, prelude, std=17, extra=()):
        self.ctx, self.std, self.extra = ctx, std, list(extra)
        d = os.path.join(ctx.tmp, 't%d_%d' % (std, abs(hash(prelude)) % 10**8))
        os.makedirs(d, exist_ok=True)
        self.dir = d
        self.prelude = os.path.join(d, 'prelude.hpp')
        with open(self.prelude, 'w') as f:
            f.write(prelude)
        self.pch = os.path.join(d, 'prelude.pch')
        r = run([CLANGXX] + self.flags() + ['-x', 'c++-header', self.prelude, '-o', self.pch])
        self.pch_ok = r.returncode == 0
        self.pch_err = r.stderr

    def flags(self):
        return ['-std=c++%d' % self.std, '-I' + INC, '-w', '-ferror-limit=0',
                '-DNDEBUG'] + self.extra

    def clang(self, name, code):
        src = os.path.join(self.dir, re.sub(r'\W', '_', name) + '.cpp')
        with open(src, 'w') as f:
            f.write(code)
        return run([CLANGXX] + self.flags() + ['-include-pch', self.pch, '-fsyntax-only', src]), src

    def gxx(self, name, code):
        src = os.path.join(self.dir, re.sub(r'\W', '_', name) + '_g.cpp')
        with open(src, 'w') as f:
            f.write(code)
        fl = [x for x in self.flags() if not x.startswith('-ferror') and x != '-fno-access-control']
        return run([GXX] + fl + ['-fno-access-control'] * ('-fno-access-control' in self.extra) +
                   ['-fmax-errors=0', '-include', self.prelude, '-O0', '-S', '-o', '/dev/null', src]), src

    def must_parse(self):
        if not self.pch_ok:
            # the library's own headers do not compile: no verdict
            raise AnalysisError('prelude does not compile:\n' + first_errors(self.pch_err))

    def facts(self, rule, facts, gxx=None):
        """facts: list of (name, constant expression)."""
        self.must_parse()
        ctx = self.ctx
        ctx.need(len(facts), rule)
        lines = []
        for i, (name, expr) in enumerate(facts):
            lines.append('#line %d "fact"' % (i + 1))
            lines.append('static_assert((%s), "F");' % ' '.join(expr.split()))
        code = '\n'.join(lines) + '\n'
        runs = [('clang++', self.clang)]
        if gxx if gxx is not None else ctx.thorough:
            runs.append(('g++', self.gxx))
        for tool, fn in runs:
            r, _ = fn('facts_' + rule, code)
            bad = {}
            for m in re.finditer(r'^fact:(\d+)(?::\d+)?: (?:fatal )?error: (.*)$', r.stderr, re.M):
                bad.setdefault(int(m.group(1)), m.group(2))
            # hard errors inside library templates name the fact that asked
            # for the instantiation in their notes
            if r.returncode:
                for m in re.finditer(r'^fact:(\d+)(?::\d+)?:\s+(?:note: |  required from|required from)', r.stderr, re.M):
                    bad.setdefault(int(m.group(1)), 'hard error while type checking')
            if r.returncode and not bad:
                raise AnalysisError('%s: %s' % (rule, first_errors(r.stderr)))
            for i, (name, expr) in enumerate(facts):
                ctx.check(rule, '%s [%s c++%d]' % (name, tool, self.std), (i + 1) not in bad,
                          'static_assert(%s)\n%s\n%s' % (expr, bad.get(i + 1, ''), first_errors(r.stderr, 2)))
        ctx.count('type_facts', len(facts) * len(runs))

    def witnesses(self, rule, cases, gxx=None):
        """cases: list of (name, code)."""
        self.must_parse()
        ctx = self.ctx
        ctx.need(len(cases), rule)
        jobs = []
        tools = [('clang++', self.clang)]
        if gxx if gxx is not None else ctx.thorough:
            tools.append(('g++', self.gxx))
        for name, code in cases:
            good, bad = variants(code)
            for tool, fn in tools:
                jobs.append((name, tool, 'good', good, fn))
                if bad is not None:
                    jobs.append((name, tool, 'bad', bad, fn))

        def one(j):
            name, tool, kind, code, fn = j
            r, src = fn('%s_%s_%s' % (rule, name, kind), code)
            return j, r
        for (name, tool, kind, code, fn), r in parallel(one, jobs):
            tag = '%s [%s c++%d]' % (name, tool, self.std)
            if kind == 'good':
                ctx.check(rule + '/accepts', tag, r.returncode == 0,
                          'well-formed program rejected:\n%s\n%s' % (first_errors(r.stderr), code))
            else:
                ctx.check(rule + '/rejects', tag, r.returncode != 0,
                          'ill-formed program accepted (its well-formed twin compiles):\n' + code)
        ctx.count('compile_witnesses', len(jobs))


def first_errors(err, n=4):
    out = []
    for l in err.splitlines():
        if re.search(r'error:', l) or (out and 'requested here' in l and len(out) < 2 * n):
            out.append(l)
        if len(out) >= 2 * n:
            break
    return '\n'.join(out) or err[:600]
