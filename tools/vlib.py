"""Shared plumbing of the checks: obligations, evidence, exit codes."""
import os, sys, json, time, subprocess, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OM_REPO', '/repo')
INC = os.path.join(REPO, 'include')
CLANGXX = '/usr/bin/clang++-18'
GXX = '/usr/bin/g++'
JOBS = max(2, os.cpu_count() or 2)


class AnalysisError(Exception):
    """The analysis could not be carried out (neither pass nor violation)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors='replace', **kw)


def parallel(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.tmp = os.environ.get('OMV_KEEP') or tempfile.mkdtemp(prefix='omv_')
        if not os.environ.get('OMV_KEEP'):
            atexit.register(shutil.rmtree, self.tmp, True)
        self.results = []      # (rule, instance, ok, detail)
        self.undecided = []    # (rule, instance, why): outside the analysis
        self.coverage = {}
        self.assumptions = []
        self.level = 'other'
        self.explanation = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def check(self, rule, instance, ok, detail=''):
        self.results.append((rule, instance, bool(ok), detail))
        return ok

    def count(self, name, n):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def need(self, n, what):
        """Vacuity guard: the analysis must have found something to decide."""
        if n < 1:
            raise AnalysisError('nothing to analyse: ' + what)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                key, _, what = l[len('finding: property=%s ' % pid):].partition(' -- ')
                out.append((key.strip(), what))
    return out


def finish(ctx):
    # An obligation whose code has left the fragment that the engine decides
    # is reported as not explored; when that is most of a rule, the check
    # gives no answer.
    for rule in sorted({u[0] for u in ctx.undecided}):
        left = [u for u in ctx.undecided if u[0] == rule]
        print('note: %d obligations of %s are undecided, e.g. %s' % (len(left), rule, left[0][2][:300]))
        if all(r[2] for r in ctx.results) and len(left) > sum(r[0] == rule for r in ctx.results):
            raise AnalysisError('most of %s is undecided: %s: %s' % (rule, left[0][1], left[0][2]))
    failed = [r for r in ctx.results if not r[2]]
    known = known_findings(ctx.pid)
    unlisted = []
    for r in failed:
        k = [w for key, w in known if key == '%s:%s' % (r[0], r[1])]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k[0]))
        else:
            unlisted.append(r)
    rules = {}
    for r in ctx.results:
        d = rules.setdefault(r[0], {'obligations': 0, 'held': 0})
        d['obligations'] += 1
        d['held'] += r[2]
    cov = dict(ctx.coverage)
    cov['obligations'] = len(ctx.results)
    cov['discharged'] = len(ctx.results) - len(failed)
    cov['rules'] = rules
    cov['undecided'] = ['%s: %s: %s' % (a, b, c[:200]) for a, b, c in ctx.undecided]
    cov['explanation'] = ' '.join(ctx.explanation)
    cov['instances'] = ['%s: %s' % (r[0], r[1]) for r in ctx.results][:400]
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed,
          'level': ctx.level, 'coverage': cov, 'assumptions': ctx.assumptions,
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(unlisted)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rep = os.path.join(VERIF, 'evidence', ctx.pid + '.violation.txt')
    if os.path.exists(rep):
        os.remove(rep)
    print('%s: %d obligations, %d held, %d known findings, %.1fs' % (
        ctx.pid, len(ctx.results), len(ctx.results) - len(failed),
        len(failed) - len(unlisted), time.time() - ctx.t0))
    if unlisted:
        with open(rep, 'w') as f:
            for rule, inst, _, detail in unlisted:
                f.write('rule: %s\ninstance: %s\n%s\n\n' % (rule, inst, detail))
        for rule, inst, _, detail in unlisted[:8]:
            print('  [%s] %s\n%s' % (rule, inst, '\n'.join(
                '      ' + x for x in detail.splitlines()[:6])))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rep))
        return 1
    return 0
