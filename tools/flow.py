"""Gated value-graph engine.

A function of the optimised IR (acyclic after inlining) is turned into a
canonical *gated value graph*: every SSA value is a hash-consed term, control
dependence is carried by decision diagrams over atomic conditions, calls that
may have effects form an ordered, gated event list, and memory is a log of
writes with base/offset disambiguation.  Two functions with the same graph
compute the same results and perform the same externally visible actions for
every input; nothing is executed and no path is enumerated."""
import os, re, json, itertools
from vlib import *

IRX = os.path.join(VERIF, 'build', 'irx')
DC = 'DC'          # don't-care leaf


def ensure_irx():
    import hashlib
    src = b''.join(open(os.path.join(VERIF, 'engine', x), 'rb').read() for x in ('irx.cpp', 'phigep.cpp'))
    st = os.path.join(VERIF, 'build', 'irx.stamp')
    if not os.path.exists(IRX) or not os.path.exists(st) or open(st).read().strip() != hashlib.sha256(src).hexdigest():
        r = run(['bash', os.path.join(VERIF, 'tools', 'setup.sh')])
        if r.returncode or not os.path.exists(IRX):
            raise AnalysisError('cannot build irx: ' + r.stderr[:500])


# ------------------------------------------------------------------ terms
class Mgr:
    def __init__(self):
        self.terms, self.tid = [], {}
        self.nodes, self.nid = [], {}
        self.T, self.F, self.X = self.leaf(True), self.leaf(False), self.leaf(DC)
        self.memo_ite = {}
        self.groups = {}
        self.refargs = False    # arguments are the addresses of distinct objects

    # terms are hash-consed tuples, referred to by integer
    def t(self, *tup):
        k = self.tid.get(tup)
        if k is None:
            k = len(self.terms)
            self.terms.append(tup)
            self.tid[tup] = k
        return k

    def __getitem__(self, i):
        return self.terms[i]

    # decision diagrams: (var, hi, lo) with var = term id of an atom, or leaf
    def node(self, var, hi, lo):
        if hi == lo:
            return hi
        if hi == self.X:
            return lo
        if lo == self.X:
            return hi
        k = (var, hi, lo)
        i = self.nid.get(k)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(k)
            self.nid[k] = i
            if i > 400000:
                raise AnalysisError('value graph too large')
        return i

    def leaf(self, x):
        k = ('leaf', x if not isinstance(x, bool) else ('b', x))
        i = self.nid.get(k)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(('leaf', x, None))
            self.nid[k] = i
        return i

    def isleaf(self, n):
        return self.nodes[n][0] == 'leaf'

    def lv(self, n):
        return self.nodes[n][1]

    def var(self, n):
        v = self.nodes[n][0]
        return None if v == 'leaf' else v

    def cof(self, n, var):
        v, hi, lo = self.nodes[n]
        if v == var:
            return hi, lo
        return n, n

    def atom(self, t):
        return self.node(t, self.T, self.F)

    def applyn(self, fn, care, ns, memo=None):
        """leaf-wise application under a care set."""
        memo = {} if memo is None else memo

        def rec(care, ns):
            if care == self.F:
                return self.X
            k = (care, ns)
            r = memo.get(k)
            if r is not None:
                return r
            vs = [v for v in (self.var(n) for n in (care,) + ns) if v is not None]
            # once all operands are leaves the care set no longer matters
            ov = [v for v in (self.var(n) for n in ns) if v is not None]
            if not ov:
                ls = [self.lv(n) for n in ns]
                r = self.X if any(x is DC for x in ls) else self.leaf(fn(*ls))
            else:
                v = min(vs)
                c1, c0 = self.cof(care, v)
                p = [self.cof(n, v) for n in ns]
                r = self.node(v, rec(c1, tuple(a for a, _ in p)),
                              rec(c0, tuple(b for _, b in p)))
            memo[k] = r
            return r
        return rec(care, tuple(ns))

    def bind(self, fn, care, ns):
        """like applyn, but fn yields a diagram that is spliced in."""
        memo = {}

        def rec(care, ns):
            if care == self.F:
                return self.X
            k = (care, ns)
            r = memo.get(k)
            if r is not None:
                return r
            ov = [v for v in (self.var(n) for n in ns) if v is not None]
            if not ov:
                ls = [self.lv(n) for n in ns]
                r = self.X if any(x is DC for x in ls) else fn(*ls)
            else:
                vs = ov + ([self.var(care)] if self.var(care) is not None else [])
                v = min(vs)
                c1, c0 = self.cof(care, v)
                p = [self.cof(n, v) for n in ns]
                r = self.ite(self.atom(v), rec(c1, tuple(a for a, _ in p)),
                             rec(c0, tuple(b for _, b in p)))
            memo[k] = r
            return r
        return rec(care, tuple(ns))

    def ite(self, c, a, b):
        if c == self.T or a == b:
            return a
        if c == self.F:
            return b
        if c == self.X:
            return a if b == self.X else b if a == self.X else a
        k = (c, a, b)
        r = self.memo_ite.get(k)
        if r is not None:
            return r
        v = min(x for x in (self.var(c), self.var(a), self.var(b)) if x is not None)
        c1, c0 = self.cof(c, v)
        a1, a0 = self.cof(a, v)
        b1, b0 = self.cof(b, v)
        r = self.node(v, self.ite(c1, a1, b1), self.ite(c0, a0, b0))
        self.memo_ite[k] = r
        return r

    def And(self, a, b):
        return self.ite(a, b, self.F)

    def Or(self, a, b):
        return self.ite(a, self.T, b)

    def Not(self, a):
        return self.ite(a, self.F, self.T)

    def restrict(self, f, care):
        """f outside of care becomes don't care."""
        return self.applyn(lambda x: x, care, (f,)) if care != self.T else f

    def vars_of(self, *ns):
        seen, out, st = set(), set(), list(ns)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            v, a, b = self.nodes[n]
            if v != 'leaf':
                out.add(v)
                st += [a, b]
        return out

    # ---------------------------------------------------- linear forms
    def const(self, w, v):
        return self.t('c', w, v % (1 << w))

    def lin_of(self, t):
        x = self.terms[t]
        if x[0] == 'c':
            return x[1], x[2], {}
        if x[0] == 'lin':
            return x[1], x[2], dict(x[3])
        return None, 0, {t: 1}

    def mklin(self, w, c, d):
        mod = 1 << w
        items = []
        for t, k in sorted(d.items()):
            k %= mod
            if k:
                items.append((t, k if k < mod // 2 else k - mod))
        c %= mod
        if not items:
            return self.t('c', w, c)
        # (a/s)*s == a for exact divisions
        for i, (t, k) in enumerate(items):
            x = self.terms[t]
            if x[0] == 'exact' and k % x[2] == 0:
                rest = dict(items[:i] + items[i + 1:])
                _, c2, d2 = self.lin_of(x[1])
                for t2, k2 in d2.items():
                    rest[t2] = rest.get(t2, 0) + k2 * (k // x[2])
                return self.mklin(w, c + c2 * (k // x[2]), rest)
        if c == 0 and len(items) == 1 and items[0][1] == 1:
            return items[0][0]
        return self.t('lin', w, c, tuple(items))

    def add(self, w, a, b, s=1):
        _, ca, da = self.lin_of(a)
        _, cb, db = self.lin_of(b)
        d = dict(da)
        for t, k in db.items():
            d[t] = d.get(t, 0) + s * k
        return self.mklin(w, ca + s * cb, d)

    def scale(self, w, a, k):
        _, c, d = self.lin_of(a)
        return self.mklin(w, c * k, {t: x * k for t, x in d.items()})

    def signed(self, w, v):
        return v - (1 << w) if v >= 1 << (w - 1) else v

    # ---------------------------------------------------- comparisons
    def eq(self, w, a, b):
        d = self.add(w, a, b, -1)
        x = self.terms[d]
        if x[0] == 'c':
            return self.T if x[2] == 0 else self.F
        _, c, dd = self.lin_of(d)
        if len(dd) == 1:
            (t, k), = dd.items()
            if self.nonzero(t) and (c == 0 or self.refargs and k in (1, -1) and abs(self.signed(w, c)) < 4096):
                return self.F
            x = self.terms[t]
            if x[:2] == ('op', 'zext') and k in (1, (1 << w) - 1, -1) and (c if k != 1 else -c) % (1 << w) >= 1 << x[4]:
                return self.F
            # nor is the address of a part of a local variable null
            if self.terms[t][0] == 'alloca' and k in (1, -1) and abs(self.signed(w, c)) < 1 << 20:
                return self.F
        # two distinct objects have distinct addresses
        if len(dd) == 2 and sorted(dd.values()) == [-1, 1]:
            p, q = dd
            if self.terms[p][0] in ('g', 'alloca', 'esc') and self.terms[q][0] in ('g', 'alloca', 'esc'):
                return self.F
            if any(self.terms[x][0] == 'alloca' for x in (p, q)):
                return self.F
            if self.refargs and all(self.terms[x][0] in ('arg', 'g') for x in (p, q)):
                return self.F
            z = self.widened(p, q)
            if c == 0 and z:
                return self.eq(*z)
        if dd and min(dd.items())[1] < 0:
            d = self.scale(w, d, -1)
        at = self.t('eq0', w, d)
        _, c, dd = self.lin_of(d)
        self.groups.setdefault((w, tuple(sorted(dd.items()))), {})[at] = ('eq', (-c) % (1 << w))
        return self.atom(at)

    def widened(self, a, b):
        """two numbers that were zero-extended from the same width"""
        x, y = self.terms[a], self.terms[b]
        if x[:2] == y[:2] == ('op', 'zext') and x[4] == y[4]:
            return x[4], x[3], y[3]

    def above(self, w, t):
        """t as x + k that cannot wrap around: x was zero-extended"""
        x = self.terms[t]
        if x[0] == 'lin' and x[1] == w and len(x[3]) == 1 and x[3][0][1] == 1:
            y = self.terms[x[3][0][0]]
            if y[:2] == ('op', 'zext') and x[2] + (1 << y[4]) <= 1 << w:
                return x[3][0][0], x[2]
        return t, 0

    def nonzero(self, t):
        if self.refargs and self.terms[t][0] == 'arg':
            return True
        return self.terms[t][0] in ('g', 'alloca', 'esc', 'nonnull')

    def ult(self, w, a, b, sg=False):
        A, B = self.terms[a], self.terms[b]
        S = (lambda v: self.signed(w, v)) if sg else (lambda v: v)
        lo = -(1 << (w - 1)) if sg else 0
        hi = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
        if a == b:
            return self.F
        z = None if sg else self.widened(a, b)
        if z:
            return self.ult(*z)
        if A[0] == 'c' and B[0] == 'c':
            return self.T if S(A[2]) < S(B[2]) else self.F
        if B[0] == 'c':
            v = S(B[2])
            if v == lo:
                return self.F
            if v == lo + 1 and not sg:
                return self.eq(w, a, self.const(w, lo))
            if v == hi:
                return self.Not(self.eq(w, a, b))
            if A[:2] == ('op', 'mul') and (v == 0 if sg else v & -v >= 1 << (w // 2)):
                # the high bits of a product
                k = w - 1 if sg else (v & -v).bit_length() - 1
                r = self.ult(w, self.t('op', 'lshr', w, a, self.const(w, k)), self.const(w, 1 if sg else v >> k))
                return self.Not(r) if sg else r
            if not sg and A[0] == 'op':
                top = (1 << A[4]) - 1 if A[1] == 'zext' else hi >> self.terms[A[4]][2] if A[1] == 'lshr' and self.terms[A[4]][0] == 'c' and self.terms[A[4]][2] < w else hi
                if top < v:
                    return self.T
        if A[0] == 'c':
            v = S(A[2])
            if v == hi:
                return self.F
            return self.Not(self.ult(w, a=b, b=self.const(w, v + 1), sg=sg))
        if not sg:
            (x, k), (y, m) = self.above(w, a), self.above(w, b)
            if k and B[0] == 'c':
                return self.ult(w, x, self.const(w, B[2] - k)) if B[2] > k else self.F
            if k and m:
                j = min(k, m)
                return self.ult(w, self.add(w, x, self.const(w, k - j)), self.add(w, y, self.const(w, m - j)))
            if m == 1:
                return self.Not(self.ult(w, y, a))
        at = self.t('slt' if sg else 'ult', w, a, b)
        if B[0] == 'c' and not sg:
            _, c, dd = self.lin_of(a)
            if c == 0:
                self.groups.setdefault((w, tuple(sorted(dd.items()))), {})[at] = ('ult', B[2])
        return self.atom(at)

    def care_of(self, *ns):
        """constraints between the atoms that occur in the diagrams."""
        care = self.T
        vs = self.vars_of(*ns)
        # a strict order among values: a < b is (b <= a) negated
        lt = {}
        for v in vs:
            x = self.terms[v]
            if x[0] in ('ult', 'slt'):
                lt.setdefault(x[:2], {})[x[2:]] = self.atom(v)
        for (k, w), m in lt.items():
            deep = len(m) <= 12
            if k == 'ult':      # nothing is less than zero
                zero = self.const(w, 0)
                zs = {t: z for t in {t for p in m for t in p} for z in [self.eq(w, t, zero)] if not self.isleaf(z) and self.var(z) in vs}
                for (a, b), ab in m.items():
                    if b in zs:
                        care = self.And(care, self.Not(self.And(ab, zs[b])))
                        if a in zs:
                            care = self.And(care, self.Or(self.Or(ab, zs[b]), self.Not(zs[a])))
            ts = {t for p in m for t in p}
            rel = {(a, b): m[a, b] for a, b in m}
            rel.update({(a, a): self.F for a in ts})
            for (a, b), ab in list(rel.items()):
                if (b, a) in m:
                    care = self.And(care, self.Not(self.And(ab, m[b, a])))
                d = self.terms[self.add(w, a, b, -1)]
                if a != b and d[0] != 'c':
                    d = self.eq(w, a, b)
                    if not self.isleaf(d) and self.var(d) in vs:
                        care = self.And(care, self.Not(self.And(ab, d)))
                for c in ts if deep else ():
                    if len({a, b, c}) < 3 or (b, c) not in m:
                        continue
                    bc = m[b, c]
                    if (a, c) in m:     # a < b < c; not a < b and not b < c
                        care = self.And(care, self.Or(self.Not(self.And(ab, bc)), m[a, c]))
                        care = self.And(care, self.Or(self.Or(ab, bc), self.Not(m[a, c])))
                    if (c, a) in m:
                        care = self.And(care, self.Not(self.And(self.And(ab, bc), m[c, a])))
        for g in self.groups.values():
            ats = sorted(a for a in g if a in vs)
            for a, b in itertools.combinations(ats, 2):
                (ka, va), (kb, vb) = g[a], g[b]
                A, B = self.atom(a), self.atom(b)
                if ka == kb == 'eq':
                    care = self.And(care, self.Not(self.And(A, B)))
                elif ka == kb == 'ult':
                    s, l = (A, B) if va <= vb else (B, A)
                    care = self.And(care, self.Or(self.Not(s), l))
                else:
                    e, ev, u, uv = (A, va, B, vb) if ka == 'eq' else (B, vb, A, va)
                    care = self.And(care, self.Or(self.Not(e), u if ev < uv else self.Not(u)))
        return care

    def under(self, o, asg):
        """outcome o with the equalities of the path condition substituted."""
        m = {}
        for t, v in asg:
            x = self.terms[t]
            if not v or x[0] != 'eq0':
                continue
            w, c, d = x[1], *self.lin_of(x[2])[1:]
            for u in sorted(d, reverse=True):
                if d[u] in (1, -1) and self.terms[u][0] not in ('g', 'alloca', 'esc', 'arg') and u not in m:
                    rest = {k: (-n if d[u] == 1 else n) for k, n in d.items() if k != u}
                    m[u] = self.mklin(w, -c if d[u] == 1 else c, rest)
                    break
        if not m:
            return o
        memo = {}

        def go(t):
            if t in memo:
                return memo[t]
            x = self.terms[t]
            k = x[0]
            if t in m:
                memo[t] = t
                r = go(m[t])
            elif k == 'lin':
                r = self.const(x[1], x[2])
                for u, n in x[3]:
                    r = self.add(x[1], r, self.scale(x[1], go(u), n))
            elif k == 'load':
                r = self.t('load', go(x[1]), *x[2:])
            elif k == 'pure':
                r = self.t('pure', x[1], tuple(go(u) for u in x[2]), *x[3:])
            elif k == 'op':
                n = 4 if x[1] in ('zext', 'sext', 'trunc') else len(x)
                r = self.t(*x[:3], *(go(u) if isinstance(u, int) and not isinstance(u, bool) else u for u in x[3:n]), *x[n:])
            elif k == 'ev':
                r = self.t('ev', None if x[1] is None else go(x[1]), go(x[2]), tuple(go(u) for u in x[3]),
                           tuple((go(a), n, go(v)) for a, n, v in x[4]), *x[5:])
            elif k == 'res':
                r = self.t('res', go(x[1]))
            else:
                r = t
            if r in m and r != t:
                r = go(r)
            memo[t] = r
            return r
        kind, val, tr, ws = o
        return (kind, None if val is None else go(val), None if tr is None else go(tr),
                tuple((go(a), n, go(v)) if n else (a, n, v) for a, n, v in ws))

    def consistent(self, asg):
        """does some order of the values compared satisfy the assignment?"""
        for kind in ('ult', 'slt'):
            le, ne, ws = {}, [], {}
            for t, v in asg:
                x = self.terms[t]
                if x[0] == kind:
                    a, b = (x[2], x[3])
                    if v:
                        le.setdefault(a, {})[b] = True
                    else:
                        le.setdefault(b, {}).setdefault(a, False)
                    ws.setdefault(x[1], set()).update((a, b))
            for w, ts in ws.items():
                if kind == 'ult':
                    zero = self.const(w, 0)
                    for u in ts - {zero}:
                        le.setdefault(zero, {}).setdefault(u, False)
                    ts.add(zero)
                cs = sorted((self.terms[u] for u in ts if self.terms[u][0] == 'c'), key=lambda x: self.signed(w, x[2]) if kind == 'slt' else x[2])
                for x, y in zip(cs, cs[1:]):
                    le.setdefault(self.const(w, x[2]), {})[self.const(w, y[2])] = True
                for x, y in itertools.combinations(sorted(ts), 2):
                    d = self.add(w, x, y, -1)
                    if self.terms[d][0] == 'c':
                        continue
                    e = self.eq(w, x, y)
                    if self.isleaf(e):
                        continue
                    for t, v in asg:
                        if t == self.var(e):
                            if v == (self.nodes[e][1] == self.T):
                                le.setdefault(x, {}).setdefault(y, False)
                                le.setdefault(y, {}).setdefault(x, False)
                            else:
                                ne.append((x, y))
            ns = sorted(set(le) | {y for m in le.values() for y in m})
            r = {(x, y): s for x, m in le.items() for y, s in m.items()}
            for k in ns:
                for i in ns:
                    if (i, k) in r:
                        for j in ns:
                            if (k, j) in r and not r.get((i, j)):
                                r[i, j] = r[i, k] or r[k, j]
            if any(r.get((x, x)) for x in ns) or any((x, y) in r and (y, x) in r for x, y in ne):
                return False
        return True

    def first_diff(self, f, g, care):
        """None, or (assignment, leaf f, leaf g) where they differ."""
        seen = set()

        def rec(f, g, c, asg):
            if c == self.F or f == g or f == self.X or g == self.X:
                return None
            if (f, g, c) in seen:
                return None
            seen.add((f, g, c))
            vs = [v for v in (self.var(f), self.var(g), self.var(c)) if v is not None]
            if self.isleaf(f) and self.isleaf(g):
                x, y = self.lv(f), self.lv(g)
                if self.under(x, asg) == self.under(y, asg):
                    return None
                return asg, x, y
            v = min(vs)
            f1, f0 = self.cof(f, v)
            g1, g0 = self.cof(g, v)
            c1, c0 = self.cof(c, v)
            return rec(f1, g1, c1, asg + [(v, True)]) or rec(f0, g0, c0, asg + [(v, False)])
        d = rec(f, g, care, [])
        if d is None or self.consistent(d[0]):
            return d
        # the assignment is absurd: path by path
        steps = [0]

        def walk(f, g, c, asg):
            if c == self.F or f == g or f == self.X or g == self.X:
                return None
            steps[0] += 1
            if steps[0] > 5000:
                raise AnalysisError('too many paths to tell whether the difference is possible')
            vs = [v for v in (self.var(f), self.var(g), self.var(c)) if v is not None]
            if self.isleaf(f) and self.isleaf(g):
                x, y = self.lv(f), self.lv(g)
                return None if self.under(x, asg) == self.under(y, asg) else (asg, x, y)
            v = min(vs)
            for val, i in ((True, 0), (False, 1)):
                n = asg + [(v, val)]
                if self.terms[v][0] in ('ult', 'slt', 'eq0') and not self.consistent(n):
                    continue
                r = walk(self.cof(f, v)[i], self.cof(g, v)[i], self.cof(c, v)[i], n)
                if r:
                    return r
        return walk(f, g, care, [])

    # ---------------------------------------------------- printing
    def show(self, t, depth=7):
        if not isinstance(t, int):
            return str(t)
        if t >= len(self.terms):
            return str(t)
        x = self.terms[t]
        if depth == 0:
            return '..'
        s = lambda u: self.show(u, depth - 1)
        k = x[0]
        if k == 'c':
            return str(self.signed(x[1], x[2]))
        if k == 'lin':
            p = []
            for u, c in x[3]:
                p.append(('%d*' % c if c != 1 else '') + s(u))
            if x[2]:
                p.append(str(self.signed(x[1], x[2])))
            return '(' + ' + '.join(p) + ')'
        if k in ('g', 'fn'):
            return demangle(x[1])
        if k == 'arg':
            return 'arg%d' % x[1]
        if k == 'eq0':
            return s(x[2]) + ' == 0'
        if k in ('ult', 'slt'):
            return s(x[2]) + ' < ' + s(x[3])
        if k == 'load':
            return '[%s]%d' % (s(x[1]), x[2]) + ("'" if x[3] != 'm0' else '')
        if k == 'ev':
            return 'call %s(%s)' % (s(x[2]), ', '.join(s(u) for u in x[3]))
        if k == 'res':
            return 'result of ' + s(x[1])
        if k == 'pure':
            return '%s(%s)' % (s(x[1]), ', '.join(s(u) for u in x[2]))
        if k == 'op':
            return '%s(%s)' % (x[1], ', '.join(s(u) for u in (x[3:4] if x[1] in ('zext', 'sext', 'trunc') else x[3:])))
        return k + '(' + ', '.join(s(u) if isinstance(u, int) and not isinstance(u, bool) and i > 0 and k in ('op', 'exact', 'mem', 'exc', 'throws', 'sub') and u < len(self.terms) else str(u) for i, u in enumerate(x) if i) + ')'

    def show_trace(self, tr):
        out = []
        while tr is not None and self.terms[tr][0] == 'ev':
            x = self.terms[tr]
            w = self.show_writes(x[4])
            out.append(self.show(tr, 8) + (' after ' + w if w else ''))
            tr = x[1]
        return list(reversed(out))

    def calls_of(self, o):
        tr, out = o[2], []
        while tr is not None and self.terms[tr][0] == 'ev':
            f = self.terms[self.terms[tr][2]]
            out.append(f[1] if f[0] == 'g' else '')
            tr = self.terms[tr][1]
        return out

    def show_writes(self, ws):
        return '; '.join('[%s]%d := %s' % (self.show(a), n, self.show(v)) if n else 'dereferences ' + self.show(a) for a, n, v in ws)

    def show_outcome(self, o):
        if o is DC or o == DC:
            return 'unreachable'
        kind, val, tr, ws = o
        l = []
        if tr is not None:
            l += ['  ' + e for e in self.show_trace(tr)]
        if ws:
            l.append('  writes ' + self.show_writes(ws))
        l.append('  ' + kind + (' ' + self.show(val) if val is not None else ''))
        return '\n'.join(l)


_dem = {}


def demangle(n):
    if n not in _dem:
        _dem[n] = run(['c++filt', n]).stdout.strip() if n.startswith('_Z') else n
    return _dem[n]


class Outside(AnalysisError):
    """the function is outside of the fragment that is normalised."""


# ------------------------------------------------------------------ state
class St(tuple):
    """(trace, epoch, writes, escaped, dereferenced): a leaf of the state diagram."""
    __slots__ = ()


IGN = ('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias',
       'llvm.invariant', 'llvm.prefetch', 'llvm.donothing', 'llvm.stacksave', 'llvm.stackrestore')


class Eval:
    def __init__(self, mgr, fn, mod, quiet=lambda n: False, distinct=False):
        self.distinct = distinct
        self.derefs = False
        self.ignore = None
        self.project = False
        self.M, self.fn, self.mod, self.quiet = mgr, fn, mod, quiet
        self.uid = mgr.t('fun', fn['name'])
        self.blocks = {b['id']: b for b in fn['blocks']}
        self.env = {}
        self.out = mgr.X
        self.events = 0
        self.locs = []

    # -------------------------------------------------- operands
    def width(self, ty):
        if ty.startswith('i') and ty[1:].isdigit():
            return int(ty[1:])
        return 64

    def cterm(self, v):
        """constant operand -> term"""
        M = self.M
        k = v[0]
        if k == 'c':
            return M.const(v[1], int(v[2]))
        if k == 'null':
            return M.const(64, 0)
        if k == 'g':
            return M.t('g', v[1])
        if k == 'undef':
            return M.t('undef')
        if k == 'zero':
            return M.t('zero')
        if k == 'gep':
            return M.add(64, self.cterm(v[1]), M.const(64, v[2]))
        if k == 'ce':
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.cterm(v[3][0])
            if v[1] in ('add', 'sub'):
                return M.add(self.width(v[2]), self.cterm(v[3][0]), self.cterm(v[3][1]), 1 if v[1] == 'add' else -1)
            return M.t('ce', json.dumps(v))
        if k == 'agg':
            return M.t('agg', tuple((i, self.cterm(x)) for i, x in enumerate(v[2])))
        return M.t('const', json.dumps(v))

    def val(self, v):
        M = self.M
        if v[0] == 'i':
            return self.env[v[1]]
        if v[0] == 'a':
            return self.args[v[1]]
        return M.leaf(self.cterm(v))

    def boolean(self, n, care):
        """a term diagram of type i1 -> condition"""
        M = self.M

        def f(t):
            x = M[t]
            if x[0] == 'c':
                return M.T if x[2] & 1 else M.F
            return M.atom(M.t('eq0', 1, t)) if False else M.Not(M.eq(1, t, M.const(1, 0)))
        return M.bind(f, care, (n,))

    def frombool(self, c):
        M = self.M
        return M.ite(c, M.leaf(M.const(1, 1)), M.leaf(M.const(1, 0)))

    # -------------------------------------------------- memory
    def base(self, a):
        """split an address into (base term or None, rest, offset)."""
        M = self.M
        _, c, d = M.lin_of(a)
        return tuple(sorted(d.items())), M.signed(64, c)

    def islocal(self, a, st):
        M = self.M
        for t, k in self.base(a)[0]:
            if M[t][0] in ('alloca', 'argmem') and k == 1:
                return t
        return None

    def identified(self, t):
        """the address of an object of its own: a variable, or a new object"""
        x = self.M[t]
        if x[0] == 'res':
            c = self.M[x[1]]
            return c[0] == 'ev' and self.M[c[2]] in (('g', '_Znwm'), ('g', '_Znam'))
        return x[0] in ('alloca', 'g', 'esc', 'argmem')

    def alias(self, a, n, b, m):
        """'no', 'same' or 'may'."""
        M = self.M
        ba, oa = self.base(a)
        bb, ob = self.base(b)
        if ba == bb:
            if oa == ob and n == m:
                return 'same'
            if oa + n <= ob or ob + m <= oa:
                return 'no'
            return 'part'
        la = [t for t, k in ba if k == 1 and self.identified(t)]
        lb = [t for t, k in bb if k == 1 and self.identified(t)]
        if la and lb and la[0] != lb[0]:
            return 'no'
        if (la and M[la[0]][0] in ('alloca', 'argmem')) or (lb and M[lb[0]][0] in ('alloca', 'argmem')):
            return 'no'
        if self.distinct:
            # by assumption, reference arguments denote distinct objects that
            # are not part of the tables
            pa = [t for t, k in ba if M[t][0] == 'arg' and k == 1]
            pb = [t for t, k in bb if M[t][0] == 'arg' and k == 1]
            if pa != pb and (pa or pb):
                return 'no'
        return 'may'

    def load(self, st, a, n):
        M = self.M
        trace, epoch, ws, esc, dr = st
        loc = self.islocal(a, st)
        gs = self.base(a)[0]
        if len(gs) == 1 and gs[0][1] == 1 and M[gs[0][0]][0] == 'g' and M[gs[0][0]][1] in self.mod.get('frozen', ()):
            # never written after its zero initialisation, by assumption
            if not any(self.base(x[0])[0] == gs for x in ws):
                return M.const(8 * n, 0)
        for i in range(len(ws) - 1, -1, -1):
            wa, wn, wv = ws[i]
            r = self.alias(a, n, wa, wn)
            if r == 'same':
                return wv
            if r == 'no':
                continue
            if r == 'part':
                oa, ow = self.base(a)[1], self.base(wa)[1]
                if ow <= oa and oa + n <= ow + wn:
                    return self.sub(wv, oa - ow, n, wn)
                if oa <= ow and ow + wn <= oa + n:
                    # wider load of several narrower writes
                    parts, ok = [], True
                    o = oa
                    while o < oa + n and ok:
                        for wa2, wn2, wv2 in reversed(ws):
                            if self.base(wa2)[0] == self.base(a)[0] and self.base(wa2)[1] == o and o + wn2 <= oa + n:
                                parts.append((o - oa, wn2, wv2))
                                o += wn2
                                break
                        else:
                            ok = False
                    if ok:
                        return self.join(parts, n)
            return M.t('load', a, n, M.t('mem', epoch, tuple(ws[:i + 1])))
        if loc is not None and loc not in dict(esc):
            if M[loc][0] == 'argmem':
                return M.t('load', a, n, 'm0')
            return M.t('undef')
        a = self.rename(st, a)
        gs = self.base(a)[0]
        if len(gs) == 1 and gs[0][1] == 1 and M[gs[0][0]][0] == 'g' and epoch == 'm0' and self.initially_zero(M[gs[0][0]][1]):
            return M.const(8 * n, 0)
        return M.t('load', a, n, epoch)

    def initially_zero(self, name):
        z = self.mod.get('zero', ())
        return bool(z.search(demangle(name))) if hasattr(z, 'search') else name in z

    def deref(self, st, a):
        """remember that memory reached through an unknown pointer was read."""
        M = self.M
        bs = [t for t, _ in self.base(a)[0]]
        if any(M[t][0] in ('alloca', 'argmem', 'arg', 'g', 'esc') for t in bs) or not bs:
            return st
        return St(tuple(st[:4]) + (tuple(sorted(set(st[4]) | {self.rename(st, a)})),))

    def sub(self, v, off, n, tot):
        M = self.M
        x = M[v]
        if off == 0 and n == tot:
            return v
        if x[0] == 'c':
            return M.const(8 * n, x[2] >> (8 * off))
        if x[0] in ('undef',):
            return v
        if x[0] == 'joined':
            for o, k, w in x[1]:
                if o == off and k == n:
                    return w
        return M.t('sub', v, off, n)

    def join(self, parts, n):
        M = self.M
        if all(M[v][0] == 'c' for _, _, v in parts):
            r = 0
            for o, k, v in parts:
                r |= (M[v][2] & ((1 << 8 * k) - 1)) << (8 * o)
            return M.const(8 * n, r)
        # pieces of one value
        if all(M[v][0] == 'sub' for _, _, v in parts) and len({M[v][1] for _, _, v in parts}) == 1 and \
                all(M[v][2] == o for o, _, v in parts):
            return M[parts[0][2]][1]
        return M.t('joined', tuple(parts))

    def rename(self, st, a):
        """escaped locals have canonical names."""
        M = self.M
        esc = dict(st[3])
        _, c, d = M.lin_of(a)
        if any(t in esc for t in d):
            return M.mklin(64, c, {(esc[t] if t in esc else t): k for t, k in d.items()})
        return a

    def store(self, st, a, n, v):
        trace, epoch, ws, esc, dr = st
        M = self.M
        ws = list(ws)
        for i in range(len(ws) - 1, -1, -1):
            wa, wn, _ = ws[i]
            r = self.alias(a, n, wa, wn)
            if r == 'same':
                # overwritten; safe to drop if nothing after may alias
                if all(self.alias(a, n, x, y) == 'no' for x, y, _ in ws[i + 1:]):
                    del ws[i]
                break
            if r == 'part':
                oa, ow = self.base(a)[1], self.base(wa)[1]
                if oa <= ow and ow + wn <= oa + n and all(self.alias(wa, wn, x, y) == 'no' for x, y, _ in ws[i + 1:]):
                    del ws[i]
                    continue
                # split the older write around the new one
                old = ws[i][2]
                del ws[i]
                bt = [(t, k) for t, k in self.base(wa)[0]]
                for lo, hi in ((ow, oa), (oa + n, ow + wn)):
                    if lo < hi:
                        ws.insert(i, (M.mklin(64, lo, dict(bt)), hi - lo, self.sub(old, lo - ow, hi - lo, wn)))
        ws.append((a, n, v))
        return St((trace, epoch, tuple(ws), esc, dr))

    def visible(self, st, allwrites=False):
        """canonical list of the writes that others can observe."""
        M = self.M
        trace, epoch, ws, esc, dr = st
        if self.project:
            return ()
        e = dict(esc)
        vis = []
        for a, n, v in ws:
            l = self.islocal(a, st)
            if l is not None and l not in e:
                continue
            if self.ignore and any(M[t][0] == 'g' and self.ignore(demangle(M[t][1])) for t, _ in self.base(a)[0]):
                continue
            a2 = self.rename(st, a)
            v2 = self.rename(st, v) if M[v][0] in ('lin', 'alloca') else v
            # writing back what is there is no change
            if M[v2] == ('load', a2, n, epoch) and all(
                    self.alias(a2, n, x, y) == 'no' for x, y, _ in vis):
                continue
            vis.append((a2, n, v2))
        # writes that cannot overlap commute: the least ordering of all equivalent ones
        dep = [{j for j in range(i) if self.alias(*vis[i][:2], *vis[j][:2]) != 'no'} for i in range(len(vis))]
        out, left = [], set(range(len(vis)))
        while left:
            i = min((i for i in left if not dep[i] & left), key=lambda i: vis[i])
            left.remove(i)
            out.append(vis[i])
        return tuple(out)

    # -------------------------------------------------- calls
    def callee_name(self, ins):
        return ins.get('callee')

    def do_call(self, ins, care, state):
        M = self.M
        name = ins.get('callee')
        if name and name.startswith(IGN):
            return state, None
        args = [self.val(a) for a in ins['args']]
        ty = ins['ty']
        w = self.width(ty)
        attrs = set(ins.get('attrs', []))
        if name:
            attrs |= set(self.mod['fattrs'].get(name, []))
        if name and name.startswith('llvm.'):
            return self.intrinsic(ins, name, care, state, args)
        if name:
            fn = M.leaf(M.t('g', name))
        else:
            fn = self.val(ins['fp'])
        if 'readnone' in attrs:
            r = M.applyn(lambda f, *a: M.t('pure', f, tuple(a), None), care, (fn,) + tuple(args))
            return state, self.typed(r, ty)
        if 'readonly' in attrs and 'nounwind' in attrs:
            def ro(st, f, *a):
                a = tuple(self.rename(st, x) for x in a)
                return M.t('pure', f, a, M.t('mem', st[1], self.visible(st)))
            r = M.applyn(ro, care, (state, fn) + tuple(args))
            return state, self.typed(r, ty)
        self.events += 1
        if ins.get('loc'):
            self.locs.append((name, ins['loc']))
        if self.project and name in ('_Znwm', '_Znam'):
            # a new object, told apart from any other by where it is created
            cell = M.leaf(M.t('ev', M.t('new', self.events), M.t('g', name), (), ()))
            return state, M.bind(lambda c: M.leaf(M.t('res', c)), care, (cell,))
        quiet = self.project or name is not None and self.quiet(name)

        byval = {i: int(t[6:]) for i, at in enumerate(ins.get('aattr', [])) for t in at if t.startswith('byval:')}

        def ev(st, f, *a):
            trace, epoch, ws, esc, dr = st
            e = dict(esc)
            nargs = []
            for i, x in enumerate(a):
                if i in byval:
                    o, parts = 0, []
                    while o < byval[i]:
                        k = min(8, byval[i] - o)
                        parts.append(self.load(st, M.add(64, x, M.const(64, o)), k))
                        o += k
                    nargs.append(M.t('byval', tuple(parts)))
                    continue
                l = self.islocal(x, st)
                if l is not None and l not in e and not quiet:
                    e[l] = M.t('esc', len(e))
                nargs.append(x)
            # locals whose address was stored somewhere visible escape too
            changed = True
            while changed:
                changed = False
                for wa, wn, wv in ws:
                    lv = self.islocal(wv, st)
                    la = self.islocal(wa, st)
                    if lv is not None and lv not in e and (la is None or la in e):
                        e[lv] = M.t('esc', len(e))
                        changed = True
            esc = tuple(sorted(e.items()))
            st2 = St((trace, epoch, ws, esc, dr))
            vis = () if quiet else self.visible(st2)
            nargs = tuple(self.rename(st2, x) for x in nargs)
            cell = M.t('ev', trace, self.rename(st2, f), nargs, vis)
            if quiet:
                return St((cell, epoch, ws, esc, dr))
            keep = tuple(x for x in ws if self.islocal(x[0], st) is not None and self.islocal(x[0], st) not in e)
            return St((cell, M.t('epoch', cell), keep, esc, dr))
        ns = M.applyn(ev, care, (state, fn) + tuple(args))
        res = None
        if ty != 'void':
            res = self.typed(M.applyn(lambda st: M.t('res', st[0]), care, (ns,)), ty)
        return ns, res

    def typed(self, r, ty):
        # a truth value is the condition that it stands for
        return self.frombool(self.boolean(r, self.M.T)) if ty == 'i1' else r

    def intrinsic(self, ins, name, care, state, args):
        M = self.M
        w = self.width(ins['ty'])
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            def cp(st, d, s, n):
                k = M[n]
                if k[0] != 'c' or k[2] > 1024:
                    raise Outside('memcpy of variable length')
                todo, o = [], 0
                # copy in the granularity of what was written to the source
                ext = sorted((self.base(a)[1] - self.base(s)[1], m) for a, m, _ in st[2]
                             if self.base(a)[0] == self.base(s)[0])
                while o < k[2]:
                    g = [m for x, m in ext if x == o]
                    step = min(g[-1] if g else 8, k[2] - o)
                    if not g:
                        nxt = [x for x, m in ext if x > o]
                        if nxt:
                            step = min(step, nxt[0] - o)
                    todo.append((o, step))
                    o += step
                vals = [(o, m, self.load(st, M.add(64, s, M.const(64, o)), m)) for o, m in todo]
                for o, m, v in vals:
                    st = self.store(st, M.add(64, d, M.const(64, o)), m, v)
                return st
            return M.applyn(cp, care, (state,) + tuple(args[:3])), None
        if name.startswith('llvm.memset'):
            def ms(st, d, v, n):
                k, x = M[n], M[v]
                if k[0] != 'c' or x[0] != 'c' or k[2] > 1 << 20:
                    raise Outside('memset of variable length')
                o = 0
                while o < k[2]:
                    # (large blocks as a single, wide write)
                    m = min(8, k[2] - o) if k[2] <= 1024 else k[2]
                    val = int.from_bytes(bytes([x[2] & 255]) * m, 'little')
                    st = self.store(st, M.add(64, d, M.const(64, o)), m, M.const(8 * m, val))
                    o += m
                return st
            return M.applyn(ms, care, (state,) + tuple(args[:3])), None
        if name.startswith('llvm.expect'):
            return state, args[0]
        if name.startswith('llvm.is.constant'):
            return state, M.leaf(M.const(1, 0))
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            sg = name[5] == 's'
            mn = name[6:9] == 'min'
            c = M.bind(lambda a, b: M.ult(w, a, b, sg), care, (args[0], args[1]))
            return state, M.ite(c, *((args[0], args[1]) if mn else (args[1], args[0])))
        if name.startswith('llvm.trap') or name.startswith('llvm.eh') or True:
            attrs = set(self.mod['fattrs'].get(name, []))
            if 'readnone' in attrs or name.startswith('llvm.eh'):
                return state, M.applyn(lambda *a: M.t('op', name, w) if not a else M.t('op', name, w, *a), care, tuple(args)) if args else M.leaf(M.t('op', name, w))
            def ev(st, *a):
                return St((M.t('ev', st[0], M.t('g', name), tuple(a), self.visible(st)),) + tuple(st[1:]))
            return M.applyn(ev, care, (state,) + tuple(args)), (M.leaf(M.t('undef')) if ins['ty'] != 'void' else None)

    # -------------------------------------------------- instructions
    def run(self):
        M = self.M
        # a by-value parameter is memory of the function itself
        self.args = [M.leaf(M.t('argmem' if 'byval' in a['attrs'] else 'arg', i)) for i, a in enumerate(self.fn['args'])]
        order = self.topo()
        entry = order[0]
        m0 = St((None, 'm0', (), (), ()))
        self.edge = {}        # (pred, succ) -> (cond, state)
        for b in order:
            blk = self.blocks[b]
            if b == entry:
                reach, state = M.T, M.leaf(m0)
            else:
                reach, state = M.F, M.X
                for p in blk['pred']:
                    if (p, b) in self.edge:
                        c, s = self.edge[(p, b)]
                        state = M.ite(c, s, state)
                        reach = M.Or(reach, c)
                if reach == M.F:
                    continue
                state = M.restrict(state, reach)
            self.block(blk, reach, state)
        return self.out

    def topo(self):
        seen, out, onstack = {}, [], set()

        def rec(b):
            seen[b] = 1
            for s in self.blocks[b]['succ']:
                if s not in seen:
                    rec(s)
                elif seen[s] == 1:
                    raise Outside('loop in %s' % self.fn['dname'])
            seen[b] = 2
            out.append(b)
        rec(self.fn['blocks'][0]['id'])
        return list(reversed(out))

    def goto(self, b, s, cond, state):
        M = self.M
        if cond == M.F:
            return
        if (b, s) in self.edge:
            c0, s0 = self.edge[(b, s)]
            self.edge[(b, s)] = (M.Or(c0, cond), M.ite(cond, state, s0))
        else:
            self.edge[(b, s)] = (cond, M.restrict(state, cond))

    def finish(self, kind, reach, state, val=None):
        M = self.M

        def fin(st, v=None):
            trace, epoch, ws, esc, dr = st
            if kind == 'noreturn':
                return (kind, None, trace, tuple((a, 0, a) for a in dr))
            if v is not None:
                v = self.rename(st, v)
            # locals are dead once the function is left
            e2 = tuple(x for x in self.visible(st) if not any(M[t][0] == 'esc' for t, _ in self.base(x[0])[0]))
            return (kind, v, trace, e2)
        o = M.applyn(fin, reach, (state,) + ((val,) if val is not None else ()))
        self.out = M.ite(reach, o, self.out)

    def block(self, blk, reach, state):
        M = self.M
        last_noreturn = False
        for ins in blk['ins']:
            op = ins['op']
            w = self.width(ins['ty'])
            r = None
            ap = lambda f, *ns: M.applyn(f, reach, ns)
            if op == 'phi':
                r = M.X
                for v, p in ins['inc']:
                    if (p, blk['id']) in self.edge:
                        r = M.ite(self.edge[(p, blk['id'])][0], self.val(v), r)
                r = M.restrict(r, reach)
            elif op == 'ret':
                self.finish('return', reach, state, self.val(ins['ops'][0]) if ins['ops'] else None)
            elif op == 'unreachable':
                if last_noreturn:
                    self.finish('noreturn', reach, state)
            elif op == 'resume':
                self.finish('throw', reach, state, self.val(ins['ops'][0]))
            elif op == 'br':
                if len(ins['succ']) == 1:
                    self.goto(blk['id'], ins['succ'][0], reach, state)
                else:
                    c = self.boolean(self.val(ins['ops'][0]), reach)
                    self.goto(blk['id'], ins['succ'][0], M.And(reach, c), state)
                    self.goto(blk['id'], ins['succ'][1], M.And(reach, M.Not(c)), state)
            elif op == 'switch':
                x = self.val(ins['ops'][0])
                sw = ins['cases'][0][0][1] if ins['cases'] else 32
                rest = reach
                for cv, t in ins['cases']:
                    k = self.cterm(cv)
                    c = M.bind(lambda v: M.eq(sw, v, k), rest, (x,))
                    self.goto(blk['id'], t, M.And(rest, c), state)
                    rest = M.And(rest, M.Not(c))
                self.goto(blk['id'], ins['default'], rest, state)
            elif op in ('call', 'invoke'):
                state, r = self.do_call(ins, reach, state)
                nr = 'noreturn' in ins.get('attrs', []) or 'noreturn' in self.mod['fattrs'].get(ins.get('callee') or '', [])
                last_noreturn = nr
                if op == 'invoke':
                    th = M.bind(lambda st: M.atom(M.t('throws', st[0])), reach, (state,))
                    if nr:
                        th = M.T if self.blocks[ins['normal']]['ins'][0]['op'] == 'unreachable' else th
                    if r is not None:
                        self.env[ins['id']] = r
                    self.goto(blk['id'], ins['normal'], M.And(reach, M.Not(th)), state)
                    self.goto(blk['id'], ins['unwind'], M.And(reach, th), state)
                    continue
            elif op == 'landingpad':
                r = ap(lambda st: M.t('exc', st[0]), state)
            elif op == 'load':
                n = ins['size']
                if self.derefs:
                    state = ap(self.deref, state, self.val(ins['ops'][0]))
                r = ap(lambda st, a: self.load(st, a, n), state, self.val(ins['ops'][0]))
                if w == 1:
                    r = ap(lambda v: M.const(1, M[v][2]) if M[v][0] == 'c' else v, r)
            elif op == 'store':
                n = ins['size']
                v = self.val(ins['ops'][0])
                state = ap(lambda st, v, a: self.store(st, a, n, v), state, v, self.val(ins['ops'][1]))
            elif op == 'alloca':
                r = M.leaf(M.t('alloca', self.uid, ins['id']))
            elif op == 'getelementptr':
                if 'off' not in ins:
                    raise Outside('gep')
                vs = ins['vars']

                def gep(b, *xs):
                    b = M.add(64, b, M.const(64, ins['off']))
                    for (v, s), x in zip(vs, xs):
                        b = M.add(64, b, M.scale(64, x, s))
                    return b
                r = ap(gep, self.val(ins['ops'][0]), *[self.val(v) for v, s in vs])
            elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
                r = self.val(ins['ops'][0])
            elif op in ('zext', 'sext', 'trunc'):
                sv = ins['ops'][0]

                def conv(v):
                    x = M[v]
                    if x[0] == 'c':
                        return M.const(w, M.signed(x[1], x[2]) if op == 'sext' else x[2])
                    if op == 'trunc' and x[0] == 'op' and x[1] in ('zext', 'sext') and x[4] == w:
                        return x[3]
                    return M.t('op', op, w, v, self.srcw(ins))
                if self.srcw(ins) == 1 and op != 'trunc':
                    c = self.boolean(self.val(sv), reach)
                    r = M.ite(c, M.leaf(M.const(w, 1 if op == 'zext' else -1)), M.leaf(M.const(w, 0)))
                    r = M.restrict(r, reach)
                elif w == 1:
                    def tr(v):
                        x = M[v]
                        if x[0] == 'c':
                            return M.T if x[2] & 1 else M.F
                        if x[0] == 'op' and x[1] == 'zext':
                            return self.boolean(M.leaf(x[3]), M.T)
                        return M.Not(M.eq(1, M.t('op', 'trunc', 1, v, self.srcw(ins)), M.const(1, 0)))
                    r = self.frombool(M.bind(tr, reach, (self.val(sv),)))
                else:
                    r = ap(conv, self.val(sv))
            elif op == 'select':
                c = self.boolean(self.val(ins['ops'][0]), reach)
                r = M.ite(c, self.val(ins['ops'][1]), self.val(ins['ops'][2]))
                r = M.restrict(r, reach)
            elif op == 'icmp':
                r = self.frombool(self.icmp(ins, reach))
                r = M.restrict(r, reach)
            elif op in ('add', 'sub'):
                if w == 1:
                    r = ap(lambda a, b: M.t('op', 'xor', 1, a, b), *map(self.val, ins['ops']))
                else:
                    r = ap(lambda a, b: M.add(w, a, b, 1 if op == 'add' else -1), *map(self.val, ins['ops']))
            elif op in ('mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                if w == 1 and op in ('and', 'or', 'xor'):
                    a, b = (self.boolean(self.val(o), reach) for o in ins['ops'])
                    c = M.And(a, b) if op == 'and' else M.Or(a, b) if op == 'or' else M.ite(a, M.Not(b), b)
                    r = M.restrict(self.frombool(c), reach)
                else:
                    r = ap(lambda a, b: self.arith(op, w, a, b), *map(self.val, ins['ops']))
            elif op == 'extractvalue':
                ix = ins['ix']

                def exv(a):
                    for i in ix:
                        x = M[a]
                        if x[0] == 'agg':
                            d = dict(x[1])
                            if i in d:
                                a = d[i]
                                continue
                        if x[0] == 'zero':
                            a = M.const(64, 0)
                            continue
                        if x[0] == 'undef':
                            continue
                        a = M.t('extract', a, i)
                    return a
                r = ap(exv, self.val(ins['ops'][0]))
            elif op == 'insertvalue':
                ix = ins['ix']

                def inv(a, v):
                    def rec(a, ix):
                        if not ix:
                            return v
                        x = M[a]
                        d = dict(x[1]) if x[0] == 'agg' else {}
                        if x[0] not in ('agg', 'undef'):
                            d[-1] = a
                        d[ix[0]] = rec(d.get(ix[0], M.t('undef')), ix[1:])
                        return M.t('agg', tuple(sorted(d.items())))
                    return rec(a, ix)
                r = ap(inv, self.val(ins['ops'][0]), self.val(ins['ops'][1]))
            elif op in ('atomicrmw', 'cmpxchg', 'fence'):
                ops = [self.val(o) for o in ins['ops']]

                def at(st, *a):
                    cell = M.t('ev', st[0], M.t('op', op, ins.get('rmw', '')), tuple(self.rename(st, x) for x in a), self.visible(st))
                    keep = tuple(x for x in st[2] if self.islocal(x[0], st) is not None)
                    return St((cell, M.t('epoch', cell), keep, st[3], st[4]))
                state = ap(at, state, *ops)
                r = ap(lambda st: M.t('res', st[0]), state)
            else:
                ops = [self.val(o) for o in ins['ops']]
                r = ap(lambda *a: M.t('op', op, ins['ty'], *a), *ops)
            if r is not None:
                self.env[ins['id']] = r
            if op not in ('call',):
                last_noreturn = False

    def srcw(self, ins):
        v = ins['ops'][0]
        return self.opwidth(v)

    def opwidth(self, v):
        if v[0] == 'c':
            return v[1]
        if v[0] == 'i':
            return self.width(self.ity[v[1]])
        if v[0] == 'a':
            return self.width(self.fn['args'][v[1]]['ty'])
        return 64

    @property
    def ity(self):
        if not hasattr(self, '_ity'):
            self._ity = {i['id']: i['ty'] for b in self.fn['blocks'] for i in b['ins']}
        return self._ity

    def arith(self, op, w, a, b):
        M = self.M
        A, B = M[a], M[b]
        if A[0] == 'c' and B[0] == 'c':
            x, y = A[2], B[2]
            try:
                v = {'mul': lambda: x * y, 'shl': lambda: x << y, 'and': lambda: x & y, 'or': lambda: x | y,
                     'xor': lambda: x ^ y, 'lshr': lambda: x >> y, 'ashr': lambda: M.signed(w, x) >> y,
                     'udiv': lambda: x // y, 'urem': lambda: x % y}[op]()
                return M.const(w, v)
            except (KeyError, ZeroDivisionError):
                pass
        if op == 'mul' and (A[0] == 'c' or B[0] == 'c'):
            return M.scale(w, b, A[2]) if A[0] == 'c' else M.scale(w, a, B[2])
        if op == 'shl' and B[0] == 'c':
            return M.scale(w, a, 1 << B[2])
        if op in ('mul', 'and', 'or', 'xor') and a > b:
            a, b = b, a
        if op == 'mul':
            # (a/s)*... stays opaque
            pass
        return M.t('op', op, w, a, b)

    def icmp(self, ins, care):
        M = self.M
        p = ins['pred']
        a, b = self.val(ins['ops'][0]), self.val(ins['ops'][1])
        w = max(self.opwidth(ins['ops'][0]), 1)
        if ins['ops'][0][0] not in ('i', 'a', 'c'):
            w = self.opwidth(ins['ops'][1])
        if w == 1:
            x, y = self.boolean(a, care), self.boolean(b, care)
            e = M.ite(x, y, M.Not(y))
            if p == 'eq':
                return e
            if p == 'ne':
                return M.Not(e)
        fs = {
            'eq': lambda a, b: M.eq(w, a, b), 'ne': lambda a, b: M.Not(M.eq(w, a, b)),
            'ult': lambda a, b: M.ult(w, a, b), 'ugt': lambda a, b: M.ult(w, b, a),
            'uge': lambda a, b: M.Not(M.ult(w, a, b)), 'ule': lambda a, b: M.Not(M.ult(w, b, a)),
            'slt': lambda a, b: M.ult(w, a, b, True), 'sgt': lambda a, b: M.ult(w, b, a, True),
            'sge': lambda a, b: M.Not(M.ult(w, a, b, True)), 'sle': lambda a, b: M.Not(M.ult(w, b, a, True)),
        }
        return M.bind(fs[p], care, (a, b))


# ------------------------------------------------------------------ driver
FLAGS = ['-O2', '-Xclang', '-disable-llvm-passes', '-fno-access-control',
         '-fno-threadsafe-statics', '-DNDEBUG', '-g1', '-w', '-fno-strict-aliasing',
         '-fno-stack-protector', '-ferror-limit=20']
OPT = ['/usr/bin/opt-18', '-passes=default<O2>', '-vectorize-loops=0', '-vectorize-slp=0',
       '-unroll-allow-partial=0', '-unroll-runtime=0',
       '-inline-threshold=100000', '-inlinehint-threshold=100000', '-inlinecold-threshold=100000']


def compile_ir(ctx, name, code, flags=(), std=17, always='.', never='', opt=OPT, depth=0):
    ensure_irx()
    src = os.path.join(ctx.tmp, name + '.cpp')
    bc = os.path.join(ctx.tmp, name + '.bc')
    with open(src, 'w') as f:
        f.write(code)
    r = run([CLANGXX, '-std=c++%d' % std, '-I' + INC, '-I' + os.path.join(VERIF, 'engine')] + FLAGS + list(flags) +
            ['-emit-llvm', '-c', src, '-o', bc])
    if r.returncode:
        inc = os.path.realpath(INC)
        errs = []
        for m in re.finditer(r'^(\S+?):\d+:\d+: (?:fatal )?error: .*\n((?:(?!\S+?:\d+:\d+: (?:fatal )?error: ).*\n?)*)', r.stderr, re.M):
            # the text of a macro of the library counts as the library
            x = re.search(r"^(\S+?):\d+:\d+: note: expanded from macro 'BOOST_OPENMETHOD", m.group(2), re.M)
            if not x and os.path.realpath(m.group(1)) != os.path.realpath(src):
                # an error in another header, while the library instantiates it
                x = re.search(r'^(%s\S*?):\d+:\d+: note: ' % re.escape(INC), m.group(2), re.M)
            errs.append(x.group(1) if x else m.group(1))
        e = AnalysisError('%s does not compile:\n%s' % (name, r.stderr[:3000]))
        # an error inside the library, while instantiating a well-formed use
        e.in_library = bool(errs) and os.path.realpath(errs[0]).startswith(inc)
        raise e
    r = run([IRX, '--prep', bc, bc + '.p', always, never, str(depth)])
    if r.returncode:
        raise AnalysisError('irx --prep: ' + r.stderr[:300])
    return optimise(bc + '.p', opt, bc)


def optimise(src, opt, bc):
    """the commands, one after the other; what the first of several leaves is kept"""
    for k, cmd in enumerate(opt if isinstance(opt[0], list) else [opt]):
        out = bc if cmd is opt or k == len(opt) - 1 else bc + '.mid'
        r = run(cmd + [src, '-o', out])
        if src.endswith('.p'):
            os.remove(src)
        if r.returncode:
            raise AnalysisError('opt: ' + r.stderr[:300])
        src = out
    return bc


def load_ir(bc, *sel):
    r = run([IRX] + list(sel[:1] if sel and sel[0] == '--demangled' else []) + [bc] +
            list(sel[1:] if sel and sel[0] == '--demangled' else sel))
    if r.returncode:
        raise AnalysisError('irx: ' + r.stderr[:500])
    m = json.loads(r.stdout)
    m['fattrs'] = {d['name']: d['attrs'] for d in m['decls']}
    m['byname'] = {f['name']: f for f in m['functions']}
    return m


class Flow:
    """compile a translation unit of probe_X / ref_X pairs and compare them."""

    def __init__(self, ctx, name, code, flags=(), std=17, quiet=lambda n: 'hook_' in n, distinct=False, derefs=False, zero=(), refargs=False, ignore=None, frozen=(), passes=None, opt=None, depth=0, models=False, project=False, forbid=(), resume=None):
        # project: compare what is returned and called, not what is written or allocated
        self.project, self.forbid = project, set(forbid)
        self.distinct, self.derefs, self.refargs, self.ignore = distinct, derefs, refargs, ignore
        self.ctx, self.name = ctx, name
        exc = [] if any('-fexceptions' in f for f in flags) else ['-fno-exceptions']
        self.quiet = quiet
        self.rejected = None
        try:
            bc = optimise(resume, opt, resume[:-4]) if resume else compile_ir(ctx, name, code, exc + [f for f in flags if f != '-fexceptions'], std,
                            opt=opt or OPT if not passes else [OPT[0], '-passes=' + passes] + OPT[2:], depth=depth)
        except AnalysisError as e:
            # (over container models, an error may be due to the models)
            if models or not getattr(e, 'in_library', False):
                raise
            self.rejected = str(e)
            return
        self.mid = bc + '.mid'
        self.mod = load_ir(bc, 'probe_', 'ref_')
        self.mod['frozen'] = set(frozen)
        self.mod['zero'] = zero if hasattr(zero, 'match') else set(zero)

    def pairs(self):
        return sorted(n[6:] for n in self.mod['byname'] if n.startswith('probe_'))

    def loops(self):
        """are there loops in the pairs?"""
        for p in [] if self.rejected else self.pairs():
            for k in ('probe_', 'ref_'):
                fn = self.mod['byname'].get(k + p)
                seen, stack = {}, [(fn['blocks'][0]['id'], None)] if fn else []
                succ = {b['id']: b['succ'] for b in fn['blocks']} if fn else {}
                while stack:
                    b, it = stack.pop()
                    if it is None:
                        seen[b], it = 1, iter(succ[b])
                    for s in it:
                        if seen.get(s) == 1:
                            return True
                        if s not in seen:
                            stack += [(b, it), (s, None)]
                            break
                    else:
                        seen[b] = 2
        return False

    def check(self, rule):
        ctx = self.ctx
        if self.rejected:
            ctx.check(rule, 'well-formed uses compile (%s)' % self.name, False, self.rejected)
            return
        ps = self.pairs()
        ctx.need(len(ps), rule)
        nodes = 0
        for p in ps:
            if 'ref_' + p not in self.mod['byname']:
                raise AnalysisError('no specification for probe_' + p)
            try:
                ok, detail, n = self.compare(p)
            except AnalysisError as e:
                ctx.undecided.append((rule, p, str(e)))
                if os.environ.get("OMV_UNDEC"): print(rule, p, str(e)[:200])
                continue
            nodes += n
            ctx.check(rule, p, ok, detail)
        ctx.count('value_graphs', 2 * len(ps))
        ctx.count('graph_nodes', nodes)

    def check_holds(self, rule, allowed):
        """every probe returns true, or ends in one of the allowed sequences of events."""
        ctx = self.ctx
        if self.rejected:
            ctx.check(rule, 'well-formed uses compile (%s)' % self.name, False, self.rejected)
            return
        ps = self.pairs()
        ctx.need(len(ps), rule)
        nodes = 0
        for p in ps:
            M = Mgr()
            M.refargs = self.refargs
            e = Eval(M, self.mod['byname']['probe_' + p], self.mod, self.quiet, self.distinct)
            e.derefs, e.ignore, e.project = self.derefs, self.ignore, self.project
            returned = []

            def ok(o):
                c = tuple(reversed([x for x in M.calls_of(o)]))
                if o[0] == 'return' and not c and M[o[1]][0] == 'c':
                    returned.append(M[o[1]][2])
                    if M[o[1]][2]:
                        return ('fine', None, None, ())
                if o[0] != 'return' and c in allowed:
                    return ('fine', None, None, ())
                return o
            try:
                a = e.run()
                good = M.applyn(ok, M.T, (a,))
                d = M.first_diff(good, M.leaf(('fine', None, None, ())), M.care_of(a))
                for c in M.calls_of(d[1]) if d and d[1] is not DC else ():
                    if c in ('_Z12omv_overflowv', 'omv_overflow') or c.startswith('omv_deep'):
                        raise AnalysisError('%s: the instance exceeds the bounds of the model (%s)' % (p, c))
                if d is None and True not in [bool(x) for x in returned]:
                    raise AnalysisError('%s never returns' % p)
            except AnalysisError as x:
                ctx.undecided.append((rule, p, str(x)))
                if os.environ.get("OMV_UNDEC"): print(rule, p, str(x)[:200])
                continue
            nodes += len(M.terms)
            detail = ''
            if d:
                l = ['the condition does not hold' + (' when' if d[0] else '')] + ['  %s%s' % ('' if v else 'not ', M.show(t)) for t, v in d[0]] + ['code:', M.show_outcome(d[1])]
                seen = []
                for b in self.mod['byname']['probe_' + p]['blocks']:
                    for i in b['ins']:
                        c = [x for x in i.get('loc', []) if '/openmethod/' in x[0]]
                        t = ' <- '.join('%s:%d (%s)' % (os.path.relpath(x[0], REPO), x[1], x[2]) for x in c[:2])
                        if t and t not in seen:
                            seen.append(t)
                detail = '\n'.join(l + ['constructs involved:'] + ['  ' + x for x in seen[:8]])
            ctx.check(rule, p, d is None, detail)
        ctx.count('value_graphs', len(ps))
        ctx.count('graph_nodes', nodes)

    def compare(self, p):
        M = Mgr()
        M.refargs = self.refargs
        E = [Eval(M, self.mod['byname'][k + p], self.mod, self.quiet, self.distinct) for k in ('probe_', 'ref_')]
        for e in E:
            e.derefs = self.derefs
            e.ignore = self.ignore
            e.project = self.project
        try:
            a, b = [e.run() for e in E]
        except Outside as e:
            raise AnalysisError('%s: %s' % (p, e))
        care = M.care_of(a, b)
        d = M.first_diff(a, b, care)
        if d is None and self.forbid:
            # equal, but neither may perform these events
            d = M.first_diff(a, M.applyn(lambda x: ('forbidden', None, None, ()) if any(c in self.forbid for c in M.calls_of(x)) else x, M.T, (a,)), care)
        if d is None:
            return True, '', len(M.terms)
        asg, x, y = d
        for c in M.calls_of(x) if x is not DC else ():
            if c in ('_Z12omv_overflowv', 'omv_overflow') or c.startswith('omv_deep'):
                raise AnalysisError('%s: the instance exceeds the bounds of the model (%s)' % (p, c))
        lines = ['the code and the specification differ' + (' when' if asg else '')]
        lines += ['  %s%s' % ('' if v else 'not ', M.show(t)) for t, v in asg]
        lines += ['code:', M.show_outcome(x), 'specification:', M.show_outcome(y)]
        seen = []
        for n, loc in E[0].locs:
            l = [c for c in loc if '/openmethod/' in c[0]]
            s = ' <- '.join('%s:%d (%s)' % (os.path.relpath(c[0], REPO), c[1], c[2]) for c in l[:4])
            if s and s not in seen:
                seen.append(s)
        if not seen:
            for b in self.mod['byname']['probe_' + p]['blocks']:
                for i in b['ins']:
                    l = [c for c in i.get('loc', []) if '/openmethod/' in c[0]]
                    s = ' <- '.join('%s:%d (%s)' % (os.path.relpath(c[0], REPO), c[1], c[2]) for c in l[:2])
                    if s and s not in seen:
                        seen.append(s)
        lines += ['constructs involved:'] + ['  ' + s for s in seen[:8]]
        return False, '\n'.join(lines), len(M.terms)


def init_calls(ctx, name, code, std=17):
    """demangled names of the functions that static initialization of a
    translation unit may call (call graph of the unoptimised IR)."""
    src = os.path.join(ctx.tmp, name + '.cpp')
    with open(src, 'w') as f:
        f.write(code)
    r = run([CLANGXX, '-std=c++%d' % std, '-I' + INC, '-I' + os.path.join(VERIF, 'engine')] + FLAGS +
            ['-fno-exceptions', '-emit-llvm', '-S', src, '-o', '-'])
    if r.returncode:
        raise AnalysisError('%s does not compile:\n%s' % (name, r.stderr[:2000]))
    sym = r'@("[^"]+"|[\w.$]+)'
    roots, calls, cur = [], {}, None
    for l in r.stdout.splitlines():
        if l.startswith('@llvm.global_ctors'):
            roots = re.findall(r'ptr ' + sym, l)
        elif l.startswith('define '):
            cur = re.search(sym, l).group(1)
            calls[cur] = set()
        elif l.startswith('}'):
            cur = None
        elif cur:
            m = re.search(r'\b(?:call|invoke)\b.*?' + sym + r'\(', l)
            if m:
                calls[cur].add(m.group(1))
    seen, todo = set(), [x for x in roots if x in calls]
    while todo:
        f = todo.pop()
        if f not in seen:
            seen.add(f)
            todo += calls.get(f, ())
    ctx.count('call_graph_functions', len(calls))
    return {demangle(x.strip('"')) for x in seen}
