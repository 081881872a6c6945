"""I04: every class knows all its bases and derived classes."""
from vlib import *
import initp, itertools
import I05

PRE = I05.PRE.replace('extern "C" { extern type_id T[16];', 'extern "C" { extern vptr_type VP[8]; extern bool AB[8]; extern type_id T[16];') + r'''
template<class S, class X> inline bool has(const S& s, X* x) { bool r = false; for (auto y : s) r |= y == x; return r; }
template<class S, class X> inline bool has_once(const S& s, X* x) { int r = 0; for (auto y : s) r += y == x; return r == 1; }
'''


def closure(n, dag):
    r = {i: set(dag[i]) for i in range(n)}
    for _ in range(n):
        for i in r:
            for j in list(r[i]):
                r[i] |= r[j]
    return r


def instance(tag, n, recs):
    """recs: (class, id, list of ids of bases); ids of class c are c, c+4, c+8..."""
    ids = sorted({r[1] for r in recs} | {b for r in recs for b in r[2]})
    dag = {i: set() for i in range(n)}
    for c, _, bs in recs:
        dag[c] |= {b % 4 for b in bs if b % 4 != c}
    tb = closure(n, dag)
    direct = {i: {b for b in tb[i] if not any(b in tb[o] for o in tb[i])} for i in range(n)}
    p = 'using C = R::compiler<>; if (!distinct(%d)) return -1; ' % n
    for i in ids:
        if i >= 4:
            p += ''.join('if (key(%d) == key(%d)) return -1; ' % (i, j) for j in ids + list(range(n)) if j % 4 != i % 4)
            p += 'if (key(%d) != key(%d)) return -1; ' % (i, i % 4) + ''.join('if (T[%d] == T[%d]) return -1; ' % (i, j) for j in ids if j < i and j % 4 == i % 4)
    # different classes have different ids
    p += ''.join('if (T[%d] == T[%d]) return -1; ' % (i, j) for i in ids for j in ids if j < i and j % 4 != i % 4)
    spec = p + 'return 1;'
    p += '\n blank(R::classes); C comp;\n'
    first = {}
    for k, (c, i, bs) in enumerate(recs):
        first.setdefault(c, k)
        p += (' alignas(class_info) unsigned char cb%d[sizeof(class_info)]; blank(cb%d); auto& c%d = *reinterpret_cast<class_info*>(cb%d);'
              ' type_id b%d[] = {%s}; c%d.type = T[%d]; c%d.static_vptr = &VP[%d]; c%d.is_abstract = AB[%d]; c%d.first_base = b%d; c%d.last_base = b%d + %d; R::classes.push_back(c%d);\n' % (
                  k, k, k, k, k, ', '.join('T[%d]' % b for b in bs) or 'T[0]', k, i, k, c, k, c, k, k, k, k, len(bs), k))
    p += ' comp.augment_classes(); bool r = comp.classes.size() == %d;\n' % n
    for i in range(n):
        p += ' cls* k%d = comp.class_map[key(%d)]; r &= k%d != nullptr; if (!r) return 0;\n' % (i, i, i)
    for i in range(n):
        mine = sorted({r[1] for r in recs if r[0] == i})
        p += ' r &= k%d->static_vptr == &VP[%d] && k%d->is_abstract == AB[%d] && k%d->type_ids.size() == %d;' % (i, i, i, i, i, len(mine))
        p += ''.join(' r &= has_once(k%d->type_ids, T[%d]);' % (i, j) for j in mine)
        for j in range(i):
            p += ' r &= k%d != k%d;' % (i, j)
        dd = {j for j in range(n) if i in direct[j]}
        p += '\n  r &= k%d->direct_bases.size() == %d && k%d->direct_derived.size() == %d;' % (i, len(direct[i]), i, len(dd))
        p += ''.join(' r &= has(k%d->direct_bases, k%d);' % (i, j) for j in direct[i])
        p += ''.join(' r &= has(k%d->direct_derived, k%d);' % (i, j) for j in dd)
        for j in range(n):
            yes = j == i or i in tb[j]
            p += ' r &= %sk%d->is_base_of(k%d);' % ('' if yes else '!', i, j)
        p += '\n'
    return 'extern "C" int probe_%s() { %s return r; }\nextern "C" int ref_%s() { %s }\n' % (tag, p, tag, spec)


def shapes(n, thorough):
    """hierarchies of n classes (class i may list classes of a lower rank), orders of registration"""
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for bits in itertools.product([0, 1], repeat=len(pairs)):
        dag = {i: [j for (a, j), b in zip(pairs, bits) if b and a == i] for i in range(n)}
        yield dag


def dags(n):
    """one of each hierarchy of n classes, up to renaming; class i lists only classes before it"""
    pairs = [(i, j) for i in range(n) for j in range(i)]
    seen = set()
    for bits in itertools.product([0, 1], repeat=len(pairs)):
        edges = {p for p, b in zip(pairs, bits) if b}
        name = min(tuple(sorted((q[i], q[j]) for i, j in edges)) for q in itertools.permutations(range(n)))
        if name not in seen:
            seen.add(name)
            yield {i: [j for (a, j) in sorted(edges) if a == i] for i in range(n)}


def run(ctx):
    ctx.explanation.append(
        'augment_classes is compiled for every hierarchy of up to three classes in every order of registration, and for every '
        'hierarchy of four classes in several orders, with unknown type ids, flags, and v-table pointers, over bounded models of the '
        'containers; with bases that are listed in parts by several registrations of a class, under several type ids, '
        'with indirect bases, and with the class itself. Afterwards there must be one class per type index, with its flag, '
        'its v-table pointer and its type ids, once each; its derived classes must be exactly those from which it can be '
        'reached; and its direct bases and derived classes exactly those without another class between them.')
    ctx.assumptions += ['type ids of the same class have the same index, and those of different classes have not', 'clang 18 preserves semantics']
    out = []

    def add(*recs):
        out.append(instance('h%d' % len(out), 1 + max(r[0] for r in recs), recs))
    for n in (1, 2, 3, 4):
        for dag in dags(n):
            orders = list(itertools.permutations(range(n)))
            if n == 4:
                orders = orders[5:] if ctx.thorough else [orders[k] for k in (9, 23)]
            for order in orders:
                add(*[(c, c, dag[c]) for c in order])
    # ids 4 and 8 are others of class 0, 5 and 9 of class 1, ...
    add((0, 0, []), (0, 0, []))
    add((0, 0, []), (0, 4, []), (0, 0, []), (0, 8, []))
    add((0, 0, [0]), (0, 4, [0, 4]))
    add((1, 1, [1, 0]), (0, 0, [0]), (1, 5, [5, 1, 4]), (0, 4, [4, 0]))
    add((0, 0, []), (1, 1, []), (1, 1, [0]))
    add((1, 1, [0]), (1, 1, []), (0, 0, []))
    add((1, 1, []), (0, 4, []), (1, 5, [0]), (0, 0, []))
    add((2, 2, [1]), (2, 6, [0]), (1, 1, []), (0, 0, []))
    add((2, 2, []), (1, 5, [0]), (2, 6, [1, 2]), (1, 1, []), (0, 0, []))
    add((2, 2, [0]), (1, 1, [0]), (2, 2, [1]), (0, 0, []), (0, 0, []))
    add((2, 2, [1, 1]), (1, 1, [0, 0]), (0, 0, []))
    add((2, 2, [2, 1, 0]), (1, 1, [1, 0]), (0, 0, [0]))
    add((2, 2, [0, 2, 1]), (0, 0, [0]), (1, 1, [0, 1]))
    add((3, 3, [2]), (2, 2, []), (3, 7, [1]), (1, 1, [0]), (2, 6, [0]), (0, 0, []))
    if ctx.thorough:
        add((3, 3, [3, 2, 1, 0]), (2, 2, [2, 0]), (1, 1, [1, 0]), (0, 0, [0]))
        add((3, 3, [1]), (3, 3, [2]), (3, 3, [0]), (1, 1, [0]), (2, 2, [1]), (0, 0, []))
        add((3, 3, [2]), (2, 6, [1]), (1, 5, [0]), (0, 4, []), (3, 7, [6]), (2, 2, [5]), (1, 1, [4]), (0, 0, []))
    nj = 32 if not ctx.thorough else 96
    for f in parallel(lambda k: initp.unit(ctx, 'i04_%d' % k, PRE + ''.join(out[k::nj]), prelude=False, cap=4 if not ctx.thorough else 8, flags=['-DOMV_WORDS=8'], depth=4, project=True, lists=True, rounds=34, fb=80), list(range(nj))):
        f.check('lattice')
