"""A02: slots of distinct virtual parameters never collide in a class."""
from vlib import *
import initp, random, re
import I04


def instance(tag, n, dag, order, params, shuffle):
    """params: number of virtual parameters of each class; order: of the classes; shuffle: of the derived classes"""
    tb = I04.closure(n, dag)
    direct = {i: sorted(b for b in tb[i] if not any(b in tb[o] for o in tb[i])) for i in range(n)}
    at = {c: k for k, c in enumerate(order)}
    total = sum(params)
    p = ' C comp; comp.classes.resize(%d); comp.methods.resize(1); auto& m = comp.methods[0]; m.slots.resize(%d);\n' % (n, total)
    for c in range(n):
        p += ' auto& k%d = comp.classes[%d];\n' % (c, at[c])
    own, nxt = {}, 0
    for c in order:
        own[c] = list(range(nxt, nxt + params[c]))
        nxt += params[c]
    for c in range(n):
        derived = [d for d in range(n) if d == c or c in tb[d]]
        derived = derived[::-1] if shuffle else derived
        bases = sorted(tb[c], key=lambda b: -len(tb[b]))
        p += ''.join(' k%d.direct_bases.push_back(&k%d);' % (c, b) for b in direct[c])
        p += ''.join(' k%d.transitive_bases.push_back(&k%d);' % (c, b) for b in bases)
        p += ''.join(' k%d.direct_derived.push_back(&k%d);' % (c, d) for d in order if c in direct[d])
        p += ''.join(' k%d.transitive_derived.insert(&k%d);' % (c, d) for d in derived)
        p += ''.join(' k%d.used_by_vp.push_back({&m, %d});' % (c, s) for s in own[c])
        p += '\n'
    p += ' comp.assign_slots(); bool r = true;\n'
    for c in range(n):
        slots = [s for b in range(n) if b == c or b in tb[c] for s in own[b]]
        for i, a in enumerate(slots):
            p += ' r &= m.slots[%d] >= k%d.first_slot && m.slots[%d] - k%d.first_slot < k%d.vtbl.size();' % (a, c, a, c, c)
            for b in slots[:i]:
                p += ' r &= m.slots[%d] != m.slots[%d];' % (a, b)
        p += '\n'
    return 'extern "C" int probe_%s() {%s return r; }\nextern "C" int ref_%s() { return 1; }\n' % (tag, p, tag)


def instances():
    rnd = random.Random(5)
    for n in (1, 2, 3, 4, 5):
        dags = list(I04.dags(n)) if n < 5 else [dict(enumerate(d)) for d in (
            [[], [0], [], [2], [1, 3]], [[], [], [0], [1, 2], [1]], [[], [0], [0], [1, 2], [3]],
            [[], [], [], [0, 1], [1, 2]], [[], [0], [0], [1, 2], [2]], [[], [], [0, 1], [0, 1], [2, 3]])]
        for dag in dags:
            tb = I04.closure(n, dag)
            if any(b in tb[o] for i in dag for b in dag[i] for o in dag[i]):
                continue  # the same hierarchy without the redundant base is there
            joins = any(len(dag[i]) > 1 for i in dag)
            for o in range(4 if joins and n > 3 else 2):
                order = list(range(n))[:: -1 if o % 2 else 1]
                if o > 1:
                    rnd.shuffle(order)
                params = [1] * n
                if n == 5:
                    params[rnd.choice([0, 2, 4])] = 0
                elif o % 2:
                    i, j = rnd.sample(range(n), 2) if n > 1 else (0, 0)
                    params[i] += 1
                    params[j] -= n > 3
                yield n, dag, order, params, o % 2


def run(ctx):
    out = {4: [], 5: []}
    for n, dag, order, params, shuffle in instances():
        l = out[max(n, 4)]
        l.append(instance('slots_%d_%d' % (n, len(l)), n, dag, order, params, shuffle))
    units = [(cap, [x]) for cap, l in sorted(out.items(), reverse=True) for x in l[::-1]]
    for f in parallel(lambda u: initp.unit(ctx, 'a02_%d_%s' % (u[0], re.search(r'slots_(\w+)\(', u[1][0]).group(1)), ''.join(u[1]), cap=u[0], flags=['-DOMV_WORDS=8'],
                                           depth=5, project=True, lists=True, rounds=20, fb=120), units):
        f.check('slots')
    ctx.explanation.append(
        'assign_slots is compiled over bounded container models for every hierarchy of up to 4 classes (and 6 hierarchies of 5), in up to 4 orders '
        'of registration, with up to 4 or 5 virtual parameters attached to the classes in different ways; the optimiser reduces each to a gated value '
        'graph. The specification: for every class, the slots of the parameters of the class and of its bases are pairwise different, not below '
        'first_slot, and inside the v-table.')
    ctx.assumptions.append('hierarchies are bounded to 4 classes, except 6 of 5; the container models behave like the standard containers')
