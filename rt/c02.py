from common import *
from ababe.stru.sogen import OccupyGenerator
RULE = ('parent cells x eligible set (all sites / one Wyckoff letter / one element / two disjoint sets) x n from 0 to beyond the '
        'number of eligible sites x substituting element incl. vacancy and elements already present, repeated and interleaved; '
        'all results kept and compared at the end; distinct by JSON text')


def parents(rng, tier):
    yield PRIM['perov']
    yield super_spec(PRIM['zb'], [[2, 0, 0], [0, 2, 0], [0, 0, 1]])
    yield PRIM['sc']
    yield shuffled(rng, PRIM['rutile'])
    yield random_tri(rng, 5)
    while True:
        yield rng.choice([lambda: random_super(rng, 10), lambda: shuffled(rng, random_super(rng, 9)),
                          lambda: random_tri(rng, rng.randint(1, 8)),
                          lambda: random_tri(rng, rng.randint(2, 8), [22, 8])])()


def cases(rng, tier):
    for s in parents(rng, tier):
        base = s['num']
        n = len(base)
        z = rng.choice(base) if rng.random() < .2 else rng.choice(ZS)
        z2 = rng.choice(ZS)
        for k in sorted(set([0, 1, 2, rng.randint(0, n + 1)])):
            if n <= 8 or k <= 3:
                yield {'k': 'unitary', 's': s, 'n': k, 'z': z}
        for ele in sorted(set(base)) + [1]:
            yield {'k': 'ele', 's': s, 'n': rng.randint(0, min(3, base.count(ele) + 1)), 'z': z, 'ele': ele}
        yield {'k': 'wy', 's': s, 'n': rng.randint(0, 3), 'z': z, 'w': rng.random()}
        if n <= 8:
            yield {'k': 'tri', 's': s, 'n1': rng.randint(0, 3), 'n2': rng.randint(0, 3), 'z1': z, 'z2': z2}
        yield {'k': 'inter', 's': s, 'n': min(2, n), 'z': z, 'z2': z2, 'ele': base[0], 'seed': rng.randrange(10 ** 6)}


def check(c):
    s = c['s']
    g = gcell(s)
    p = cell_of(g)
    base = tuple(p['num'])
    n = len(base)
    og = OccupyGenerator(g)
    k = c['k']

    def combos(sites, m):
        return list(itertools.combinations(sites, m))

    def verify(cells, want):
        e = same_multiset([ints(x.numbers) for x in cells], want)
        need(e is None, e)
        for x in cells:
            need(close(x.lattice, p['lat'], 0), 'lattice differs from the parent')
            need(close(x.positions, p['pos'], 0), 'positions differ from the parent')
    if k == 'unitary':
        want = [subst(base, q, c['z']) for q in combos(range(n), c['n'])]
        verify(list(og.gen_dup_unitary(c['n'], sp_of(c['z']))), want)
        verify(list(og.gen_dup_unitary(c['n'], sp_of(c['z']))), want)
    elif k == 'ele':
        el = [i for i in range(n) if base[i] == c['ele']]
        want = [subst(base, q, c['z']) for q in combos(el, c['n'])]
        verify(list(og.gen_dup_of_ele(sp_of(c['ele']), c['n'], sp_of(c['z']))), want)
    elif k == 'wy':
        ws = wyck(p)
        w = sorted(set(ws))[int(c['w'] * len(set(ws)))]
        el = [i for i in range(n) if ws[i] == w]
        verify(list(og.gen_dup(w, c['n'], sp_of(c['z']))), [subst(base, q, c['z']) for q in combos(el, c['n'])])
        w2 = next(x for x in 'zyxwv' if x not in ws)
        verify(list(og.gen_dup(w2, c['n'], sp_of(c['z']))), [base] if c['n'] == 0 else [])
    elif k == 'tri':
        want = []
        for q in combos(range(n), c['n1']):
            b = subst(base, q, c['z1'])
            for r in combos([i for i in range(n) if i not in q], c['n2']):
                want.append(subst(b, r, c['z2']))
        f = getattr(og, '_gen_dup_trinary_alloy', None)
        if f is not None:
            verify(list(f(sp_of(c['z1']), c['n1'], sp_of(c['z2']), c['n2'])), want)
        got = [ints(x.numbers) for x in
               og.gen_nodup_trinary_alloy(sp_of(c['z1']), c['n1'], sp_of(c['z2']), c['n2'])]
        need(set(got) <= set(want), 'ternary structure not asked for', sorted(set(got) - set(want))[:1])
        pm = perms_of(p)
        cov = set()
        for x in got:
            cov |= orbit(pm, x)
        need(set(want) <= cov, 'ternary structure missing', sorted(set(want) - cov)[:1])
    elif k == 'inter':
        r = random.Random(c['seed'])
        el = [i for i in range(n) if base[i] == c['ele']]
        gens = [og.gen_dup_unitary(c['n'], sp_of(c['z'])), og.gen_dup_unitary(c['n'], sp_of(c['z2'])),
                og.gen_dup_of_ele(sp_of(c['ele']), 1, sp_of(c['z2']))]
        want = [[subst(base, q, c['z']) for q in combos(range(n), c['n'])],
                [subst(base, q, c['z2']) for q in combos(range(n), c['n'])],
                [subst(base, q, c['z2']) for q in combos(el, 1)]]
        got = [[], [], []]
        live = [0, 1, 2]
        while live:
            i = r.choice(live)
            try:
                got[i].append(next(gens[i]))
            except StopIteration:
                live.remove(i)
        for a, b in zip(got, want):
            verify(a, b)
    need(ints(g.numbers) == base and close(g.positions, p['pos'], 0) and close(g.lattice, p['lat'], 0)
         and ints(g.spg_cell[2]) == base, 'the parent cell was changed')
    need(ints(og.numbers) == base, 'the generator\'s elements were changed')
