from common import *
from ababe.stru.restriction import MinDistanceRestriction
RULE = ('random and library cells x elements (present, absent, vacancy, single atom) x distances around the true minimum '
        '(kept 1e-6 away from equality), the same restriction object reused; distinct by JSON text')


def mind(p, z):
    pts = []
    for q, e in zip(p['pos'], p['num']):
        if e == z:
            for d in itertools.product((0, 1), repeat=3):
                f = [a + b for a, b in zip(q, d)]
                pts.append([sum(f[k] * p['lat'][k][j] for k in range(3)) for j in range(3)])
    m = None
    for a, b in itertools.combinations(pts, 2):
        d = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
        if m is None or d < m:
            m = d
    return m


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        s = rng.choice([random_prim(rng), random_super(rng, 8), shuffled(rng, random_prim(rng)),
                        random_tri(rng, rng.randint(1, 6), [14, 8]), random_tri(rng, rng.randint(2, 5), [0, 8, 26])])
        zs = sorted(set(s['num']))
        z = rng.choice(zs + zs + [1])
        m = mind(s, z)
        if m is None:
            d = rng.choice([0.1, 5.0, 100.])
        else:
            d = rng.choice([m * .999, m * 1.001, m - 1e-4, m + 1e-4, m * rng.uniform(.2, 3), 0.0 if m > 1e-3 else 1.])
        if m is not None and abs(d - m) < 1e-6:
            continue
        yield {'k': 'cell', 's': s, 'z': z, 'd': d, 'z2': rng.choice(zs), 'd2': rng.uniform(0.5, 6)}


def check(c):
    g = gcell(c['s'])
    p = cell_of(g)
    R = MinDistanceRestriction((sp_of(c['z']), c['d']))
    m = mind(p, c['z'])
    want = m is None or m > c['d']
    for rep in range(2):
        got = R.is_satisfied(g)
        need(bool(got) == want, 'verdict', got, 'for smallest distance', m, 'and limit', c['d'])
    m2 = mind(p, c['z2'])
    if m2 is not None and abs(m2 - c['d2']) > 1e-6:
        R2 = MinDistanceRestriction((sp_of(c['z2']), c['d2']))
        need(bool(R2.is_satisfied(g)) == (m2 > c['d2']), 'verdict for smallest distance', m2, 'and limit', c['d2'])
    need(bool(R.is_satisfied(g)) == want, 'verdict changed')
    need(cell_of(g) == p, 'the cell was changed')
