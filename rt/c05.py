from common import *
from ababe.stru import sogen
RULE = ('library crystals, supercells by random Hermite matrices (skewed, up to 24 atoms), crystals generated from the '
        'operations of random Hall entries, shuffled/shifted atom lists, decorated cells, uniform grids; operations from spglib, '
        'site images matched independently; distinct by JSON text')


def cases(rng, tier):
    for nm in sorted(PRIM):
        yield {'k': 'cell', 's': PRIM[nm]}
    yield {'k': 'cell', 's': super_spec(PRIM['zb'], [[1, 0, 1], [0, 1, 1], [0, 0, 8]])}
    for size in ([1, 2, 2], [2, 2, 2], [1, 3, 3], [1, 1, 4]):
        for lt in ('bcc', 'fcc', 'sc', 'triflat'):
            yield {'k': 'grid', 'lt': lt, 'size': size}
    while True:
        s = random_super(rng, 16 if tier == 'quick' else 24)
        yield {'k': 'cell', 's': s}
        s = shuffled(rng, s)
        if rng.random() < .5:
            i = rng.randrange(len(s['num']))
            s['num'][i] = 47
        yield {'k': 'cell', 's': s}
        s = hall_spec(rng, rng.randrange(1, 530), zs=rng.choice([(14,), (14, 8)]), maxat=24)
        if s:
            yield {'k': 'cell', 's': s}
            yield {'k': 'cell', 's': shuffled(rng, s)}
        yield {'k': 'cell', 's': random_tri(rng, rng.randint(1, 4), [14])}
        yield {'k': 'grid', 'lt': rng.choice(['bcc', 'fcc', 'sc', 'triflat']),
               'size': [rng.randint(1, 3) for _ in range(3)]}


def verify(tab, p, n):
    tab = [ints(x) for x in tab]
    for t in tab:
        need(sorted(t) == list(range(n)), 'not a permutation of the sites:', t)
    pm = perms_of(p)
    need(len(tab) == len(pm), 'table has', len(tab), 'entries for', len(pm), 'operations')
    for i, (a, b) in enumerate(zip(sorted(tab), sorted(pm))):
        need(a == b, 'entry', a, 'does not match where the operations move the sites', b)
    for t in set(tab):
        need(all(p['num'][t[k]] == p['num'][k] for k in range(n)), 'permutation', t, 'mixes elements')
    need(tuple(range(n)) in tab, 'identity missing')
    S = set(tab)
    if len(S) <= 100:
        for a in S:
            for b in S:
                need(tuple(a[i] for i in b) in S, 'not closed under composition')


def check(c):
    if c['k'] == 'cell':
        g = gcell(c['s'])
        p = cell_of(g)
        verify(g.get_symmetry_permutation(), p, len(p['num']))
        verify(g.get_symmetry_permutation(), p, len(p['num']))
        need(cell_of(g) == p, 'the cell was changed')
        d = g.get_symmetry()
        ops = sym_ops(p)
        need(len(d['rotations']) == len(ops), 'get_symmetry does not return the symmetry operations')
    else:
        size = c['size']
        cs = CStru(LATS[c['lt']], SitesGrid.sea(size[0], size[1], size[2], Specie('Cu')))
        L, P, N = cs.get_cell()
        p = {'lat': rows(L), 'pos': rows(P), 'num': list(ints(N))}
        f = getattr(sogen, 'get_permutation_cell', None)
        if f is not None:
            verify(f((L, P, N)), p, len(p['num']))
