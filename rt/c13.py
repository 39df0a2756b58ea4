from common import *
from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
RULE = ('library, supercell and random cells (atoms near faces, coincident atoms, atoms outside the cell) x centres x radii kept '
        '1e-6 away from any distance x element filter present/absent/None; both removers with several centres; distinct by JSON text')
IM = list(itertools.product((-1, 0, 1), repeat=3))


def dmin(p, c, L):
    best = None
    for t in IM:
        f = [p[k] + t[k] - c[k] for k in range(3)]
        d = math.sqrt(sum(sum(f[k] * L[k][j] for k in range(3)) ** 2 for j in range(3)))
        if best is None or d < best:
            best = d
    return best


def alld(p, c, L):
    for t in IM:
        f = [p[k] + t[k] - c[k] for k in range(3)]
        yield math.sqrt(sum(sum(f[k] * L[k][j] for k in range(3)) ** 2 for j in range(3)))


def cases(rng, tier):
    while True:
        s = rng.choice([random_super(rng, 8), shuffled(rng, random_super(rng, 6)), random_tri(rng, rng.randint(1, 7), [8, 14]),
                        random_tri(rng, rng.randint(1, 7), [8, 14, 0])])
        L = s['lat']
        cs = [rng.choice(s['pos']) if rng.random() < .5 else [rng.randrange(-300, 1300) / 1000. for _ in range(3)]
              for _ in range(rng.randint(1, 4))]
        ds = [d for p in s['pos'] for c in cs + s['pos'] for d in alld(p, c, L)]
        for _ in range(20):
            r = rng.choice([rng.uniform(0.1, 4), rng.choice(ds) + rng.choice([1e-3, -1e-3, .01]), 0.01])
            if all(abs(r - d) > 1e-6 for d in ds):
                break
        else:
            continue
        zs = sorted(set(s['num']))
        yield {'k': 'cell', 's': s, 'c': cs, 'r': r, 'e': rng.choice(zs + [None, 1]), 'ce': rng.choice(zs + [1])}


def check(c):
    s, r = c['s'], c['r']
    L = s['lat']
    n = len(s['num'])

    def mk():
        return ModifiedCell(np.array(L, dtype=float), np.array(s['pos'], dtype=float), np.array(s['num']))
    e = None if c['e'] is None else sp_of(c['e'])

    def inr(cen):
        return [i for i in range(n) if dmin(s['pos'][i], cen, L) < r and (c['e'] is None or s['num'][i] == c['e'])]
    m = mk()
    for cen in c['c']:
        got = m.get_points_incell_insphere(np.array(cen), r, e)
        need(sorted(got) == inr(cen), 'sphere query returned', sorted(got), 'instead of', inr(cen))
        for i in got:
            need(got[i] is m[i], 'index', i, 'mapped to another site')
        if e is None:
            need(sorted(m.get_points_incell_insphere(np.array(cen), r)) == inr(cen), 'sphere query without element')
        for i in range(n):
            f = getattr(m, 'in_euclidean_discance', None)
            if f:
                need(bool(f(m[i].position, np.array(cen), r)) == (dmin(s['pos'][i], cen, L) < r), 'distance test of site', i)
    need(len(m) == n, 'a query changed the cell')

    def left(gone):
        return [(tuple(float(x) for x in s['pos'][i]), s['num'][i]) for i in range(n) if i not in gone]
    m = mk()
    out = AtomRemoveClarifier(c['c'], r, e).clarify(m)
    gone = set(i for cen in c['c'] for i in inr(cen))
    need([(tuple(x.position), x.element.Z) for x in out] == left(gone), 'remover kept', [ints(out.numbers)],
         'should remove', sorted(gone))
    need(close(out.lattice, L, 0), 'lattice changed')
    m = mk()
    out = VerboseAtomRemoveClarifier(sp_of(c['ce']), r, e).clarify(m)
    gone = set(i for k in range(n) if s['num'][k] == c['ce'] for i in inr(s['pos'][k]))
    need([(tuple(x.position), x.element.Z) for x in out] == left(gone), 'element remover kept', [ints(out.numbers)],
         'should remove', sorted(gone))
    for C in (AtomRemoveClarifier(c['c'], r, e), VerboseAtomRemoveClarifier(sp_of(c['ce']), r, e)):
        try:
            C.clarify(gcell(s))
        except ValueError:
            pass
        else:
            raise Fail('a cell of the wrong kind was accepted')
