from common import *
import ababe.stru.grid as grid
RULE = 'every volume n up to the stated bound, 3D and 2D, several parent cells; the full list is compared; distinct by JSON text'
_real = spglib.get_symmetry
_memo = {}


def _cached(cell, symprec=1e-5, **kw):
    k = (np.asarray(cell[0]).tobytes(), np.asarray(cell[1]).tobytes(), np.asarray(cell[2]).tobytes(), symprec)
    if k not in _memo:
        _memo[k] = _real(cell, symprec=symprec, **kw)
    return _memo[k]


spglib.get_symmetry = _cached      # memo only: the result does not depend on it


def cases(rng, tier):
    for n in range(1, 19):
        yield {'k': '3d', 'n': n, 's': 'zb'}
    for n in range(1, 65):
        yield {'k': '2d', 'n': n, 's': 'graphene'}
    for n in ([20, 24, 25, 27, 30, 36, 49] if tier == 'quick' else list(range(19, 65))):
        yield {'k': '3d', 'n': n, 's': 'tri2'}
    for n in ([72, 97, 100, 121, 128, 144, 225, 256] if tier == 'quick' else range(65, 400)):
        yield {'k': '2d', 'n': n, 's': 'bnsheet'}


def check(c):
    g = gcell(PRIM[c['s']])
    n = c['n']
    want = []
    for a in range(1, n + 1):
        if n % a:
            continue
        if c['k'] == '2d':
            for b in range(n // a):
                want.append((a, b, 0, 0, n // a, 0, 0, 0, 1))
            continue
        for cc in range(1, n // a + 1):
            if (n // a) % cc:
                continue
            f = n // a // cc
            for b in range(cc):
                for d in range(f):
                    for e in range(f):
                        want.append((a, b, d, 0, cc, e, 0, 0, f))
    G = grid.SuperLatticeGenerator2D if c['k'] == '2d' else grid.SuperLatticeGenerator
    got = [ints(np.asarray(h.lat_coeff).reshape(-1)) for h in G.hnfs_from_n_dups(g, n)]
    e = same_multiset(got, want)
    need(e is None, e)
    if n <= 6:
        h = G.hnfs_from_n_dups(g, n)[-1]
        need(close(h.ub, g.lattice, 0) and close(h.upositions, g.positions, 0) and ints(h.unumbers) == ints(g.numbers),
             'superlattice does not carry its parent cell')
