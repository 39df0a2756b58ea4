from common import *
import ababe.stru.grid as grid
RULE = ('parent cells (library, shuffled, random with atoms outside the cell) x Hermite-range matrices (all of small determinant, '
        'random larger ones, diagonal scalings), via both routes; atoms matched one to one modulo the new lattice with exact '
        'inverse matrices; distinct by JSON text')


def cases(rng, tier):
    for H in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 2, 0], [0, 0, 2]], [[1, 0, 0], [0, 1, 0], [0, 0, 7]],
              [[5, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 6, 0], [0, 0, 1]], [[1, 1, 2], [0, 2, 2], [0, 0, 3]],
              [[1, 0, 6], [0, 1, 6], [0, 0, 7]], [[1, 4, 0], [0, 5, 0], [0, 0, 1]], [[2, 1, 1], [0, 2, 1], [0, 0, 2]],
              [[3, 0, 0], [0, 3, 2], [0, 0, 3]], [[1, 2, 3], [0, 3, 3], [0, 0, 4]]):
        yield {'k': 'curated', 's': PRIM['zb'], 'H': H}
        yield {'k': 'curated', 's': PRIM['tri2'], 'H': H}
    for a, c, f in ((1, 2, 2), (1, 3, 3), (1, 3, 4), (2, 2, 3), (3, 1, 4), (1, 4, 4), (2, 3, 3), (1, 5, 5), (3, 3, 3)):
        # the corners of the Hermite range: off-diagonal entries at their maxima
        for b, d, e in ((c - 1, f - 1, f - 1), (c - 1, 0, f - 1), (c - 1, f - 1, 0)):
            yield {'k': 'corner', 's': PRIM[rng.choice(['zb', 'tri2'])], 'H': [[a, b, d], [0, c, e], [0, 0, f]]}
    for n in range(1, 7):
        for a in range(1, n + 1):
            for c in range(1, n + 1):
                if n % (a * c):
                    continue
                f = n // a // c
                for b in range(c):
                    for d in range(f):
                        for e in range(f):
                            if n <= 3 or rng.random() < .15:
                                yield {'k': 'small', 's': random_prim(rng), 'H': [[a, b, d], [0, c, e], [0, 0, f]]}
    while True:
        s = rng.choice([random_prim(rng), shuffled(rng, random_prim(rng)), random_tri(rng, rng.randint(1, 5))])
        n = rng.choice([2, 3, 4, 5, 6, 8, 9, 10, 12, 16])
        yield {'k': 'random', 's': s, 'H': random_hnf(rng, n)}


def verify(g2, p, H):
    n = H[0][0] * H[1][1] * H[2][2]
    N = len(p['num'])
    need(close(g2.lattice, mul3(H, p['lat']), 1e-8), 'lattice is not the matrix times the parent lattice')
    pos, num = rows(g2.positions), ints(g2.numbers)
    need(len(num) == n * N and len(pos) == n * N, 'has', len(num), 'atoms and', len(pos), 'positions instead of', n * N)
    Hi = [[float(x) for x in r] for r in inv3(H)]
    used = [False] * len(num)
    buckets = {}
    for i, q in enumerate(pos):
        buckets.setdefault(num[i], []).append(i)
    for q, z in zip(p['pos'], p['num']):
        for i in range(H[0][0]):
            for j in range(H[1][1]):
                for k in range(H[2][2]):
                    t = [q[0] + i, q[1] + j, q[2] + k]
                    f = [sum(t[m] * Hi[m][c] for m in range(3)) for c in range(3)]
                    hit = [m for m in buckets.get(z, []) if not used[m] and cdist(f, pos[m]) < 1e-6]
                    need(hit, 'no atom of element', z, 'at the copy of', q, 'shifted by', (i, j, k))
                    used[hit[0]] = True


def check(c):
    g = gcell(c['s'])
    p = cell_of(g)
    H = c['H']
    verify(g.supercell(np.array(H)), p, H)
    verify(grid.SuperLatticeCell(g, np.array(H)).to_general_cell(), p, H)
    need(cell_of(g) == p, 'the parent cell was changed')
    f = getattr(GeneralCell, 'get_frac_from_mat', None)
    g2 = getattr(grid.SuperLatticeCell, 'get_frac_from_H', None)
    for fn in (f, g2):
        if fn is not None:
            need(len(fn(np.array(H))) == H[0][0] * H[1][1] * H[2][2], 'number of lattice points')
