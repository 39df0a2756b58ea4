from common import *
import ababe.stru.grid as grid
from c06 import _cached
RULE = ('library and shuffled parent cells x all volumes up to the bound, 3D and 2D: full reduced list and its order, and == on '
        'random pairs of equal volume, against exact integer arithmetic with spglib rotations; distinct by JSON text')


def adj3(B):
    return [[B[(j + 1) % 3][(i + 1) % 3] * B[(j + 2) % 3][(i + 2) % 3]
             - B[(j + 1) % 3][(i + 2) % 3] * B[(j + 2) % 3][(i + 1) % 3] for j in range(3)] for i in range(3)]


def related(rots, A, B):
    """some rotation carries the row lattice of A onto that of B (equal det)"""
    Ba = adj3(B)
    d = det3(B)
    for R in rots:
        M = [[R[i][0] * a[0] + R[i][1] * a[1] + R[i][2] * a[2] for i in range(3)] for a in A]
        if all((M[i][0] * Ba[0][j] + M[i][1] * Ba[1][j] + M[i][2] * Ba[2][j]) % d == 0
               for i in range(3) for j in range(3)):
            return True
    return False


def cases(rng, tier):
    for n in (1, 2, 3, 4):
        for nm in ('fcc', 'hex1', 'zb', 'tri2', 'mono2'):
            yield {'k': '3d', 's': PRIM[nm], 'n': n}
        for nm in ('graphene', 'bnsheet', 'sc', 'tri1'):
            yield {'k': '2d', 's': PRIM[nm], 'n': n * 2}
    while True:
        s = rng.choice([random_prim(rng), shuffled(rng, random_prim(rng)),
                        hall_spec(rng, rng.randrange(1, 400), maxat=8) or PRIM['fcc']])
        n = rng.randint(2, 40)
        yield {'k': 'eq', 's': s, 'A': [random_hnf(rng, n) for _ in range(4)], 'seed': rng.randrange(10 ** 6)}
        if rng.random() < .2:
            yield {'k': '3d', 's': s, 'n': rng.randint(1, 5 if tier == 'quick' else 9)}
            yield {'k': '2d', 's': s, 'n': rng.randint(1, 10 if tier == 'quick' else 24)}


def check(c):
    g = gcell(c['s'])
    p = cell_of(g)
    rots = [R for R, t in sym_ops(p)]
    uniq = []
    for R in rots:
        if R not in uniq:
            uniq.append(R)
    rots = uniq
    if c['k'] == 'eq':
        rng = random.Random(c['seed'])
        hs = list(c['A'])
        for A in c['A'][:2]:      # an image of A, brought back to Hermite form
            R = rng.choice(rots)
            hs.append(hnf([[sum(R[i][j] * a[j] for j in range(3)) for i in range(3)] for a in A]))
        objs = [grid.SuperLatticeCell(g, np.array(h)) for h in hs]
        for a, x in zip(hs, objs):
            for b, y in zip(hs, objs):
                need(bool(x == y) == related(rots, a, b), 'comparison of', a, 'and', b, 'gives', bool(x == y))
                need(bool(x != y) != bool(x == y), '!= and == agree')
        return
    G = grid.SuperLatticeGenerator2D if c['k'] == '2d' else grid.SuperLatticeGenerator
    alls = [[list(ints(r)) for r in np.asarray(h.lat_coeff)] for h in G.hnfs_from_n_dups(g, c['n'])]
    want = []
    for h in alls:
        if not any(related(rots, w, h) for w in want):
            want.append(h)
    got = [[list(ints(r)) for r in np.asarray(h.lat_coeff)] for h in G.hnfs_from_n(g, c['n'])]
    need(got == want, 'reduced list has', len(got), 'entries, expected', len(want), 'first difference',
         [x for x in zip(got, want) if x[0] != x[1]][:1])


def hnf(M):
    M = [list(map(int, r)) for r in M]
    for c in range(3):
        while True:
            nz = [r for r in range(c, 3) if M[r][c] != 0]
            p = min(nz, key=lambda r: abs(M[r][c]))
            M[c], M[p] = M[p], M[c]
            done = True
            for r in range(c + 1, 3):
                q = M[r][c] // M[c][c]
                M[r] = [x - q * y for x, y in zip(M[r], M[c])]
                if M[r][c]:
                    done = False
            if done:
                break
        if M[c][c] < 0:
            M[c] = [-x for x in M[c]]
        for r in range(c):
            q = M[r][c] // M[c][c]
            M[r] = [x - q * y for x, y in zip(M[r], M[c])]
    return M
