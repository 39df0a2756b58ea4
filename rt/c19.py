from common import *
from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
RULE = ('random and special lattices x grid sizes (incl. 1 along an axis) x positions x radii giving none, one and many '
        'neighbours, radii 1e-6 away from any distance except for integer lattices where equality is exact; distinct by JSON text')


def cases(rng, tier):
    while True:
        for dim in (2, 3):
            size = [rng.choice([1, 2, 3, 4, 5][:5 if dim == 2 else 4]) for _ in range(dim)]
            if rng.random() < .3:
                m = [[int(i == j) for j in range(dim)] for i in range(dim)]
                if rng.random() < .5:
                    m = [[rng.randint(-2, 2) for _ in range(dim)] for _ in range(dim)]
                exact = True
            else:
                m = [[rng.uniform(-2, 2) for _ in range(dim)] for _ in range(dim)]
                if dim == 3 and rng.random() < .3:
                    m = LATS[rng.choice(['bcc', 'fcc', 'hex', 'triflat'])]
                exact = False
            pos = [rng.randrange(s) for s in size]
            ds = sorted(set(dist(m, pos, q) for q in itertools.product(*[range(s) for s in size]) if list(q) != pos))
            if exact:
                r = rng.choice([1, 2, 0, 3, rng.uniform(0, 4)])
            else:
                r = rng.choice([rng.uniform(0, 5)] + ([ds[0] + 1e-4, ds[0] - 1e-4, rng.choice(ds) + 1e-3, ds[-1] + 1] if ds else []))
            if r < 0 or (not exact and any(abs(d - r) < 1e-6 for d in ds)):
                continue
            if exact and any(abs(d - r) < 1e-6 and d != r for d in ds):
                continue
            yield {'k': '%dd' % dim, 'm': m, 'size': size, 'pos': pos, 'r': r, 'mid': rng.random() < .2}


def dist(m, p, q):
    n = len(m)
    return math.sqrt(sum(sum((q[k] - p[k]) * m[k][j] for k in range(n)) ** 2 for j in range(n)))


def check(c):
    size = c['size']
    pos = tuple(c['pos'])
    if c['k'] == '2d':
        st = CStru2d(c['m'], SitesGrid2d.sea(size[0], size[1], Specie('B')))
    else:
        st = CStru(c['m'], SitesGrid.sea(size[0], size[1], size[2], Specie('B')))
    need(tuple(st.get_midpoint()) == tuple(s // 2 for s in size), 'midpoint')
    want = set(q for q in itertools.product(*[range(s) for s in size]) if q != pos and dist(c['m'], pos, q) <= c['r'])
    a0 = np.array(st.get_array())
    for rep in range(2):
        got = st.get_neighbors(pos, c['r'])
        got = [tuple(int(v) for v in q) for q in got]
        need(len(set(got)) == len(got) and set(got) == want, 'neighbours', sorted(got), 'instead of', sorted(want))
    need(np.array_equal(a0, np.array(st.get_array())), 'the grid was changed')
