from common import *
from ababe.stru import sogen
RULE = ('small grids of several lattices x speckle numbers: full enumeration, reduced enumeration and its order against spglib '
        'operations of the uniform grid, and the separation verdict on random occupations of random lattices; distinct by JSON text')


def cases(rng, tier):
    cur = [('bcc', [1, 2, 2], 2), ('sc', [2, 2, 2], 2), ('triflat', [1, 3, 3], 2), ('fcc', [1, 2, 4], 3), ('sc', [1, 1, 3], 1),
           ('bcc', [2, 2, 2], 4), ('fcc', [1, 1, 1], 1), ('sc', [1, 2, 3], 0), ('hex', [1, 3, 2], 3), ('tri', [2, 2, 1], 2)]
    i = 0
    while True:
        if i < len(cur):
            lt, size, n = cur[i]
        else:
            lt, size = rng.choice(['bcc', 'fcc', 'sc', 'triflat', 'hex', 'tet', 'tri']), [rng.randint(1, 3) for _ in range(3)]
            N = size[0] * size[1] * size[2]
            if N > 12:
                continue
            n = rng.randint(0, min(N, 4))
        i += 1
        z = rng.sample(ZS, 2)
        yield {'k': 'enum', 'lt': lt, 'size': size, 'n': n, 'z': z}
        yield {'k': 'nodup', 'lt': lt, 'size': size, 'n': n, 'z': z}
        for _ in range(4):
            size = [rng.randint(1, 4) for _ in range(3)]
            N = size[0] * size[1] * size[2]
            m = rng.choice([LATS[rng.choice(['bcc', 'fcc', 'sc', 'hex', 'triflat'])],
                            [[rng.uniform(-2, 2) for _ in range(3)] for _ in range(3)],
                            [[x * 1.5 for x in r] for r in LATS['tri']]])
            k = rng.randint(0, min(N, 4))
            on = set(rng.sample(range(N), k))
            yield {'k': 'disj', 'm': m, 'size': size, 'num': [z[1] if j in on else z[0] for j in range(N)], 'z': z}


def check(c):
    size = c['size']
    d, w, l = size
    z0, z1 = c['z']
    N = d * w * l
    if c['k'] == 'disj':
        A = np.array(c['num']).reshape(size)
        pts = [(i, j, k) for i in range(d + 1) for j in range(w + 1) for k in range(l + 1)
               if int(A[i % d, j % w, k % l]) == z1]
        m = c['m']
        ds = [math.sqrt(sum(sum((p[k] - q[k]) * m[k][j] for k in range(3)) ** 2 for j in range(3)))
              for p, q in itertools.combinations(pts, 2)]
        if any(abs(x - 1.01) < 1e-6 for x in ds):
            return None
        want = all(x > 1.01 for x in ds)
        st = CStru.from_array(m, A)
        for rep in range(2):
            need(bool(sogen.is_speckle_disjunct(st, sp_of(z1))) == want, 'verdict for shortest distance', min(ds or [None]))
        need(ints(np.array(st.get_array()).reshape(-1)) == tuple(c['num']), 'the structure was changed')
        return
    m = LATS[c['lt']]
    base = tuple([z0] * N)
    alls = [subst(base, q, z1) for q in itertools.combinations(range(N), c['n'])]
    flat = lambda a: ints(np.array(a).reshape(-1))
    if c['k'] == 'enum':
        gs = list(SitesGrid.gen_speckle(sp_of(z0), tuple(size), sp_of(z1), c['n']))
        e = same_multiset([flat(g.to_array()) for g in gs], alls)
        need(e is None, e)
        need(all((g.depth, g.width, g.length) == (d, w, l) for g in gs), 'grid size')
        cs = list(CStru.gen_speckle(m, sp_of(z0), tuple(size), sp_of(z1), c['n']))
        e = same_multiset([flat(g.get_array()) for g in cs], alls)
        need(e is None, e)
        need(all(close(x.m, m, 0) for x in cs), 'lattice')
    else:
        st = CStru(m, SitesGrid.sea(d, w, l, sp_of(z0)))
        L, P, Z = st.get_cell()
        pm = perms_of({'lat': rows(L), 'pos': rows(P), 'num': list(ints(Z))})
        order = [flat(x.get_array()) for x in CStru.gen_speckle(m, sp_of(z0), tuple(size), sp_of(z1), c['n'])]
        want = first_of_class(pm, order)
        got = [flat(x.get_array()) for x in sogen.gen_nodup_cstru(m, sp_of(z0), tuple(size), sp_of(z1), c['n'])]
        need(got == want, 'reduced enumeration', len(got), 'structures instead of', len(want))
        seen = set()
        for x in got:
            seen |= orbit(pm, x)
        need(set(alls) <= seen, 'a class is missing')
