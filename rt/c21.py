from common import *
from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
RULE = ('random grids of all small sizes with mixed elements: conversions both ways, equality, copies and edit histories, cells; '
        'distinct by JSON text')


def cases(rng, tier):
    while True:
        size = [rng.randint(1, 4) for _ in range(3)]
        zs = rng.sample(ZS, rng.randint(1, 4))
        n = size[0] * size[1] * size[2]
        yield {'k': '3d', 'size': size, 'num': [rng.choice(zs) for _ in range(n)],
               'm': LATS[rng.choice(sorted(LATS))] if rng.random() < .5 else [[rng.uniform(-3, 3) for _ in range(3)] for _ in range(3)],
               'edits': [[[rng.randrange(s) for s in size], rng.choice(ZS), rng.randrange(3)] for _ in range(rng.randint(1, 8))]}
        size = size[:2]
        yield {'k': '2d', 'size': size, 'num': [rng.choice(zs) for _ in range(size[0] * size[1])], 'z': rng.choice(ZS)}


def check(c):
    if c['k'] == '2d':
        w, l = c['size']
        A = np.array(c['num']).reshape((w, l))
        g = SitesGrid2d.from_array(A)
        need((g.width, g.length) == (w, l), 'size')
        need(np.array_equal(np.array(g.get_array()), A), 'array round trip')
        need(g == SitesGrid2d.from_array(np.array(g.get_array())), 'grid round trip')
        need(not (g == None), 'equal to nothing')
        B = A.copy()
        B[w - 1, l - 1] = 1 if A[w - 1, l - 1] != 1 else 2
        need(not (g == SitesGrid2d.from_array(B)), 'different grids are equal')
        s = CStru2d([[1, 0], [0, 1]], g)
        need(np.array_equal(np.array(s.get_array()), A) and (s.width, s.length) == (w, l), 'structure array')
        sea = SitesGrid2d.sea(w, l, sp_of(c['z']))
        need(np.array_equal(np.array(sea.get_array()), np.zeros((w, l), dtype=int) + c['z']), 'sea')
        return
    d, w, l = c['size']
    A = np.array(c['num']).reshape((d, w, l))
    A0 = A.copy()
    g = SitesGrid.from_array(A)
    need((g.depth, g.width, g.length) == (d, w, l), 'size')
    need(np.array_equal(np.array(g.to_array()), A), 'array round trip')
    need(g == SitesGrid.from_array(g.to_array()), 'grid round trip')
    need(not (g == None), 'equal to nothing')
    st = CStru(c['m'], g)
    need(st == CStru.from_array(c['m'], A), 'structure from array')
    need(not (st == None), 'structure equal to nothing')
    copies = []
    cur = A.copy()
    cells = None
    for pos, z, what in c['edits']:
        pos = tuple(pos)
        if what == 0:
            h = g.deepCopy()
            need(h == g and np.array_equal(np.array(h.to_array()), cur), 'copy differs')
            need((h.depth, h.width, h.length) == (d, w, l), 'copy size')
            copies.append((h, cur.copy()))
        if what == 1 and copies:
            h, a = copies[-1]
            h[pos] = sp_of(z)
            a[pos] = z
        else:
            g[pos] = sp_of(z)
            cur[pos] = z
        need(g[pos].Z == cur[pos], 'reading back an assigned position')
        need(np.array_equal(np.array(g.to_array()), cur), 'an assignment changed other positions')
        for h, a in copies:
            need(np.array_equal(np.array(h.to_array()), a), 'original and copy are not independent')
            need((h == g) == np.array_equal(a, cur), 'equality does not follow the contents')
        for p in itertools.product(range(d), range(w), range(l)):
            need(g[p].Z == cur[p], 'position', p)
    need(np.array_equal(A, A0), 'the array was changed')
    need(np.array_equal(np.array(st.get_array()), cur), 'the structure does not follow its grid')
    L, P, N = st.get_cell()
    need(close(L, [[x * k for x in r] for r, k in zip(c['m'], c['size'])], 1e-12), 'lattice of the cell')
    want = [((i / float(d), j / float(w), k / float(l)), int(cur[i, j, k]))
            for i in range(d) for j in range(w) for k in range(l)]
    got = [(tuple(float(x) for x in p), int(z)) for p, z in zip(P, N)]
    need(len(got) == len(want), 'number of atoms')
    for a, b in zip(sorted(got), sorted(want)):
        need(close(a[0], b[0], 1e-12) and a[1] == b[1], 'atom', a, 'instead of', b)
    need(close(st.get_lattice(), L, 0) and close(st.get_positions(), P, 0) and ints(st.get_atoms()) == ints(N), 'views differ')
    if abs(det3(rows(L))) > .01:
        q = st.get_gcell()
        need(sorted(zip(map(tuple, rows(q.positions)), ints(q.numbers))) == sorted(got) and close(q.lattice, L, 0), 'canonical cell')
    sea = SitesGrid.sea(d, w, l, sp_of(c['num'][0]))
    need(np.array_equal(np.array(sea.to_array()), np.zeros((d, w, l), dtype=int) + c['num'][0]), 'sea')
    sea[(0, 0, 0)] = sp_of(1)
    need(int((np.array(sea.to_array()) != c['num'][0]).sum()) == (0 if c['num'][0] == 1 else 1), 'sea rows are shared')
    need(SitesGrid.sea(1, 1, 1).to_array()[0][0][0] == 0, 'default sea')
    f = SitesGrid.random_fill(sp_of(c['num'][0]), (d, w, l), sp_of(26))
    need(set(int(x) for x in np.array(f.to_array()).reshape(-1)) <= set([c['num'][0], 26]), 'random fill')
