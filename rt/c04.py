from common import *
RULE = ('random atom lists (unsorted, negative, outside the cell, equal coordinates, coincident atoms, all dtypes) with coordinates '
        'on a 1/2000-free grid so that rounding is unambiguous; permuted and translated copies; replacement of the elements; '
        'distinct by JSON text')


def key(p):
    k = []
    for x in p:
        v = int(round(x * 10000))          # coordinates have <= 4 decimals, 4th never 5
        v = (v + 5) // 10 if True else v
        k.append(v % 1000)
    return tuple(k)


def coord(rng):
    v = rng.choice([rng.randrange(-3000, 4000) * 10, rng.randrange(-300, 400) * 100, rng.randrange(-3, 4) * 10000,
                    rng.randrange(-30, 40) * 1000])
    v += rng.choice([0, 0, 1, -1, 3, -4, 4])
    return v / 10000.


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        n = rng.choice([1, 2, 3, 4, 5, 8, 12, 20, 40]) if i > 3 else i
        if i == 60:
            n = 300
        small = [coord(rng) for _ in range(3)]
        pos = [[rng.choice(small) if rng.random() < .4 else coord(rng) for _ in range(3)] for _ in range(n)]
        if n > 1 and rng.random() < .2:
            pos[1] = [x + rng.choice([0, 1, -2]) for x in pos[0]]
        zs = rng.sample(ZS, rng.randint(1, 4))
        yield {'k': rng.choice(['int64', 'int32', 'list']), 'lat': random_tri(rng, 1)['lat'], 'pos': pos,
               'num': [rng.choice(zs) for _ in range(n)], 'num2': [rng.choice(ZS) for _ in range(n)],
               'seed': rng.randrange(10 ** 6)}


def comment(num):
    return ''.join('%s%d' % (NAME[z], num.count(z)) for z in sorted(set(num)) if z)


def views(c, pos, num):
    need(ints(c.numbers) == tuple(num), 'numbers', ints(c.numbers), 'instead of', num)
    need(close(c.positions, pos, 0), 'positions differ')
    L, P, N = c.spg_cell
    need(ints(N) == tuple(num) and close(P, pos, 0) and close(L, c.lattice, 0), 'spg_cell disagrees with the cell')
    need(c.comment == comment(list(num)), 'comment', c.comment, 'instead of', comment(list(num)))
    need(int(c.num_count) == len(num), 'num_count')
    for z in set(num) | set([1]):
        need(int(c.get_speckle_num(sp_of(z))) == list(num).count(z), 'count of', z)


def check(c):
    rng = random.Random(c['seed'])
    n = len(c['num'])
    dt = {'int64': np.int64, 'int32': np.int32}.get(c['k'], None)

    def build(pos, num):
        L, P = np.array(c['lat'], dtype=float), np.array(pos, dtype=float)
        N = np.array(num, dtype=dt) if dt else np.array(num)
        L0, P0, N0 = L.copy(), P.copy(), N.copy()
        g = GeneralCell(L, P, N)
        g.comment, g.id
        need(close(L, L0, 0) and close(P, P0, 0) and ints(N) == ints(N0), 'the caller\'s arrays were changed')
        return g
    order = sorted(range(n), key=lambda i: (key(c['pos'][i]), i))
    pos = [c['pos'][i] for i in order]
    num = [c['num'][i] for i in order]
    g = build(c['pos'], c['num'])
    views(g, pos, num)
    need(close(g.lattice, c['lat'], 0), 'lattice differs')
    # idempotent
    h = GeneralCell(g.lattice, g.positions, g.numbers)
    views(h, pos, num)
    need(h.id == g.id, 'rebuilding changed the identity')
    # any order, any image: same canonical cell
    if len(set(key(p) for p in c['pos'])) == n:
        idx = list(range(n))
        rng.shuffle(idx)
        sh = [[rng.choice([0, 1, -1, 3, -2]) for _ in range(3)] for _ in range(n)]
        g2 = build([[round(x + t, 4) for x, t in zip(c['pos'][i], sh[i])] for i in idx], [c['num'][i] for i in idx])
        need(ints(g2.numbers) == tuple(num), 'order depends on the order or image of the atoms')
        need(g2.id == g.id and g2.comment == g.comment, 'identity depends on the order or image of the atoms')
        need(all(key(a) == key(b) for a, b in zip(rows(g2.positions), pos)), 'positions in another order')
    # later replacement of the elements
    g.numbers = np.array(c['num2'], dtype=dt) if dt else np.array(c['num2'])
    views(g, pos, c['num2'])
    need((g.id == h.id) == (list(num) == list(c['num2'])), 'identity does not follow the elements')
    k = GeneralCell(h.lattice, h.positions, np.array(g.numbers))
    need(k.id == g.id, 'identity differs for the same elements')
    views(h, pos, num)
