from common import *
RULE = ('random non-singular lattices (skewed, left-handed, non-triangular) x coordinates (single and stacked) x vectors x site '
        'index; perturbations with random distances under fixed numpy seeds; compared with plain arithmetic; distinct by JSON text')


def rlat(rng):
    while True:
        L = [[rng.uniform(-5, 5) for _ in range(3)] for _ in range(3)]
        if abs(det3(L)) > 8:
            return L


def cases(rng, tier):
    while True:
        L = rlat(rng)
        n = rng.randint(1, 6)
        pos = [[rng.randrange(-1500, 2500) / 1000. for _ in range(3)] for _ in range(n)]
        yield {'k': 'cell', 'lat': L, 'pos': pos, 'num': [rng.choice(ZS) for _ in range(n)],
               'i': rng.randrange(n), 'v': [rng.uniform(-3, 3) for _ in range(3)],
               'd': rng.choice([0.0, 0.2, 1e-3, rng.uniform(0.01, 2)]), 'seed': rng.randrange(10 ** 6)}


def lin(f, L):
    return [sum(f[k] * L[k][j] for k in range(3)) for j in range(3)]


def cart(s, L):
    return lin([float(x) for x in s.position], L)


def check(c):
    L, pos, num = c['lat'], c['pos'], c['num']
    n = len(num)

    def mk():
        return ModifiedCell(np.array(L), np.array(pos), np.array(num))
    m = mk()
    for p in pos + [c['v']]:
        x = m.get_cartesian_from_frac(np.array(p))
        need(close(x, lin(p, L), 1e-9), 'Cartesian coordinates of', p)
        need(close(m.get_frac_from_cart(np.array(x)), p, 1e-7), 'round trip of', p)
        x = m.get_cartesian_from_frac(tuple(p))
        need(close(x, lin(p, L), 1e-9), 'Cartesian coordinates of', p)
        f = m.get_frac_from_cart(np.array(p))
        need(close(lin([float(v) for v in f], L), p, 1e-7), 'fractional coordinates of', p)
    need(close(m.get_cartesian_from_frac(np.array(pos)), [lin(p, L) for p in pos], 1e-9), 'stacked coordinates')
    g = GeneralCell(np.array(L), np.array(pos), np.array(num))
    need(close(g.get_cartesian(), [lin(p, L) for p in rows(g.positions)], 1e-9), 'get_cartesian')
    for z in sorted(set(num)) + [1]:
        want = [lin(p, L) for p, e in zip(rows(g.positions), ints(g.numbers)) if e == z]
        got = g.get_cartesian(sp_of(z))
        need(len(got) == len(want) and (not want or close(got, want, 1e-9)), 'get_cartesian of element', z)
        got = g.get_cartesian(ele=sp_of(z))
        need(len(got) == len(want), 'get_cartesian of element', z)
    # translate one site
    for i in sorted(set([c['i'], 0, n - 1, -1])):
        m = mk()
        before = [cart(s, L) for s in m]
        v = np.array(c['v'])
        m.translate_sites(i, v)
        need(close(v, c['v'], 0), 'the vector was changed')
        for k, s in enumerate(m):
            w = [a + b for a, b in zip(before[k], c['v'])] if k == i % n else before[k]
            need(close(cart(s, L), w, 1e-7 if k == i % n else 0), 'site', k, 'after translating site', i)
        need(ints(m.numbers) == tuple(num) and close(m.lattice, L, 0), 'elements or lattice changed')
        m.translate_sites(i, -np.array(c['v']))
        need(close([cart(s, L) for s in m], before, 1e-7), 'translating back')
    # perturb
    np.random.seed(c['seed'])
    m = mk()
    before = [cart(s, L) for s in m]
    m.perturb(c['d'])
    after = [cart(s, L) for s in m]
    for a, b in zip(before, after):
        d = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
        need(abs(d - c['d']) < 1e-6, 'a site moved by', d, 'instead of', c['d'])
    need(len(m) == n and ints(m.numbers) == tuple(num) and close(m.lattice, L, 0), 'elements or lattice changed')
    # the documented zero-vector case: the draw is repeated
    real = np.random.randn
    draws = []

    def fake(*a):
        x = real(*a)
        if len(draws) % 3 == 0:
            x = x * 0
        draws.append(1)
        return x
    np.random.randn = fake
    try:
        m = mk()
        m.perturb(c['d'])
    finally:
        np.random.randn = real
    if draws:
        for a, s in zip(before, m):
            d = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, cart(s, L))))
            need(abs(d - c['d']) < 1e-6, 'after a zero draw a site moved by', d, 'instead of', c['d'])
    m = mk()
    m.perturb()
    for a, s in zip(before, m):
        d = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, cart(s, L))))
        need(abs(d - .2) < 1e-6, 'default distance', d)
