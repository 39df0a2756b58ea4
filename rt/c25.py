from common import *
RULE = ('library crystals, decorated supercells, crystals from Hall operations, shuffled atom lists; composition, interatomic '
        'distance fingerprint, space group and a brute-force search for translations; distinct by JSON text')


def cases(rng, tier):
    for nm in sorted(PRIM):
        yield {'k': 'cell', 's': PRIM[nm]}
    while True:
        s = random_super(rng, 8)
        r = rng.random()
        if r < .5:
            for _ in range(rng.randint(0, 3)):
                s['num'][rng.randrange(len(s['num']))] = rng.choice([47, 79, 0])
        if rng.random() < .3:
            s = hall_spec(rng, rng.randrange(1, 300), zs=rng.choice([(14,), (14, 8)]), maxat=12) or s
        if rng.random() < .5:
            s = shuffled(rng, s)
        yield {'k': 'cell', 's': s}


def cartv(f, L):
    return [sum(f[k] * L[k][j] for k in range(3)) for j in range(3)]


def is_prim(p):
    pos, num, L = p['pos'], p['num'], p['lat']
    n = len(num)
    if n == 1:
        return True
    for j in range(1, n):
        if num[j] != num[0]:
            continue
        t = [pos[j][k] - pos[0][k] for k in range(3)]
        ok = True
        for i in range(n):
            q = [pos[i][k] + t[k] for k in range(3)]
            if not any(num[m] == num[i] and near(q, pos[m], L) for m in range(n)):
                ok = False
                break
        if ok:
            return False
    return True


def near(a, b, L, tol=2e-3):
    d = [x - y for x, y in zip(a, b)]
    d = [x - round(x) for x in d]
    return max(abs(v) for v in cartv(d, L)) < tol


def finger(p, R):
    """per atom average of sorted neighbour distances by element pair up to R"""
    from collections import Counter
    L = p['lat']
    V = abs(det3(L))
    rng3 = []
    for k in range(3):
        a, b = L[(k + 1) % 3], L[(k + 2) % 3]
        cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        h = V / math.sqrt(sum(x * x for x in cr))
        rng3.append(int(R / h) + 2)
    C = Counter()
    n = len(p['num'])
    pos = [[x - math.floor(x) for x in q] for q in p['pos']]
    for i in range(n):
        for j in range(n):
            for t in itertools.product(*[range(-m, m + 1) for m in rng3]):
                f = [pos[j][k] - pos[i][k] + t[k] for k in range(3)]
                v = cartv(f, L)
                d = math.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
                if 1e-6 < d < R:
                    C[(p['num'][i], p['num'][j], d)] += 1
    out = {}
    for (a, b, d), k in C.items():
        out.setdefault((a, b), []).extend([d] * k)
    return dict((k, sorted(v)) for k, v in out.items())


def samefp(a, b, fa, fb, R):
    """distances with multiplicities fa*a == fb*b, away from the cut-off"""
    for k in set(a) | set(b):
        x = [d for d in a.get(k, []) for _ in range(fa)]
        y = [d for d in b.get(k, []) for _ in range(fb)]
        x = [d for d in x if d < R - .05]
        y = [d for d in y if d < R - .05 - 0]
        if len(x) != len(y):
            # tolerate values at the cut-off
            m = min(len(x), len(y))
            if any(d < R - .1 for d in x[m:] + y[m:]):
                return 'different number of distances for %r' % (k,)
            x, y = x[:m], y[:m]
        for u, v in zip(x, y):
            if abs(u - v) > 5e-3:
                return 'distance %.4f instead of %.4f for %r' % (v, u, k)
    return None


def spnum(p):
    return int(spglib.get_symmetry_dataset((np.array(p['lat'], dtype=float), np.array(p['pos'], dtype=float),
                                            np.array(p['num'])), symprec=1e-3)['number'])


def check(c):
    from collections import Counter
    g = gcell(c['s'])
    p = cell_of(g)
    n = len(p['num'])
    need(bool(g.is_primitive()) == is_prim(p), 'reported primitive:', bool(g.is_primitive()))
    R = 4.7
    fp = finger(p, R)
    sh = cell_of(g.get_shaped_cell())
    need(Counter(sh['num']) == Counter(p['num']), 'reshaped cell has elements', sorted(sh['num']))
    need(abs(abs(det3(sh['lat'])) - abs(det3(p['lat']))) < 1e-3 * abs(det3(p['lat'])), 'reshaped cell has another volume')
    e = samefp(fp, finger(sh, R), 1, 1, R)
    need(e is None, 'reshaped cell:', e)
    N0 = spnum(p)
    for nm, q in (('refined', g.get_refined_cell()), ('refined primitive', g.get_refined_pcell())):
        r = cell_of(q)
        m = len(r['num'])
        a, b = Counter(p['num']), Counter(r['num'])
        need(set(a) == set(b) and all(a[z] * m == b[z] * n for z in a), nm, 'cell has another composition')
        need(spnum(r) == N0, nm, 'cell has space group', spnum(r), 'instead of', N0)
        if m <= 24:
            e = samefp(fp, finger(r, R), m, n, R)
            need(e is None, nm, 'cell:', e)
        if nm != 'refined':
            need(is_prim(r) and bool(q.is_primitive()), 'refined primitive cell is not primitive')
    need(cell_of(g) == p, 'the cell was changed')
