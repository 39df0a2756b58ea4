from common import *
from ababe.stru.sogen import OccupyGenerator
RULE = ('parent cells (library crystals, their supercells, permuted/shifted atom lists, random cells) x explicit streams of '
        'occupations with repeats and mixed composition, the four composed generators, interleaved and partly consumed; a case '
        'is non-trivial when its parent has at least two sites; distinct by its JSON text')


def parents(rng, tier):
    yield super_spec(PRIM['fcc'], [[2, 0, 0], [0, 2, 0], [0, 0, 1]])
    yield super_spec(PRIM['zb'], [[1, 0, 1], [0, 1, 1], [0, 0, 4]])
    yield PRIM['perov']
    yield PRIM['rutile']
    yield super_spec(PRIM['tri1'], [[1, 0, 0], [0, 1, 0], [0, 0, 5]])
    yield super_spec(PRIM['hcp'], [[2, 1, 0], [0, 2, 0], [0, 0, 1]])
    yield PRIM['tri2']
    yield super_spec(PRIM['sc'], [[2, 0, 0], [0, 2, 0], [0, 0, 2]])
    while True:
        r = rng.random()
        if r < .6:
            s = random_super(rng, 10 if tier == 'quick' else 14)
        elif r < .8:
            s = shuffled(rng, random_super(rng, 9))
        else:
            s = hall_spec(rng, rng.randrange(1, 200), maxat=10) or PRIM['rutile']
        if len(s['num']) >= 2:
            yield s


def cases(rng, tier):
    for s in parents(rng, tier):
        n = len(s['num'])
        zs = rng.sample(REAL, 2)
        if rng.random() < .3:
            zs[0] = 0
        base = cell_of(gcell(s))['num']
        # explicit stream: random occupations, images of earlier ones, repeats
        st = []
        pm = perms_of(cell_of(gcell(s)))
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if st and r < .3:
                st.append(list(act(rng.choice(pm), rng.choice(st))))
            elif st and r < .4:
                st.append(rng.choice(st))
            elif st and r < .6:
                x = list(rng.choice(st))
                rng.shuffle(x)
                st.append(x)
            else:
                st.append(list(subst(base, rng.sample(range(n), rng.randint(0, min(n, 4))), rng.choice(zs))))
        yield {'k': 'stream', 's': s, 'st': st}
        k = rng.randint(0, min(n, 3))
        yield {'k': 'unitary', 's': s, 'n': k, 'z': zs[0]}
        ele = rng.choice(base)
        yield {'k': 'ele', 's': s, 'n': rng.randint(0, min(3, base.count(ele))), 'z': zs[0], 'ele': ele}
        yield {'k': 'wy', 's': s, 'n': rng.randint(0, 3), 'z': zs[0], 'w': rng.random()}
        if n <= 9:
            yield {'k': 'tri', 's': s, 'n1': rng.randint(0, 2), 'n2': rng.randint(0, 2), 'z1': zs[0], 'z2': zs[1]}
        yield {'k': 'equiv', 's': s, 'st': st[:6]}
        yield {'k': 'inter', 's': s, 'n': min(2, n), 'z': zs[0], 'z2': zs[1], 'seed': rng.randrange(10 ** 6)}


def check(c):
    g = gcell(c['s'])
    p = cell_of(g)
    base = tuple(p['num'])
    n = len(base)
    pm = perms_of(p)
    og = OccupyGenerator(g)
    k = c['k']

    def stream(lst):
        for x in lst:
            yield GeneralCell(g.lattice, g.positions, np.array(x, dtype=g.numbers.dtype))

    def verify(got, allst):
        need(set(got) <= set(allst), 'emitted a structure that is not an occupation asked for')
        seen = set()
        for x in got:
            need(x not in seen, 'two emitted structures are related by a symmetry operation:', x)
            seen |= orbit(pm, x)
        miss = set(allst) - seen
        need(not miss, 'no emitted structure is related to', sorted(miss)[:1])
    if k == 'stream':
        st = [tuple(x) for x in c['st']]
        want = first_of_class(pm, st)
        got = [ints(x.numbers) for x in og.gen_2nodup_gen(stream(st))]
        need(got == want, 'emitted', got, 'instead of', want)
        # a second, partly consumed run on the same object gives the same prefix
        it = og.gen_2nodup_gen(stream(st))
        m = (len(want) + 1) // 2
        got = [ints(next(it).numbers) for _ in range(m)]
        need(got == want[:m], 'second run emitted', got)
        got = [ints(x.numbers) for x in og.gen_2nodup_gen(stream(st[::-1]))]
        need(got == first_of_class(pm, st[::-1]), 'reversed stream emitted', got)
    elif k == 'unitary':
        alls = [subst(base, q, c['z']) for q in itertools.combinations(range(n), c['n'])]
        verify([ints(x.numbers) for x in og.gen_nodup_unitary(c['n'], sp_of(c['z']))], alls)
    elif k == 'ele':
        el = [i for i in range(n) if base[i] == c['ele']]
        alls = [subst(base, q, c['z']) for q in itertools.combinations(el, c['n'])]
        verify([ints(x.numbers) for x in og.gen_nodup_of_ele(sp_of(c['ele']), c['n'], sp_of(c['z']))], alls)
    elif k == 'wy':
        ws = wyck(p)
        w = sorted(set(ws))[int(c['w'] * len(set(ws)))]
        el = [i for i in range(n) if ws[i] == w]
        alls = [subst(base, q, c['z']) for q in itertools.combinations(el, c['n'])]
        verify([ints(x.numbers) for x in og.gen_nodup(w, c['n'], sp_of(c['z']))], alls)
    elif k == 'tri':
        alls = []
        for q in itertools.combinations(range(n), c['n1']):
            b = subst(base, q, c['z1'])
            for r in itertools.combinations([i for i in range(n) if i not in q], c['n2']):
                alls.append(subst(b, r, c['z2']))
        verify([ints(x.numbers) for x in
                og.gen_nodup_trinary_alloy(sp_of(c['z1']), c['n1'], sp_of(c['z2']), c['n2'])], alls)
    elif k == 'equiv':
        st = [tuple(x) for x in c['st']]
        cs = list(stream(st))
        for a, x in zip(cs, st):
            for b, y in zip(cs, st):
                need(bool(og.is_equivalent(a, b)) == (y in orbit(pm, x)), 'is_equivalent wrong for', x, y)
    elif k == 'inter':
        r = random.Random(c['seed'])
        og2 = OccupyGenerator(gcell(c['s']))
        gens = [og.gen_nodup_unitary(c['n'], sp_of(c['z'])), og.gen_nodup_unitary(c['n'], sp_of(c['z'])),
                og.gen_nodup_unitary(c['n'], sp_of(c['z2'])), og2.gen_nodup_unitary(c['n'], sp_of(c['z']))]
        zz = [c['z'], c['z'], c['z2'], c['z']]
        got = [[], [], [], []]
        live = [0, 1, 2, 3]
        while live:
            i = r.choice(live)
            try:
                got[i].append(ints(next(gens[i]).numbers))
            except StopIteration:
                live.remove(i)
        for i in range(4):
            verify(got[i], [subst(base, q, zz[i]) for q in itertools.combinations(range(n), c['n'])])
    need(ints(g.numbers) == base, 'the parent cell was changed')
