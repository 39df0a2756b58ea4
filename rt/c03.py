from common import *
from ababe.stru.sogen import OccupyGenerator
RULE = ('parent cells (some already holding the substituting element) x eligible set x streams for one-atom growth (repeats, '
        'already substituted sites) and level streams read forwards, backwards, interleaved or only at the end; distinct by JSON text')


def parents(rng, tier):
    yield super_spec(PRIM['fcc'], [[2, 0, 0], [0, 2, 0], [0, 0, 1]])
    yield PRIM['perov']
    yield PRIM['rutile']
    yield super_spec(PRIM['zb'], [[1, 0, 0], [0, 1, 1], [0, 0, 3]])
    yield random_tri(rng, 4, [22, 8])
    yield super_spec(PRIM['sc'], [[2, 0, 0], [0, 2, 0], [0, 0, 2]])
    while True:
        yield rng.choice([lambda: random_super(rng, 8), lambda: shuffled(rng, random_super(rng, 8)),
                          lambda: random_tri(rng, rng.randint(1, 6), [22, 8, 26])])()


def cases(rng, tier):
    for s in parents(rng, tier):
        base = cell_of(gcell(s))['num']
        n = len(base)
        for kind in ('unitary', 'ele', 'wy'):
            z = rng.choice(base) if rng.random() < .25 else rng.choice(ZS)
            ele = rng.choice(base)
            st = []
            for _ in range(rng.randint(1, 6)):
                if st and rng.random() < .25:
                    st.append(rng.choice(st))
                else:
                    st.append(list(subst(base, rng.sample(range(n), rng.randint(0, min(n, 3))), z)))
            yield {'k': 'one-' + kind, 's': s, 'st': st, 'z': z, 'ele': ele, 'w': rng.random()}
            n0 = base.count(z)
            yield {'k': 'lev-' + kind, 's': s, 'z': z, 'ele': ele, 'w': rng.random(),
                   'n': n0 + rng.randint(1, 4 if n <= 8 else 3), 'order': rng.choice(['fwd', 'back', 'late', 'mix']),
                   'seed': rng.randrange(10 ** 6)}


def check(c):
    g = gcell(c['s'])
    p = cell_of(g)
    base = tuple(p['num'])
    n = len(base)
    og = OccupyGenerator(g)
    what, kind = c['k'].split('-')
    z = c['z']
    sp = sp_of(z)
    if kind == 'wy':
        ws = wyck(p)
        w = sorted(set(ws))[int(c['w'] * len(set(ws)))]
    if kind == 'unitary':
        ok = lambda num, i: num[i] != z
    elif kind == 'ele':
        ok = lambda num, i: num[i] == c['ele'] and num[i] != z
    else:
        ok = lambda num, i: ws[i] == w and num[i] != z

    def stream(lst):
        for x in lst:
            yield GeneralCell(g.lattice, g.positions, np.array(x, dtype=g.numbers.dtype))
    if what == 'one':
        st = [tuple(x) for x in c['st']]
        want = set(subst(x, [i], z) for x in st for i in range(n) if ok(x, i))
        for rep in range(2):
            if kind == 'unitary':
                it = og.gen_add_one_speckle_unitary(stream(st), sp)
            elif kind == 'ele':
                it = og.gen_add_one_speckle_of_ele(stream(st), sp_of(c['ele']), sp)
            else:
                it = og.gen_add_one_speckle(stream(st), w, sp)
            cells = list(it)
            e = same_multiset([ints(x.numbers) for x in cells], want)
            need(e is None, e)
            for x in cells:
                need(close(x.lattice, p['lat'], 0) and close(x.positions, p['pos'], 0), 'lattice or positions differ')
    else:
        pm = perms_of(p)
        if kind == 'unitary':
            it = og.all_speckle_gen_unitary(c['n'], sp)
        elif kind == 'ele':
            it = og.all_speckle_gen_of_ele(c['n'], sp_of(c['ele']), sp)
        else:
            it = og.all_speckle_gen(c['n'], w, sp)
        nl = c['n'] - base.count(z)
        res = {}
        if c['order'] == 'fwd':
            for i, lev in enumerate(it):
                res[i] = [ints(x.numbers) for x in lev]
        else:
            levs = list(it)
            idx = list(range(len(levs)))
            if c['order'] == 'back':
                idx = idx[::-1]
                for i in idx:
                    res[i] = [ints(x.numbers) for x in levs[i]]
            elif c['order'] == 'late':
                for i in idx:
                    res[i] = [ints(x.numbers) for x in levs[i]]
            else:
                r = random.Random(c['seed'])
                res = dict((i, []) for i in idx)
                while idx:
                    i = r.choice(idx)
                    try:
                        res[i].append(ints(next(levs[i]).numbers))
                    except StopIteration:
                        idx.remove(i)
        need(len(res) == nl, 'got', len(res), 'levels instead of', nl)
        el = [i for i in range(n) if ok(base, i)]
        for lv in range(nl):
            alls = set(subst(base, q, z) for q in itertools.combinations(el, lv + 1))
            seen = set()
            for x in res[lv]:
                need(x in alls, 'level', lv + 1, 'holds', x, 'which is not a structure with that many added atoms')
                need(x not in seen, 'level', lv + 1, 'holds two equivalent structures', x)
                seen |= orbit(pm, x)
            need(alls <= seen, 'level', lv + 1, 'lacks the class of', sorted(alls - seen)[:1])
    need(ints(g.numbers) == base, 'the parent cell was changed')
