from common import *
from ababe.stru.restriction import SpaceGroupRestriction
RULE = ('crystals generated from the operations of Hall entries of all crystal systems plus library cells; lists with the true '
        'number, without it, with the digits of the symbol, empty; oracle: the number in the spglib dataset; distinct by JSON text')


def number(p):
    return int(spglib.get_symmetry_dataset((np.array(p['lat'], dtype=float), np.array(p['pos'], dtype=float),
                                            np.array(p['num'])), symprec=1e-3)['number'])


def cases(rng, tier):
    import re
    hs = list(range(1, 531))
    rng.shuffle(hs)
    src = [PRIM[k] for k in sorted(PRIM)]
    i = 0
    while True:
        if i < len(src):
            s = src[i]
        else:
            s = hall_spec(rng, hs[i % len(hs)], maxat=48)
        i += 1
        if s is None:
            if i > 3000:
                return
            continue
        nn = number(s)
        sym = spglib.get_spacegroup((np.array(s['lat'], dtype=float), np.array(s['pos'], dtype=float),
                                     np.array(s['num'])), symprec=1e-3)
        digs = [int(x) for x in re.findall(r'\d+', sym)]
        wrong = [x for x in range(1, 231) if x != nn]
        yield {'k': 'cell', 's': s, 'lists': [[nn], [x for x in wrong], [], [1, nn, 230], [x for x in digs if x != nn],
                                              rng.sample(wrong, 5), rng.sample(wrong, 5) + [nn]]}


def check(c):
    g = gcell(c['s'])
    nn = number(cell_of(g))
    for l in c['lists']:
        R = SpaceGroupRestriction(list(l))
        got = R.is_satisfied(g)
        need(bool(got) == (nn in l), 'verdict', got, 'for space group', nn, 'and list', l[:10])
        got = SpaceGroupRestriction(tuple(l)).is_satisfied(g)
        need(bool(got) == (nn in l), 'verdict', got, 'for space group', nn, 'and list', l[:10])
