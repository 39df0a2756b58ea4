from common import *
import ababe.stru.buckyball as bb
from ababe.stru.buckyball import Structure
RULE = ('the stored operations against the cage geometry (exhaustive over the 120 operations), enumeration for up to 3 (thorough 4) '
        'atoms, growth and reduction of random streams (images, repeats, dense occupations, known 32-bit hash collisions); '
        'distinct by JSON text')
_T = {}


def geom():
    """symmetry operations of the cage, from its positions only"""
    if 'g' not in _T:
        L, P, N = Structure([6] * 60).spg_cell
        C = np.matmul(np.array(P), np.array(L))
        D = np.sqrt(((C[:, None] - C[None]) ** 2).sum(-1))
        D = [[float(x) for x in r] for r in D]
        auts = []

        def rec(m):
            i = len(m)
            if i == 60:
                auts.append(tuple(m))
                return
            for j in range(60):
                if j not in m and all(abs(D[i][k] - D[j][m[k]]) < .05 for k in range(i)):
                    rec(m + [j])
        rec([])
        need(len(auts) == 120, 'the cage has', len(auts), 'symmetry operations')
        _T['g'] = auts
    return _T['g']


def cases(rng, tier):
    yield {'k': 'table'}
    for n in (0, 1, 2):
        yield {'k': 'enum', 'n': n, 'z': 5}
    yield {'k': 'pair', 'a': [0, 17, 47, 55], 'b': [0, 37, 46, 54], 'z': 5}
    yield {'k': 'levels', 'init': [], 'z': 5, 'n': 2, 'order': 'fwd'}
    yield {'k': 'levels', 'init': [3, 40], 'z': 7, 'n': 4, 'order': 'back'}
    yield {'k': 'levels', 'init': [], 'z': 0, 'n': 3, 'order': 'late'}
    if tier != 'quick':
        yield {'k': 'enum', 'n': 3, 'z': 7}
    while True:
        z = rng.choice([5, 7, 0, 14])
        st = []
        for _ in range(rng.randint(2, 12)):
            r = rng.random()
            if st and r < .4:
                st.append(['img', rng.randrange(len(st)), rng.randrange(120)])
            else:
                k = rng.choice([0, 1, 2, 3, 4, 6, 30, 58])
                st.append(['new', sorted(rng.sample(range(60), k)), rng.choice([z, z, 8])])
        yield {'k': 'stream', 'st': st, 'z': z}
        a, b = sorted(rng.sample(range(60), 4)), sorted(rng.sample(range(60), 4))
        yield {'k': 'add', 'st': [a, b, a, sorted(rng.sample(range(60), 58))], 'z': z}


def check(c):
    G = geom()
    if c['k'] == 'table':
        T = [ints(t) for t in Structure([6] * 60).get_symmetry_permutation()]
        need(len(T) == 120, 'table has', len(T), 'entries')
        need(set(T) == set(G), 'the stored operations are not the symmetry operations of the cage;',
             len(set(T) - set(G)), 'differ')
        return
    base = tuple([6] * 60)
    S = Structure([6] * 60)
    if c['k'] == 'enum':
        want = [subst(base, q, c['z']) for q in itertools.combinations(range(60), c['n'])]
        e = same_multiset([ints(x) for x in Structure.gen_speckle(sp_of(c['z']), c['n'])], want)
        need(e is None, e)
    elif c['k'] == 'pair':
        st = [subst(base, c['a'], c['z']), subst(base, c['b'], c['z'])]
        got = [ints(x) for x in S.to_nodup_generator(iter([np.array(x) for x in st]))]
        need(got == first_of_class(G, st), 'reduction kept', len(got), 'of two occupations')
    elif c['k'] == 'stream':
        st = []
        for x in c['st']:
            if x[0] == 'new':
                st.append(subst(base, x[1], x[2]))
            else:
                st.append(act(G[x[2]], st[x[1]]))
        arrs = [np.array(x) for x in st]
        want = first_of_class(G, st)
        got = [ints(x) for x in S.to_nodup_generator(iter(arrs))]
        need(got == want, 'reduction keeps', len(got), 'of', len(st), 'instead of', len(want))
        need([ints(x) for x in arrs] == st, 'the input arrays were changed')
        got = [ints(x) for x in S.to_nodup_generator(iter(arrs[::-1]))]
        need(got == first_of_class(G, st[::-1]), 'second reduction differs')
    elif c['k'] == 'add':
        st = [subst(base, q, c['z']) for q in c['st']]
        arrs = [np.array(x) for x in st]
        want = set(subst(x, [i], c['z']) for x in st for i in range(60) if x[i] != c['z'])
        e = same_multiset([ints(x) for x in S.add_one_speckle_generator(iter(arrs), sp_of(c['z']))], want)
        need(e is None, e)
        need([ints(x) for x in arrs] == st, 'the input arrays were changed')
        need(sorted(tuple(x) for x in Structure.help_add_one_speckle(list(st[0]), sp_of(c['z']))) ==
             sorted(subst(st[0], [i], c['z']) for i in range(60) if st[0][i] != c['z']), 'one-structure growth')
    else:
        b0 = subst(base, c['init'], c['z'])
        S = Structure(list(b0))
        need(int(S.get_speckle_num(sp_of(c['z']))) == len(c['init']), 'count of the element')
        it = Structure.all_speckle_gen(S, c['n'], sp_of(c['z']))
        if c['order'] == 'fwd':
            res = [[ints(x) for x in lev] for lev in it]
        else:
            levs = list(it)
            res = [None] * len(levs)
            for i in (range(len(levs)) if c['order'] == 'late' else range(len(levs) - 1, -1, -1)):
                res[i] = [ints(x) for x in levs[i]]
        need(len(res) == c['n'] - len(c['init']) + 1, 'number of levels', len(res))
        free = [i for i in range(60) if i not in c['init']]
        need(res[0] == [b0], 'first level is not the parent')
        if c['init']:
            # symmetry of the bare cage, grown from a decorated parent: expand by the definition
            cur = [b0]
            for lv in range(1, len(res)):
                nxt, seen = [], set()
                alln = set(subst(x, [i], c['z']) for x in cur for i in range(60) if x[i] != c['z'])
                for x in res[lv]:
                    need(x in alln, 'level', lv, 'holds a structure that is no extension')
                    need(x not in seen, 'level', lv, 'holds equivalent structures')
                    seen |= orbit(G, x)
                need(alln <= seen, 'level', lv, 'lacks a class')
                cur = res[lv]
        else:
            for lv in range(len(res)):
                alls = set(subst(b0, q, c['z']) for q in itertools.combinations(free, lv))
                seen = set()
                for x in res[lv]:
                    need(x in alls, 'level', lv, 'holds a wrong structure')
                    need(x not in seen, 'level', lv, 'holds equivalent structures')
                    seen |= orbit(G, x)
                need(alls <= seen, 'level', lv, 'lacks a class')
