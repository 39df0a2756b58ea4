from common import *
RULE = ('random editable cells and random histories of sequence operations, conversions, copies and comparisons, checked after '
        'every step against a plain list of (position, element); distinct by JSON text')


def rsite(rng):
    return [[rng.randrange(-500, 1500) / 1000. for _ in range(3)], rng.choice(ZS)]


def cases(rng, tier):
    while True:
        n = rng.randint(1, 7)
        ops = []
        for _ in range(rng.randint(3, 14)):
            o = rng.choice(['set', 'del', 'ins', 'app', 'ext', 'pop', 'popd', 'rms', 'rm', 'appsite', 'appsites', 'copy',
                            'rt', 'slice', 'seteq', 'rev', 'remove', 'iadd', 'delslice', 'contains', 'move'])
            ops.append([o, rng.randrange(-10, 10), [rsite(rng) for _ in range(rng.randint(0, 3))],
                        [rng.randrange(0, 9) for _ in range(rng.randint(0, 5))]])
        yield {'k': 'hist', 'lat': random_tri(rng, 1)['lat'], 'sites': [rsite(rng) for _ in range(n)], 'ops': ops}
        s = random_tri(rng, rng.randint(1, 9))
        d = rng.choice([0, 1e-12, 1e-3, .1, 'z', 'n', 'l'])
        yield {'k': 'eq', 's': s, 'd': d, 'i': rng.randrange(len(s['num'])), 'j': rng.randrange(3)}


def mk(x):
    return Site(tuple(x[0]), int(x[1]))


def same(mc, model, lat):
    need(len(mc) == len(model), 'length', len(mc), 'instead of', len(model))
    need([(tuple(float(v) for v in s.position), s.element.Z) for s in mc] == [(tuple(p), z) for p, z in model],
         'sites differ from the list model')
    need(close(mc.lattice, lat, 0), 'lattice changed')
    if model:
        need(close(mc.positions, [p for p, z in model], 0), 'positions differ')
    need(ints(mc.numbers) == tuple(z for p, z in model), 'numbers differ')
    for i in range(len(model)):
        need(tuple(mc[i].position) == tuple(model[i][0]) and mc[i].element.Z == model[i][1], 'item', i)
        j = i - len(model)
        need(mc[j] == mc[i], 'negative index', j)


def check(c):
    if c['k'] == 'eq':
        s = c['s']
        L, P, N = np.array(s['lat'], dtype=float), np.array(s['pos'], dtype=float), np.array(s['num'])
        a = ModifiedCell(L.copy(), P.copy(), N.copy())
        want = True
        if c['d'] == 'z':
            N[c['i']] = 1 if N[c['i']] != 1 else 2
            want = False
        elif c['d'] == 'l':
            L[c['j'], c['j']] += .1
            want = False
        elif c['d'] == 'n':
            P = np.concatenate((P, [[.1, .2, .3]]))
            N = np.concatenate((N, [N[0]]))
            want = False
        else:
            P[c['i'], c['j']] += c['d']
            want = c['d'] < 1e-9
        b = ModifiedCell(L, P, N)
        need(bool(a == b) == want, '== gives', bool(a == b), 'after change', c['d'])
        need(bool(b == a) == want, '== not symmetric after change', c['d'])
        need(bool(a == a.copy()), 'a copy differs')
        return
    model = [(list(p), z) for p, z in c['sites']]
    lat = c['lat']
    mc = ModifiedCell(np.array(lat, dtype=float), np.array([p for p, z in model]), np.array([z for p, z in model]))
    same(mc, model, lat)
    snaps = []
    for o, i, ss, idx in c['ops']:
        n = len(model)
        one = ss[0] if ss else [[.5, .25, .125], 3]
        if o == 'set' and n:
            mc[i % n] = mk(one)
            model[i % n] = (one[0], one[1])
        elif o == 'del' and n:
            del mc[i % n]
            del model[i % n]
        elif o == 'delslice':
            del mc[1:3]
            del model[1:3]
        elif o == 'ins':
            mc.insert(i, mk(one))
            model.insert(i, (one[0], one[1]))
        elif o == 'app':
            mc.append(mk(one))
            model.append((one[0], one[1]))
        elif o == 'appsite':
            r = mc.append_site(mk(one))
            need(r is mc, 'append_site does not return the cell')
            model.append((one[0], one[1]))
        elif o in ('ext', 'appsites', 'iadd'):
            l = [mk(x) for x in ss]
            if o == 'ext':
                mc.extend(iter(l))
            elif o == 'iadd':
                mc += l
            else:
                need(mc.append_sites(l) is mc, 'append_sites does not return the cell')
            model += [(x[0], x[1]) for x in ss]
        elif o == 'pop' and n:
            j = i % n
            s = mc.pop(j)
            m = model.pop(j)
            need(tuple(s.position) == tuple(m[0]) and s.element.Z == m[1], 'pop returned another site')
        elif o == 'popd' and n:
            s = mc.pop()
            m = model.pop()
            need(tuple(s.position) == tuple(m[0]) and s.element.Z == m[1], 'pop returned another site')
        elif o == 'rm' and n:
            need(mc.remove_site(i % n) is mc, 'remove_site does not return the cell')
            del model[i % n]
        elif o == 'rms':
            l = [x for x in idx if x < n]
            need(mc.remove_sites(l) is mc, 'remove_sites does not return the cell')
            model = [m for k, m in enumerate(model) if k not in l]
        elif o == 'rev':
            mc.reverse()
            model.reverse()
        elif o == 'remove' and n:
            j = i % n
            k = next(q for q in range(n) if tuple(model[q][0]) == tuple(model[j][0]) and model[q][1] == model[j][1])
            mc.remove(mk(model[j]))
            del model[k]
        elif o == 'contains' and n:
            need(mk(model[i % n]) in mc, 'a site of the cell is not in it')
            need(mk([[9., 9., 9.], 1]) not in mc, 'a strange site is in the cell')
            need(mc.index(mk(model[i % n])) <= i % n, 'index')
        elif o == 'slice':
            a = mc[1:3]
            need([(tuple(s.position), s.element.Z) for s in a] == [(tuple(p), z) for p, z in model[1:3]], 'slice')
        elif o == 'move' and n:
            mc[i % n].position = tuple(one[0])
            model[i % n] = (one[0], model[i % n][1])
        elif o == 'copy':
            cp = mc.copy()
            same(cp, model, lat)
            snaps.append((mc, list(model)))
            if n:
                cp[0].position = (7., 7., 7.)
                cp[n - 1].element = Specie('H')
            cp.append(mk(one))
            L = cp.lattice
            L[0][0] += 1
            same(mc, model, lat)
            L[0][0] -= 1
        elif o == 'rt' and n:
            g = mc.to_gcell()
            same(mc, model, lat)
            e = same_multiset([(tuple(p), z) for p, z in zip(rows(g.positions), ints(g.numbers))],
                              [(tuple(float(v) for v in p), z) for p, z in model])
            need(e is None, 'converting to a canonical cell:', e)
            need(close(g.lattice, lat, 0), 'lattice changed by conversion')
            b = ModifiedCell.from_gcell(g)
            need([(tuple(s.position), s.element.Z) for s in b] ==
                 [(tuple(p), z) for p, z in zip(rows(g.positions), ints(g.numbers))], 'converting back')
            need(close(b.lattice, lat, 0), 'lattice changed by conversion back')
            b[0].position = (3., 3., 3.)
            b.pop()
            need(len(g.numbers) == n, 'the canonical cell changed with the editable one')
        elif o == 'seteq' and n:
            need(bool(mc == mc.copy()), 'copy not equal')
        same(mc, model, lat)
