"""C09: the minimum-distance restriction, over the doubled cell; and what the doubled cell is."""
from common_c import *

ASSUMPTIONS = ['floats are exact reals', 'scipy pdist lists the Euclidean distance of every pair of rows once, the square root is exact',
               'an injective map between finite sets of equal size is onto (the 8n atoms of the doubled cell are all copies)']
MD = 'ababe.stru.restriction.MinDistanceRestriction'
Q = z3.RealVal


def dist(cart, a, b):
    s = Q(0)
    for c in range(3):
        w = cart(a, c) - cart(b, c)
        s = s + w * w
    return lib.sqrtR(s)


def doubled(X, m):
    lam = to_lam(X, m)
    if tuple(lam.dims) != (3, 3):
        raise Unsupported('scale matrix')
    return And([eq(X, lget(X, lam, (i, j)), 2 if i == j else 0) for i in range(3) for j in range(3)])


def satisfied(v):
    X = v.X
    X.opts['nosortfacts'] = True
    p, n = parent_cell(v)
    n2 = X.const('M')
    X.assume(n2 >= 1)
    lat, fl = sym_arr(X, 'slat', (3, 3), R)
    pos, fp = sym_arr(X, 'spos', (n2, 3), R)
    num, fn = sym_arr(X, 'snum', (n2,), I)
    twin = X.func('twin', [I], I)
    a, b = ints('a', 'b')
    X.assume(All([a], Implies(And(a >= 0, a < n2), And(twin(a) >= 0, twin(a) < n2, twin(a) != a, fn(twin(a)) == fn(a))), [fn(a)]))
    S = v.real_obj(GC, [lat, pos, num])
    oks = []

    def sc(X_, self_, m):
        oks.append(And(same(self_, p), doubled(X_, m)))
        return S
    X.contracts[GC + '.supercell'] = sc
    z, d = X.const('Z'), X.const('d', R)
    ele = X.alloc('obj', {'Z': z}, None)
    r = X.call(v.get(MD), [(ele, d)])
    got = fb(X.truth(X.call(X.getattr(r, 'is_satisfied'), [p])))
    if not oks:
        raise Unsupported('the doubled cell is not asked for')
    X.oblige('the cell examined is the given one, doubled along each vector', And(oks))
    f, m = numbers_fn(X, S)
    lp = to_lam(X, X.getattr(S, 'positions'))
    cart = lambda i, c: sum([zv(lget(X, lp, (i, q))) * fl(z3.IntVal(q), z3.IntVal(c)) for q in range(3)], Q(0))
    D = lambda i, j: dist(cart, i, j)
    far = All([a, b], Implies(And(a >= 0, a < b, b < n2, f(a) == z, f(b) == z), D(a, b) > d))
    x, y = X.const('x'), X.const('y')
    X.push(x, [x >= 0]), X.push(y, [x < y, y < n2, f(x) == z, f(y) == z])
    hints = []
    px, py = place_of(X, [x]), place_of(X, [y])
    for (rx, fx), (ry, fy) in zip(px, py):
        hints += [fx, fy] + [w for _, w in place_of(X, [rx, ry - rx - 1])] + [w for _, w in place_of(X, [rx, ry])]
    X.obls.append(core.Obl('it passes only if all pairs of the element are farther apart', X.hyps() + hints, Implies(got, D(x, y) > d), X.line, 'post'))
    X.pop(), X.pop()
    X.oblige('it passes if all pairs of the element are farther apart', Implies(far, got))
    X.oblige('without the element it passes', Implies(All([a], Implies(And(a >= 0, a < n2), f(a) != z)), got))


def doubling(v):
    X = v.X
    X.opts['nosortfacts'] = True
    n = X.const('N')
    X.assume(n >= 1)
    lat, fl0 = sym_arr(X, 'lat', (3, 3), R)
    pos, _ = sym_arr(X, 'pos', (n, 3), R)
    num, _ = sym_arr(X, 'num', (n,), I)
    p = v.real_obj(GC, [lat, pos, num])
    i, k3 = z3.Int('i'), z3.Int('c')
    lp0 = to_lam(X, X.getattr(p, 'positions'))
    fp = lambda q, c: zv(lget(X, lp0, (q, z3.IntVal(c))))
    fn = numbers_fn(X, p)[0]
    two = models.mkarr(X, (3, 3), lambda i, j: (2 if i == j else 0) if isinstance(i, int) and isinstance(j, int) else models._sel(X, None, i, j))
    S = X.call(X.getattr(p, 'supercell'), [two])
    f, m = numbers_fn(X, S)
    X.oblige('eight atoms for every atom', eq(X, m, 8 * n))
    lp = to_lam(X, X.getattr(S, 'positions'))
    X.oblige('a position for every atom', And(eq(X, lp.dims[0], m), eq(X, lp.dims[1], 3)) if len(lp.dims) == 2 else False)
    l0, l1 = to_lam(X, X.getattr(p, 'lattice')), to_lam(X, X.getattr(S, 'lattice'))
    X.oblige('the lattice vectors are doubled', And([zv(lget(X, l1, (a, b))) == 2 * zv(lget(X, l0, (a, b))) for a in range(3) for b in range(3)]))
    j1, j2 = X.const('j'), X.const('j')
    X.push(j1, [j1 >= 0, j1 < zv(m)])
    # the parent's own atom it is made from: the parent's order composed with a place in [0, n)
    t = z3.simplify(zv(f(j1)))
    w = z3.simplify(zv(fn(i)))
    src = unify(w, t)
    if src is None:
        raise Unsupported('elements are not those of the parent')
    X.oblige('every atom comes from an atom of the parent, with its element', And(src >= 0, src < n, zv(f(j1)) == zv(fn(src))))
    off = [2 * zv(lget(X, lp, (j1, c))) - fp(src, c) for c in range(3)]
    X.oblige('every atom is its source, moved by none or one of each lattice vector', And([Or(o == 0, o == 1) for o in off]))
    X.push(j2, [j2 > j1, j2 < zv(m)])
    s2, o2 = sub(src, [(j1, j2)]), [sub(o, [(j1, j2)]) for o in off]
    X.oblige('no copy is listed twice, so all eight of every atom are listed', Not(And(src == s2, *[a == b for a, b in zip(off, o2)])))
    X.pop(), X.pop()


def unify(pat, e):
    if z3.is_const(pat) and pat.decl().name() == 'i':
        return e
    if not z3.is_app(e) or not pat.decl().eq(e.decl()) or pat.num_args() != e.num_args():
        return None
    for a, b in zip(pat.children(), e.children()):
        r = unify(a, b)
        if r is not None:
            return r
    return None


UNITS = [('MinDistanceRestriction.is_satisfied', satisfied), ('the doubled cell', doubling)]
