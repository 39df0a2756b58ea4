"""C22: grid occupations, their reduction and the separation test."""
from common_c import *
import c01
import c21
from c05 import mentions, proves, instances, symbols

ASSUMPTIONS = ['itertools.combinations lists every n-element subset of the positions of its argument exactly once, as an increasing tuple',
               'the symmetry operations of the uniform grid give a group of permutations of its sites (spglib; C05)',
               'str of a list of numbers is injective',
               'generator bodies are run eagerly; interleaving of generators is covered by the bounded part only',
               'floats are exact reals; no separation is exactly at the threshold for rounding to matter']
SC = 'ababe.stru.scaffold.'
SG = 'ababe.stru.sogen.'


def flat(ix, ds):
    r = ix[0]
    for x, d in zip(ix[1:], ds[1:]):
        r = r * d + x
    return r


def speckle(v):
    """one grid for every choice of positions"""
    X = v.X
    species_contract(v)
    ds = c21.dims(X, 3)
    d, w, l = ds
    n = d * w * l
    cnt = c01.count(X)
    z0, z1 = X.const('Zsea'), X.const('Zspeckle')
    res = v.cls_call(SC + 'SitesGrid', 'gen_speckle', [c21.specie(v, z0), tuple(ds), c21.specie(v, z1), cnt])
    ls = leaves(X, X.tree_of(res))
    if len(X.combs) != 1 or len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('not one pass over the combinations')
    rec = X.combs[0]
    (c,), dom, g = ls[0]
    X.oblige('as many positions are chosen as asked for', eq(X, rec.n, cnt))
    X.oblige('the positions are chosen among all', eq(X, rec.plen, n))
    p = X.const('p')
    X.push(p, [p >= 0, p < n])
    X.oblige('every position once', eq(X, X.at(rec.pool, p), p))
    X.pop()
    X.oblige('every choice gives exactly one grid', All([c], Iff(dom, And(c >= 0, c < rec.count))))
    X.push(c, [c >= 0, c < rec.count])
    X.oblige('sizes', c21.sizes(X, g, ds))
    lam = to_lam(X, X.call(X.getattr(g, 'to_array'), []))
    X.oblige('shape', len(lam.dims) == 3 and And([eq(X, a, b) for a, b in zip(lam.dims, ds)]))
    ix = c21.under(X, ds)
    e = zv(lget(X, lam, tuple(ix)))
    j, fl = X.const('j'), X.const('flat')
    at = lib.MK(lib.MK(ix[0], ix[1], w), ix[2], l)
    X.oblige('the place of a position in the flat order', And(at == flat(ix, ds), at >= 0, at < n))
    ch = Ex([j], And(j >= 0, j < rec.n, rec.idx(c, j) == at))
    X.oblige('the chosen positions carry the speckle', Implies(ch, e == z1))
    X.oblige('all others the sea element', Implies(Not(ch), e == z0))
    c21.pop(X, ds)
    X.pop()
    X.push(fl, [fl >= 0, fl < n])
    a, b, q = lib.PQ(lib.PQ(fl, l), w), lib.PR(lib.PQ(fl, l), w), lib.PR(fl, l)
    X.oblige('every place in the flat order is one position of the grid', And(a >= 0, a < d, b >= 0, b < w, q >= 0, q < l, lib.MK(lib.MK(a, b, w), q, l) == fl))
    X.pop()


def structures(v):
    """CStru.gen_speckle: the lattice with every grid of SitesGrid.gen_speckle"""
    X = v.X
    K = X.const('K')
    X.assume(K >= 0)
    ds = c21.dims(X, 3)
    m, rows = c21.matrix(v)
    mm = c21.pylist(X, rows)
    cnt = c01.count(X)
    a, b = c01.specie(X, 'a'), c01.specie(X, 'b')
    num = X.func('num', [I, I, I, I], I)
    asked = []
    mark = {}

    def speckles(X_, cls_, *args, **kw):
        asked.append((args, kw))
        k = X_.const('k')
        X_.push(k, [k >= 0, k < K])
        q = [X_.const('q') for _ in ds]
        g = X_.alloc('obj', {'depth': ds[0], 'width': ds[1], 'length': ds[2], '_depth': ds[0], '_width': ds[1], '_length': ds[2], 'ix': k},
                     v.get(SC + 'SitesGrid'))
        X_.pop()
        return X_.alloc('gen', Cat([For(k, K, Unit(g))]))
    X.contracts[SC + 'SitesGrid.gen_speckle'] = speckles
    for nm in ('depth', 'width', 'length'):
        X.contracts[SC + 'SitesGrid.' + nm] = lambda X_, s, nm=nm: X_.getfield(s, '_' + nm)
    res = v.cls_call(SC + 'CStru', 'gen_speckle', [mm, a, tuple(ds), b, cnt])
    ls = leaves(X, X.tree_of(res))
    if len(asked) != 1 or len(ls) != 1 or len(ls[0][0]) != 1 or asked[0][1]:
        raise Unsupported('not one pass over the grids')
    want = (a, tuple(ds), b, cnt)
    X.oblige('the grids are those asked for', And([same(x, y) or (not isinstance(x, Ref) and fb(eq(X, x, y))) for x, y in zip(asked[0][0], want)]) if len(asked[0][0]) == 4 else False)
    (k,), dom, s = ls[0]
    X.oblige('one structure for every grid', All([k], Iff(dom, And(k >= 0, k < K))))
    X.push(k, [dom])
    X.oblige('with that grid', eq(X, X.getfield(X.getattr(s, 'sites_grid'), 'ix'), k))
    X.oblige('and the lattice', eq(X, X.getattr(s, 'm'), mm))
    X.pop()


UNITS = [('SitesGrid.gen_speckle', speckle), ('CStru.gen_speckle', structures)]


def reduction(v):
    """gen_nodup_cstru: the first of every class"""
    X = v.X
    ds = c21.dims(X, 3)
    n = X.const('N')
    X.assume(n == ds[0] * ds[1] * ds[2])
    X.assume(n >= 1)
    g = Group(X, n)
    K = X.const('K')
    X.assume(K >= 0)
    nums = X.func('nums', [I, I], I)
    m, rows = c21.matrix(v)
    mm = c21.pylist(X, rows)
    cnt = c01.count(X)
    a, b = c01.specie(X, 'a'), c01.specie(X, 'b')
    cls = v.get(SC + 'CStru')
    lat, pos = X.func('glat', [I, I], R), X.func('gpos', [I, I], R)
    asked = {}
    sea = X.alloc('obj', {'what': 'sea'}, v.get(SC + 'SitesGrid'))

    def sea_of(X_, cls_, *args):
        asked['sea'] = len(args) == 4 and And([fb(eq(X_, p, q)) for p, q in zip(args[:3], ds)] + [same(args[3], a)])
        return sea
    X.contracts[SC + 'SitesGrid.sea'] = sea_of

    def new(X_, m_, sg):
        asked['mother'] = And(same(sg, sea), fb(eq(X_, m_, mm)))
        return X_.alloc('obj', {'ix': -1}, cls)
    X.contracts[SC + 'CStru'] = lambda X_, *args: new(X_, *args[-2:])

    def cell(X_, s):
        ix = X_.getfield(s, 'ix')
        mother = isinstance(ix, int)
        z = X.getattr(a, 'Z')
        la = models.mkarr(X_, (3, 3), lambda i, j: lat(zv(i), zv(j)))
        po = models.mkarr(X_, (n, 3), lambda i, j: pos(zv(i), zv(j)))
        nu = models.mkarr(X_, (n,), lambda i: z if mother else nums(zv(ix), zv(i)))
        return (la, po, nu)
    X.contracts[SC + 'CStru.get_cell'] = cell

    def speckles(X_, cls_, *args):
        asked['grids'] = len(args) == 5 and And(same(args[1], a), same(args[3], b), fb(eq(X_, args[0], mm)), fb(eq(X_, args[4], cnt)),
                                               *[fb(eq(X_, p, q)) for p, q in zip(args[2], ds)])
        k = X_.const('k')
        X_.push(k, [k >= 0, k < K])
        s = X_.alloc('obj', {'ix': k}, cls)
        X_.pop()
        return X_.alloc('gen', Cat([For(k, K, Unit(s))]))
    X.contracts[SC + 'CStru.gen_speckle'] = speckles

    def perms(X_, c):
        z = to_lam(X_, c[2])
        i = z3.Int('i')
        asked['table'] = And(eq(X_, z.dims[0], n), All([i], Implies(And(i >= 0, i < n), zv(lget(X_, z, (i,))) == X.getattr(a, 'Z'))),
                             same_arr(X_, c[1], models.mkarr(X_, (n, 3), lambda i, j: pos(zv(i), zv(j)))))
        return g.listing(X_)
    X.contracts[SG + 'get_permutation_cell'] = perms
    models.MODELS['pyvc.same'] = lambda X_, it: it
    X.hooks[('lib', 'progressbar.ProgressBar')] = lambda X_, *a_, **k_: lib.Lib('pyvc.same')
    X.hooks[('lib', 'scipy.special.comb')] = lambda X_, *a_, **k_: X_.const('comb', R)
    res = X.call(v.get(SG + 'gen_nodup_cstru'), [mm, a, tuple(ds), b, cnt])
    for nm, what in (('grids', 'the structures reduced are those of the request'), ('table', 'the operations are those of the uniformly filled grid'),
                     ('sea', 'the uniform grid is of the sea element'), ('mother', 'on the lattice')):
        X.oblige(what, asked.get(nm, False))
    ls = leaves(X, X.tree_of(res))
    if len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('not one filtered pass over the structures')
    ks, dom, s = ls[0]
    k = ks[0]
    E = lambda j: sub(fb(dom), [(k, zv(j))])
    kk, jj = X.const('k'), X.const('j')
    X.oblige('an emitted structure is the structure of its place', All([k], Implies(dom, And(k >= 0, k < K, eq(X, X.getfield(s, 'ix'), k)))))
    rel = lambda x, y: c01.related(g, nums, x, y, n)
    X.oblige('no two emitted structures are related', All([jj, kk], Implies(And(E(jj), E(kk), jj < kk), Not(rel(jj, kk)))))
    X.oblige('every structure that is not emitted is related to an emitted earlier one',
             All([kk], Implies(And(kk >= 0, kk < K, Not(E(kk))), Ex([jj], And(jj >= 0, jj < kk, E(jj), rel(jj, kk))))))


UNITS.append(('gen_nodup_cstru', reduction))


def distance(P, a, b):
    return lib.sqrtR(sum((P(a, q) - P(b, q)) * (P(a, q) - P(b, q)) for q in range(3)))


def least(v):
    """_min_dist: a least distance, by an invariant of its loop"""
    X = v.X
    n = X.const('n')
    X.assume(n >= 0)
    arr, P = sym_arr(X, 'point', (n, 3), R)
    X.opts['flatpairs'] = True
    f = X.func('least', [I], R)
    seen = []
    T = X.const('T', R)
    X.assume(And(T >= 0, T < 9999))
    D = lambda c: distance(P, X.flatpairs[2](c), X.flatpairs[3](c))

    def inv(k, init):
        c = z3.Int('c')
        return And(Implies(And(All([c], Implies(And(c >= 0, c < k), D(c) > T)), real(init) > T), f(k) > T),
                   Implies(f(k) > T, And(real(init) > T, All([c], Implies(And(c >= 0, c < k), D(c) > T)))))

    def carry(X_, loc, init, k):
        if not (is_num(init) and getattr(X_, 'flatpairs', None)):
            return None
        seen.append(init)

        def step(X2, kk, nv):
            lv = X2.levels.pop()
            X2.define(f(0) == real(init))
            X2.oblige('before the first pair', inv(z3.IntVal(0), init))
            X2.levels.append(lv)
            X2.define(f(kk + 1) == real(nv))
            # the next pair is the only new one
            c = z3.Int('c')
            X2.oblige('after a pair', And(Implies(And(inv(kk, init), D(kk) > T), inv(kk + 1, init)),
                                          Implies(And(inv(kk, init), D(kk) <= T), f(kk + 1) <= T)))

        def at(kk):
            X_.define(inv(kk, init))
            return f(kk)

        def after(m):
            X_.define(f(0) == real(init))
            X_.define(inv(zv(m), init))
            return f(zv(m))
        return {'at': at, 'step': step, 'after': after}
    X.hooks['carry'] = carry
    r = real(X.call(v.get(SG + '_min_dist'), [arr]))
    if not seen:
        raise Unsupported('not a pass over the pairs')
    a, b = X.const('a'), X.const('b')
    rk = X.flatpairs[1](a, b)
    dom = And(a >= 0, a < b, b < n)
    cnt, fp, fq = X.flatpairs[0], X.flatpairs[2], X.flatpairs[3]
    c = X.const('c')
    X.oblige('every two points are one pair of the pass', All([a, b], Implies(dom, And(rk >= 0, rk < cnt, fp(rk) == a, fq(rk) == b))))
    X.oblige('when the least is more than a threshold so is every pair of the pass', All([c], Implies(And(c >= 0, c < cnt, r > T), D(c) > T)))
    X.oblige('if all pairs are further apart so is the least', Implies(All([a, b], Implies(dom, distance(P, a, b) > T)), r > T))


def separation(v):
    """is_speckle_disjunct: the least distance among the speckles of the extended grid"""
    X = v.X
    species_contract(v)
    g, ds, f = c21.grid(v, SC + 'SitesGrid', 3)
    m, rows = c21.matrix(v)
    s = v.real_obj(SC + 'CStru', [c21.pylist(X, rows), g])
    z = X.const('Z')
    asked = []

    def least_of(X_, pts):
        lam = to_lam(X_, pts)
        r = X_.fresh('least', R)
        asked.append((lam, r))
        return r
    X.contracts[SG + '_min_dist'] = least_of
    r = fb(X.truth(X.call(v.get(SG + 'is_speckle_disjunct'), [s, c21.specie(v, z)])))
    if len(asked) != 1:
        raise Unsupported('not the least distance of one set of points')
    lam, least_ = asked[0]
    X.oblige('disjunct when the least distance is more than 1.01', Iff(r, least_ > z3.RealVal('1.01')))
    X.oblige('points in space', len(lam.dims) == 2 and eq(X, lam.dims[1], 3))
    if len(X.flatshapes) != 1:
        raise Unsupported('not one listing of the positions')
    L, rank, gs, dom, ks = X.flatshapes[0][3]
    X.oblige('one point for every listed position', eq(X, lam.dims[0], L))
    big = [d + 1 for d in ds]
    wrap = lambda i, d: z3.If(i == d, z3.IntVal(0), i)
    ix = [X.const('i') for _ in ds]
    inside = And([And(i >= 0, i < d) for i, d in zip(ix, big)])
    on = And(inside, f(*[wrap(i, d) for i, d in zip(ix, ds)]) == z)
    X.oblige('the positions listed are the speckles of the grid extended by its first layers',
             All(ix, Iff(on, sub(fb(dom), list(zip(ks, ix))))))
    k = X.const('k')
    X.push(k, [k >= 0, k < L])
    at = [q(k) for q in gs]
    for j in range(3):
        X.oblige('a point lies at its position on the lattice, component %d' % j,
                 real(lget(X, lam, (k, j))) == sum(z3.ToReal(at[q]) * m[q][j] for q in range(3)))
    X.pop()
    X.oblige('the structure is not changed', c21.sizes(X, g, ds))
    c21.array_is(X, 'the structure is not changed', X.call(X.getattr(s, 'get_array'), []), ds, f)


UNITS += [('_min_dist', least), ('is_speckle_disjunct', separation)]


def permutations(v):
    """get_permutation_cell on a grid: where the operations move the sites"""
    X = v.X
    n, M = X.const('n'), X.const('M')
    X.assume(And(n >= 1, M >= 1))
    T = z3.ToReal
    pos_arr, pos = sym_arr(X, 'gridpos', (n, 3), R)
    lat, _ = sym_arr(X, 'lat', (3, 3), R)
    num, _ = sym_arr(X, 'num', (n,), I)
    D = [X.const('size') for _ in range(3)]
    c = X.func('coord', [I, I], I)
    rot, tr = X.func('rot', [I, I, I], I), X.func('tran', [I, I], R)
    s, si, z = X.func('moves', [I, I], I), X.func('from', [I, I], I), X.func('whole', [I, I, I], I)
    asked = []

    def symmetry(X_, cell, *a, **k):
        asked.append(And(same_arr(X_, cell[1], pos_arr), same_arr(X_, cell[2], num), same_arr(X_, cell[0], lat)))
        m, i, j = X_.const('m'), X_.const('i'), X_.const('j')
        return X_.alloc('dict', Cat([Unit(('rotations', X_.arr(Lam((M, 3, 3), (m, i, j), rot(m, i, j))))),
                                     Unit(('translations', X_.arr(Lam((M, 3), (m, i), tr(m, i)))))]))
    X.hooks[('lib', 'spglib.get_symmetry')] = symmetry
    tab = X.call(v.get(SG + 'get_permutation_cell'), [(lat, pos_arr, num)])
    X.oblige('the operations are those of the cell', And([fb(a) for a in asked]) if asked else False)
    ls = leaves(X, X.tree_of(tab))
    if len(ls) != 1 or len(ls[0][0]) != 1 or len(X.sorts) != 1 or len(X.sortbinders) != 1:
        raise Unsupported('the table is not one sort per operation')
    (k0,), dom, a = ls[0]
    X.oblige('one entry for every operation', All([k0], Iff(dom, And(k0 >= 0, k0 < M))))
    m = X.const('m')
    X.push(m, [m >= 0, m < M])
    la = to_lam(X, sub(a, [(k0, m)]))
    X.oblige('an entry lists every site', len(la.dims) == 1 and eq(X, la.dims[0], n))
    e = lambda k: zv(lget(X, la, (k,)))
    ks = X.sorts[0][3]
    key = lambda j, q: sub(zv(lget(X, ks[2 - q], (j,))), [(X.sortbinders[0], m)])
    if len(ks) != 3:
        raise Unsupported('not three keys')
    i, j, u, w, k, k2 = [X.const(x) for x in ('i', 'j', 'u', 'w', 'k', 'k2')]
    image = lambda j, q: sum([T(rot(m, q, b)) * pos(j, b) for b in range(3)], z3.RealVal(0)) + tr(m, q)

    def ob(nm, hy, goal, kind='post'):
        X.obls.append(core.Obl(nm, [fb(h) for h in hy], fb(goal), X.line, kind))
    # one coordinate of the grid
    a_, b_, d_ = z3.Ints('a b d')
    x_, y_ = z3.Reals('x y')
    Z1, Z2 = z3.Ints('Z1 Z2')
    gap = z3.RealVal('1/400')
    lemma0(X, 'grid coordinates are apart', [a_, b_, d_, x_, y_],
           Implies(And(d_ >= 1, d_ <= 400, x_ * T(d_) == T(a_), y_ * T(d_) == T(b_), a_ >= 0, a_ < b_, b_ < d_), And(x_ >= 0, y_ - x_ >= gap, y_ <= 1 - gap)))
    lemma0(X, 'grid coordinates are in the cell', [a_, d_, x_], Implies(And(d_ >= 1, d_ <= 400, x_ * T(d_) == T(a_), a_ >= 0, a_ < d_), And(x_ >= 0, x_ <= 1 - gap)))
    lemma0(X, 'equal grid coordinates', [a_, d_, x_, y_], Implies(And(d_ >= 1, x_ * T(d_) == T(a_), y_ * T(d_) == T(a_)), x_ == y_))
    for q in range(3):
        P = Purify()
        ka, kb = P(z3.simplify(key(i, q))), P(z3.simplify(key(j, q)))
        ima, imb = P(z3.simplify(image(i, q))), P(z3.simplify(image(j, q)))
        # the whole parts of the keys, each that of the place in the cell moved by a whole multiple of the cell
        sides = []
        for w_, k_, img, o, Z_ in ((i, ka, ima, x_, Z1), (j, kb, imb, y_, Z2)):
            sides.append(parts(ob, P, P.of(k_), [img == o + T(Z_), o >= 0, o <= 1 - gap], o, Z_, 'axis %d' % q))
        (fa, ca, da), (fb2, cb, db) = sides
        near = z3.RealVal('1/1000')
        for k_, o, fs in ((ka, x_, da), (kb, y_, db)):
            ob('a key is near the place in the cell, axis %d' % q, fs, And(k_ - o <= near, o - k_ <= near))
        ob('keys follow the coordinates, axis %d' % q, [ka - x_ <= near, y_ - kb <= near, y_ - x_ >= gap], ka < kb)
        if len(ca) != len(cb) or [c for _, c in ca] != [c for _, c in cb]:
            raise Unsupported('keys computed differently')
        at = fa + fb2 + [x_ == y_]
        for (k1, c1), (k2_, _) in zip(ca, cb):
            eqn = k1 - c1 * Z1 == k2_ - c1 * Z2
            ob('equal coordinates have equal whole parts, axis %d' % q, at, eqn)
            at = at + [eqn]
        ob('equal coordinates have equal keys, axis %d' % q, at, ka == kb)
    # the sort puts the sites that are moved here first, here first
    I_, J_ = s(m, e(k)), s(m, e(k2))
    K = [[X.const('key', R) for _ in range(3)] for _ in range(2)]
    C = [[X.const('co') for _ in range(3)] for _ in range(2)]
    lex = lambda A, B: Or(A[0] < B[0], And(A[0] == B[0], Or(A[1] < B[1], And(A[1] == B[1], A[2] < B[2]))))
    inst = [And(k >= 0, k < k2, k2 < n, m >= 0, m < M)]
    apps = symbols(e(k))
    facts = [f for f in instances(X, apps, [m, k, k2]) if not z3.is_quantifier(f) and (mentions(f, e(k)) or mentions(f, e(k2)))]
    keys = [[z3.simplify(key(t, q)) for q in range(3)] for t in (e(k), e(k2))]
    short = [(keys[t][q], K[t][q]) for t in range(2) for q in range(3)]
    facts = [z3.substitute(z3.simplify(f), *short) for f in facts]
    sorted_ = Or(lex(*keys), And([p_ == q_ for p_, q_ in zip(*keys)] + [e(k) < e(k2)]))
    sorted_ = z3.substitute(sorted_, *short)
    ekk = facts
    ob('the sort orders the keys', ekk + inst, And(sorted_, e(k) != e(k2), e(k) >= 0, e(k) < n, e(k2) >= 0, e(k2) < n))
    ax = [And(Implies(C[0][q] < C[1][q], K[0][q] < K[1][q]), Implies(C[0][q] == C[1][q], K[0][q] == K[1][q]),
              Implies(C[1][q] < C[0][q], K[1][q] < K[0][q])) for q in range(3)]
    ob('sites are moved in their order', ax + [Or(lex(K[0], K[1]), And([K[0][q] == K[1][q] for q in range(3)])), I_ != J_,
                                              Implies(J_ < I_, lex(C[1], C[0]))], I_ < J_)
    # an increasing map of [0, n) to itself is the identity
    f = z3.Function('f', I, I)
    t = z3.Int('t')
    inc = All([a_, b_], Implies(And(a_ >= 0, a_ < b_, b_ < n), f(a_) < f(b_)))
    rng = All([a_], Implies(And(a_ >= 0, a_ < n), And(f(a_) >= 0, f(a_) < n)))
    ob('lemma increasing (up, first)', [rng, n >= 1], f(0) >= 0, 'lemma')
    ob('lemma increasing (up, step)', [inc, t >= 0, t + 1 < n, f(t) >= t], f(t + 1) >= t + 1, 'lemma')
    ob('lemma increasing (down, first)', [rng, n >= 1], f(n - 1) <= n - 1, 'lemma')
    ob('lemma increasing (down, step)', [inc, t >= 0, t + 1 < n, f(t + 1) <= t + 1], f(t) <= t, 'lemma')
    ob('an entry is the site the operation moves here', [s(m, e(k)) == k, si(m, s(m, e(k))) == e(k)], e(k) == si(m, k))
    X.pop()


class Purify:
    """products and whole parts replaced by symbols; the facts about the whole parts are kept, innermost first"""
    def __init__(self):
        self.memo, self.prods, self.parts = {}, {}, []

    def __call__(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        ch = [self(c) for c in e.children()]
        kd = e.decl().kind()
        if kd == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1:
            kk = tuple(sorted(c.get_id() for c in ch))
            r = self.prods.setdefault(kk, (ch, z3.FreshConst(e.sort(), 'prod')))[1]
        elif kd == z3.Z3_OP_TO_INT:
            r = next((t for t, a, b in self.parts if a.eq(ch[0])), None)
            if r is None:
                r = z3.FreshInt('part')
                self.parts.append((r, ch[0], And(z3.ToReal(r) <= ch[0], ch[0] < z3.ToReal(r) + 1)))
        else:
            r = e.decl()(*ch) if ch else e
        self.memo[i] = (e, r)
        return r


    def of(self, e):
        """the whole parts in a term, innermost first"""
        out = []
        for r, arg, defn in self.parts:
            if mentions(e, r):
                out.append((r, arg, defn))
        more = [t for t in self.parts if not any(t[0].eq(o[0]) for o in out) and any(mentions(o[1], t[0]) for o in out)]
        return [t for t in self.parts if any(t[0].eq(o[0]) for o in out + more)]


def parts(ob, P, ps, facts, o, Z, who):
    """facts about the whole parts of a key of the image o + Z (o in the cell, Z whole), proved one after the other"""
    T = z3.ToReal
    known, bounds, mult = list(facts), list(facts), []
    for n_, (k, arg, defn) in enumerate(ps):
        for c, what in ((1, 1), (100000, 0), (1000, 0), (100, 0), (10000, 0), (1000, 1), (100000, 1)):
            base = c * Z if c == 1 or not what else z3.IntVal(0)
            # a whole number near c times the place, not below the cell's first
            cand = (k == Z) if c == 1 else And(k >= base, T(k) - T(base) - c * o <= z3.RealVal('3/4'), c * o - (T(k) - T(base)) <= z3.RealVal('3/4'))
            if proves(bounds + [defn], cand):
                ob('whole part %d of a key, %s' % (n_, who), bounds + [defn], cand)
                known += [defn, cand]
                bounds += [cand] if c == 1 else [cand, defn]
                mult.append((k, 0 if c != 1 and what else c))
                break
        else:
            raise Unsupported('a whole part of a key that does not follow the coordinate')
    return known, mult, bounds


UNITS.append(('get_permutation_cell', permutations))
