"""C08: supercells.  The candidates kept are counted (fibres of constant width), different copies are incongruent, every copy is a
translate with its atom's element; n * V incongruent translates out of n * V classes are all of them."""
from common_c import *
from lib import PQ, PR

ASSUMPTIONS = ['floats are exact reals; the determinant is below 100000 (the tolerance 0.00001 of the code counts as exact below it)',
               'counting: exactly w integers t satisfy s <= q*t < s + q*w (q >= 1); a lattice has as many classes modulo a sublattice as its determinant; '
               'an injective map between finite sets of equal size is onto',
               'the constructor contract of C04 (the same atoms in another order)']
SLC = 'ababe.stru.grid.SuperLatticeCell'
Q = z3.RealVal


class HM(object):
    def __init__(self, X):
        self.a, self.b, self.c, self.d, self.e, self.f = [X.const(x) for x in 'abcdef']
        s = self
        X.assume(And(s.a >= 1, s.c >= 1, s.f >= 1, s.b >= 0, s.b < s.c, s.d >= 0, s.d < s.f, s.e >= 0, s.e < s.f))
        s.V = X.const('V')
        X.assume(And(s.V >= 1, s.V < 100000))
        X.define(s.V == s.a * s.c * s.f)
        s.A2, s.A3 = X.const('ac'), s.V
        X.define(And(s.A2 == s.a * s.c, s.A2 >= 1, s.V == s.A2 * s.f, s.A2 <= s.V, s.a <= s.A2, s.a <= s.V))
        # rows of the inverse: upper triangular as well
        w = s.w = [[X.const('w%d%d' % (i, j), R) if i <= j else 0 for j in range(3)] for i in range(3)]
        M = s.M = [[s.a, s.b, s.d], [0, s.c, s.e], [0, 0, s.f]]
        for i in range(3):
            for j in range(i, 3):
                one = Q(1 if i == j else 0)
                X.define(sum([real(M[i][q]) * w[q][j] for q in range(i, j + 1)], Q(0)) == one)
                X.define(sum([w[i][q] * real(M[q][j]) for q in range(i, j + 1)], Q(0)) == one)
        self.base = list(X.hyps())

    def arr(self, X):
        M = self.M
        return models.mkarr(X, (3, 3), lambda i, j: M[i][j] if isinstance(i, int) and isinstance(j, int) else models._sel(X, M, i, j))

    def nums(self, x):
        """numerators: x = first, a*c*y1, a*c*f*y2 for y = x W"""
        a, b, c, d, e = self.a, self.b, self.c, self.d, self.e
        return x[0], a * x[1] - b * x[0], self.A2 * x[2] - a * (e * x[1]) + (b * e - c * d) * x[0]

    def row(self, x):
        w = self.w
        x = [real(t) for t in x]
        return x[0] * w[0][0], x[0] * w[0][1] + x[1] * w[1][1], x[0] * w[0][2] + x[1] * w[1][2] + x[2] * w[2][2]

    def rowfacts(self, x):
        """numerators of the rows: instances of lemmas"""
        y, p = self.row(x), self.nums(x)
        return [real(p[0]) == real(self.a) * y[0], real(p[1]) == real(self.A2) * y[1], real(p[2]) == real(self.V) * y[2]]

    def fib(self, p):
        return And(p[0] >= 0, p[0] < self.a, p[1] >= 0, p[1] < self.A2, p[2] >= 0, p[2] < self.V)

    def bounds(self, x):
        p = self.nums(x)
        h = self.fib(p)
        return [Implies(h, And(x[1] >= 0, x[1] < self.b + self.c)),
                Implies(h, And(x[2] >= 0, x[2] < self.d + self.e + self.f))]

    def boundsteps(self, X, x):
        """the bounds, by products of the inequalities"""
        a, b, c, d, e, f, A2 = self.a, self.b, self.c, self.d, self.e, self.f, self.A2
        p = self.nums(x)
        s1 = [b * x[0] >= 0, b * x[0] <= b * a, a * x[1] == p[1] + b * x[0], a * (b + c) == a * b + A2]
        s2 = [A2 * x[2] == p[2] + e * p[1] + (c * d) * x[0], e * p[1] >= 0, e * p[1] <= e * A2, (c * d) * x[0] >= 0, (c * d) * x[0] <= (c * d) * a,
              A2 * (d + e + f) == A2 * d + A2 * e + self.V, (c * d) * a == A2 * d]
        h = self.fib(p)
        for i, (st, x_, top) in enumerate([(s1, x[1], b + c), (s2, x[2], d + e + f)]):
            q = (a, A2)[i]
            for k, t in enumerate(st):
                X.obls.append(core.Obl('bound %d step %d' % (i, k), self.base + [h], t, 'contracts', 'lemma'))
            X.obls.append(core.Obl('bound %d' % i, self.base + [h] + st + [q * x_ >= 0, q * x_ < q * top], And(x_ >= 0, x_ < top), 'contracts', 'lemma'))
            X.obls.append(core.Obl('bound %d product' % i, self.base + [h] + st, And(q * x_ >= 0, q * x_ < q * top), 'contracts', 'lemma'))

    def scaled(self):
        w = self.w
        return [('ac w01', real(self.A2) * w[0][1] == -real(self.b)), ('ac w11', real(self.A2) * w[1][1] == real(self.a)),
                ('V w22', real(self.V) * w[2][2] == real(self.A2)), ('V w12', real(self.V) * w[1][2] == -real(self.a) * real(self.e)),
                ('V w02', real(self.V) * w[0][2] == real(self.b) * real(self.e) - real(self.c) * real(self.d))]

    def back(self, x):
        """the row times the matrix is the vector again"""
        y = self.row(x)
        return [sum([y[q] * real(self.M[q][c]) for q in range(c + 1)], Q(0)) == real(x[c]) for c in range(3)]

    def known(self, X):
        for nm, f in self.scaled():
            X.define(f)

    def lemmas(self, X):
        for nm, f in self.scaled():
            X.oblige('scaled inverse ' + nm, f, 'lemma')
            X.define(f)
        x = [X.const('x') for _ in range(3)]
        for i, f in enumerate(self.rowfacts(x)):
            X.oblige('numerator %d of a row' % i, f, 'lemma')
        for i, f in enumerate(self.back(x)):
            X.oblige('row times matrix, component %d' % i, f, 'lemma')
        self.boundsteps(X, x)

    def inv(self, X, lam, *m):
        if not all(same(x, y) for x, y in zip(m, (self.a, self.b, self.d, self.c, self.e, self.f))):
            raise Unsupported('inverse of another matrix')
        w = self.w
        return models.mkarr(X, (3, 3), lambda i, j: w[i][j] if isinstance(i, int) and isinstance(j, int) else models._sel(X, w, i, j))


def real(x):
    return z3.ToReal(x) if is_z(x) and x.sort() == I else zv(x) if is_z(x) else Q(x)


def arith(v):
    """the arithmetic used, for all values"""
    X = v.X
    A, P = ints('A', 'P')
    y = z3.Real('y')
    lemma0(X, 'the tolerance is exact', [A, P, y], tol(A, P, y))


def tol(A, P, y):
    lo, hi = Q('-0.00001'), Q('0.99999')
    return Implies(And(A >= 1, A < 100000, real(P) == real(A) * y), Iff(And(y >= lo, y < hi), And(P >= 0, P < A)))


def lemmas(v):
    HM(v.X).lemmas(v.X)


def mentions(e, names):
    seen, todo = set(), [fb(e)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_const(t) and t.decl().name() in names:
            return True
        todo.extend(t.children())
    return False


class Counter(object):
    """counts the candidates the code keeps: proves that they are the fibred set, then knows their number"""
    def __init__(self, X, H):
        self.H, self.boxes, self.kept = H, [], []
        self.wn = set(w.decl().name() for r in H.w for w in r if is_z(w))
        X.hooks['count'] = self.count
        X.hooks['trinv'] = H.inv

    def count(self, X, L, rank, g, dom, ks):
        if X.binders():
            return
        if len(ks) == 3 and not mentions(dom, self.wn):
            self.boxes.append((L, rank, g, dom, ks))
            return
        x = D = None
        if len(ks) == 3 and mentions(dom, self.wn):
            x, D, at = ks, dom, lambda l: [f(l) for f in g]
        elif len(ks) == 1 and mentions(dom, self.wn):
            for L1, rank1, g1, dom1, ks1 in self.boxes:
                if mentions(dom, {L1.decl().name()}):
                    x = ks1
                    e = sub(fb(dom), [(ks[0], rank1(*x))])
                    # rank1 and g1 are inverse on the box
                    e = z3.substitute(e, *[(f(rank1(*x)), k) for f, k in zip(g1, x)])
                    e = z3.substitute(e, (rank1(*x) >= 0, z3.BoolVal(True)), (rank1(*x) < L1, z3.BoolVal(True)))
                    D = And(dom1, e)
                    at = (lambda g1, g: lambda l: [f(g[0](l)) for f in g1])(g1, g)
        if x is None:
            return
        H = self.H
        p = H.nums(x)
        fib = H.fib(p)
        y = H.row(x)
        facts = H.rowfacts(x) + [tol(A, P, t) for A, P, t in zip((H.a, H.A2, H.V), p, y)] + H.bounds(x)
        hy = X.hyps()
        X.obls.append(core.Obl('every kept candidate lies in the new cell', hy + facts, Implies(fb(D), fib), X.line, 'post'))
        X.obls.append(core.Obl('every candidate in the new cell is kept', hy + facts, Implies(fib, fb(D)), X.line, 'post'))
        X.define(L == H.V)
        self.kept.append((L, at))
        # different candidates kept are different points
        l, l2 = ints('l', 'l2')
        a1, a2 = at(l), at(l2)
        r1, r2 = H.row(a1), H.row(a2)
        dom2 = And(l >= 0, l < l2, l2 < L)
        X.obls.append(core.Obl('candidates are different', hy, All([l, l2], Implies(dom2, Or([p != q for p, q in zip(a1, a2)]))), X.line, 'post'))
        hs = H.rowfacts(a1) + H.rowfacts(a2)
        X.obls.append(core.Obl('different candidates are different points', H.base + hs,
                               Implies(And([p == q for p, q in zip(r1, r2)]), And([p == q for p, q in zip(a1, a2)])), X.line, 'post'))
        inside = lambda r: And([And(t >= 0, t < 1) for t in r])
        for t, A, P in zip(y, (H.a, H.A2, H.V), p):
            X.obls.append(core.Obl('kept points are in the cell', H.base + [fib, real(P) == real(A) * t], And(t >= 0, t < 1), X.line, 'post'))
        ran = [inside(r1)]
        X.define(All([l], Implies(And(l >= 0, l < L), And(ran)), [a1[0]]))
        X.define(All([l], And(H.back(a1)), [a1[0]]))
        X.define(All([l, l2], Implies(And(l >= 0, l2 >= 0, l < L, l2 < L, *[p == q for p, q in zip(r1, r2)]), l == l2), [z3.MultiPattern(a1[0], a2[0])]))


def real_(x):
    return z3.ToReal(x) if x.sort() == I else x


def unify(pat, e):
    """the term standing for l"""
    if z3.is_const(pat) and pat.decl().name() == 'l':
        return e
    if not z3.is_app(e) or not pat.decl().eq(e.decl()) or pat.num_args() != e.num_args():
        return None
    for a, b in zip(pat.children(), e.children()):
        r = unify(a, b)
        if r is not None:
            return r
    return None


def check_cell(v, cell, n, H, C, tab):
    X = v.X
    fl, fp, fn = tab
    i = z3.Int('i')
    if len(C.kept) != 1:
        raise Unsupported('the candidates are not filtered once')
    f, m = numbers_fn(X, cell)
    X.oblige('as many atoms as the volume ratio times those of the parent', eq(X, m, n * H.V))
    lat = to_lam(X, X.getattr(cell, 'lattice'))
    if tuple(lat.dims) != (3, 3):
        raise Unsupported('shape of the lattice')
    for r in range(3):
        for c in range(3):
            want = sum([real(H.M[r][q]) * fl(z3.IntVal(q), z3.IntVal(c)) for q in range(3)], Q(0))
            X.oblige('entry %d, %d of the lattice' % (r, c), zv(lget(X, lat, (r, c))) == want)
    lp = to_lam(X, X.getattr(cell, 'positions'))
    X.oblige('a position for every atom', And(eq(X, lp.dims[0], m), eq(X, lp.dims[1], 3)) if len(lp.dims) == 2 else False)
    tot = zv(m)
    j1 = X.const('j')
    X.push(j1, [j1 >= 0, j1 < tot])
    t = z3.simplify(zv(f(j1)))
    if not (z3.is_app(t) and t.decl().eq(fn(i).decl())):
        raise Unsupported('elements are not those of the parent')
    src = t.arg(0)
    X.oblige('every atom comes from an atom of the parent', And(src >= 0, src < n))
    P = [real_(zv(lget(X, lp, (j1, c)))) for c in range(3)]
    yW = H.row([fp(src, z3.IntVal(c)) for c in range(3)])
    L, at = C.kept[0]
    LV = lambda e: z3.simplify(z3.substitute(e, (L, H.V)))       # L == V is known
    # the candidate this copy was made from
    dec = at(z3.Int('l'))[0].decl()
    found = {}
    todo = [LV(p) for p in P]
    while todo:
        e = todo.pop()
        if z3.is_app(e):
            if e.decl().eq(dec):
                found[e.get_id()] = e
            todo.extend(e.children())
    inner = at(z3.Int('l'))
    ls = [l for l in (unify(inner[0], e) for e in found.values()) if l is not None]
    if len(ls) != 1:
        raise Unsupported('the copies are not made from the candidates')
    x = at(ls[0])
    hs = H.base + H.back([LV(t) for t in x])
    d = [LV(a - b) for a, b in zip(P, yW)]
    for c in range(3):
        g = sum([d[q] * real(H.M[q][c]) for q in range(c + 1)], Q(0))
        X.obls.append(core.Obl('every atom is its source moved by a lattice vector of the parent, component %d' % c, hs,
                               g == real(LV(x[c])), X.line, 'post'))
    j2 = X.const('j')
    X.push(j2, [j2 >= 0, j2 < tot, j1 < j2])
    s2 = sub(src, [(j1, j2)])
    P2 = [real_(zv(lget(X, lp, (j2, c)))) for c in range(3)]
    X.oblige('no two copies of an atom are equal modulo the new lattice',
             Not(And(src == s2, *[z3.IsInt(a - b) for a, b in zip(P, P2)])))
    X.pop()
    X.pop()


def setup(v):
    X = v.X
    X.opts['nosortfacts'] = True
    H = HM(X)
    H.known(X)
    n = X.const('N')
    X.assume(n >= 1)
    lat, _ = sym_arr(X, 'lat', (3, 3), R)
    pos, _ = sym_arr(X, 'pos', (n, 3), R)
    num, _ = sym_arr(X, 'num', (n,), I)
    p = v.real_obj(GC, [lat, pos, num])
    H.base = list(X.hyps())
    C = Counter(X, H)
    # the parent's own data, as it keeps them
    i = X.const('i')
    X.push(i, [i >= 0, i < n])
    lp, ln, ll = [to_lam(X, X.getattr(p, k)) for k in ('positions', 'numbers', 'lattice')]
    X.pop()
    return H, C, p, n, (ll, lp, ln)


def opaque(v):
    """a cell whose lattice, positions and elements are arbitrary: what the parent keeps is what it is given (C04)"""
    X = v.X
    H, C, p, n, (ll, lp, ln) = setup(v)
    fl = lambda q, c: zv(lget(X, ll, (q.as_long(), c.as_long())))
    fp0 = z3.simplify(zv(lget(X, lp, (z3.Int('i'), z3.IntVal(0)))))
    fn0 = z3.simplify(zv(lget(X, ln, (z3.Int('i'),))))
    fn = lambda i: fn0.decl()(i)
    fp = lambda i, c: fp0.decl()(i, c)
    return H, C, p, n, (fl, fp, fn)


def supercell(v):
    X = v.X
    H, C, p, n, tab = opaque(v)
    keep = [to_lam(X, X.getattr(p, k)) for k in ('positions', 'numbers', 'lattice')]
    c = X.call(X.getattr(p, 'supercell'), [H.arr(X)])
    check_cell(v, c, n, H, C, tab)
    X.oblige('the parent is untouched', And([lib.content_eq(X, to_lam(X, X.getattr(p, k)), o)
                                             for k, o in zip(('positions', 'numbers', 'lattice'), keep)]))


def to_general_cell(v):
    X = v.X
    X.hooks[('lib', 'spglib.get_symmetry')] = lambda X_, *a, **k: X_.alloc('dict', EMPTY)
    H, C, p, n, tab = opaque(v)
    h = H.arr(X)
    s = v.real_obj(SLC, [p, h])
    X.oblige('the matrix is kept as given', same_arr(X, X.getattr(s, 'lat_coeff'), h))
    keep = [to_lam(X, X.getattr(p, k)) for k in ('positions', 'numbers', 'lattice')]
    c = X.call(X.getattr(s, 'to_general_cell'), [])
    check_cell(v, c, n, H, C, tab)
    X.oblige('the parent is untouched', And([lib.content_eq(X, to_lam(X, X.getattr(p, k)), o)
                                             for k, o in zip(('positions', 'numbers', 'lattice'), keep)]))


UNITS = [('arithmetic', arith), ('inverse', lemmas), ('GeneralCell.supercell', supercell), ('SuperLatticeCell.to_general_cell', to_general_cell)]
