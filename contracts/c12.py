"""C12: fractional / Cartesian conversion, and the moves of ModifiedCell."""
from common_c import *

ASSUMPTIONS = ['floats are exact reals', 'numpy.linalg.inv returns the inverse of a non-singular matrix (both products are the identity)',
               'numpy.random.randn returns an arbitrary vector; the recursive draw of perturb terminates',
               'the element numbers are numbers of elements (Specie.from_num: C16)']
MC = 'ababe.stru.scaffold.ModifiedCell'
Q = z3.RealVal


class Lat(object):
    def __init__(self, X):
        self.arr, f = sym_arr(X, 'lat', (3, 3), R)
        self.L = [[f(z3.IntVal(i), z3.IntVal(j)) for j in range(3)] for i in range(3)]
        X.assume(lib.det3(X, to_lam(X, self.arr)) != 0)
        # the assumed contract of the inverse
        w = models.MODELS['numpy.linalg.inv'](X, self.arr)
        wl = to_lam(X, w)
        self.W = [[lget(X, wl, (i, j)) for j in range(3)] for i in range(3)]
        self.X = X
        for p in range(3):
            for q in range(3):
                X.assume(sum([self.L[p][t] * self.W[t][q] for t in range(3)], Q(0)) == (1 if p == q else 0))

    def cart(self, x, j):
        return sum([real(x[q]) * self.L[q][j] for q in range(3)], Q(0))

    def frac(self, x, j):
        return sum([real(x[q]) * self.W[q][j] for q in range(3)], Q(0))

    def facts(self, xs):
        """x_p (L W)_pq = x_p d_pq, x_p (W L)_pq = x_p d_pq: products of a number with the facts of the inverse"""
        out = []
        for x in xs:
            for p in range(3):
                for q in range(3):
                    d = 1 if p == q else 0
                    out.append(real(x) * sum([self.L[p][t] * self.W[t][q] for t in range(3)], Q(0)) == real(x) * d)
                    out.append(real(x) * sum([self.W[p][t] * self.L[t][q] for t in range(3)], Q(0)) == real(x) * d)
        return out

    def prove(self, name, goal, xs):
        X = self.X
        f = self.facts(xs)
        X.obls.append(core.Obl(name, X.hyps() + f, goal, X.line, 'post'))


def cell(v):
    X = v.X
    species_contract(v)
    l = Lat(X)
    n = X.const('N')
    X.assume(n >= 0)
    pos, fp = sym_arr(X, 'pos', (n, 3), R)
    num, fn = sym_arr(X, 'num', (n,), I)
    c = v.real_obj(MC, [l.arr, pos, num])
    return c, l, n, (lambda i: [fp(i, z3.IntVal(q)) for q in range(3)]), fn


def row(X, a, i=None):
    lam = to_lam(X, a)
    k = len(lam.dims) - (i is not None)
    if k != 1:
        raise Unsupported('shape')
    if not (isinstance(lam.dims[-1], int) and lam.dims[-1] == 3):
        raise Unsupported('shape')
    return [lget(X, lam, ((i, q) if i is not None else (q,))) for q in range(3)]


def vec(X, nm):
    return [X.const(nm, R) for _ in range(3)]


def conversions(v):
    X = v.X
    c, l, n, _, _ = cell(v)
    to_c, to_f = X.getattr(c, 'get_cartesian_from_frac'), X.getattr(c, 'get_frac_from_cart')
    m = X.const('M')
    X.assume(m >= 0)
    many, fm = sym_arr(X, 'many', (m, 3), R)
    x = vec(X, 'x')
    i = X.const('i')
    tup = tuple(x)
    arr = models.mkarr(X, (3,), lambda q: x[q] if isinstance(q, int) else z3.If(zv(q) == 0, x[0], z3.If(zv(q) == 1, x[1], x[2])))
    for nm, arg, idx, xs in (('a triple', tup, None, x), ('a vector', arr, None, x), ('a list of points', many, i, [fm(i, z3.IntVal(q)) for q in range(3)])):
        if idx is not None:
            X.push(i, [i >= 0, i < m])
        a = X.call(to_c, [arg])
        b = X.call(to_f, [arg])
        if idx is not None:
            X.oblige('%s: one result each' % nm, And(eq(X, to_lam(X, a).dims[0], m), eq(X, to_lam(X, b).dims[0], m)))
        ra, rb = row(X, a, idx), row(X, b, idx)
        for q in range(3):
            X.oblige('%s: Cartesian coordinate %d is the combination of the lattice rows' % (nm, q), real(ra[q]) == l.cart(xs, q))
        bb, aa = row(X, X.call(to_f, [a]), idx), row(X, X.call(to_c, [b]), idx)
        for q in range(3):
            l.prove('%s: to Cartesian and back, coordinate %d' % (nm, q), real(bb[q]) == real(xs[q]), xs)
            l.prove('%s: to fractional and back, coordinate %d' % (nm, q), real(aa[q]) == real(xs[q]), xs)
        if idx is not None:
            X.pop()


def cartesian(v):
    X = v.X
    X.opts['nosortfacts'] = True
    p, n = parent_cell(v)
    ll, lp = to_lam(X, X.getattr(p, 'lattice')), to_lam(X, X.getattr(p, 'positions'))
    num, _ = numbers_fn(X, p)
    f = lambda i, j: sum([real(lget(X, lp, (i, q))) * real(lget(X, ll, (q, j))) for q in range(3)], Q(0))
    a = to_lam(X, X.call(X.getattr(p, 'get_cartesian'), []))
    i = X.const('i')
    X.oblige('one row for every atom', eq(X, a.dims[0], n))
    X.push(i, [i >= 0, i < n])
    for j in range(3):
        X.oblige('row i is the combination of the lattice rows, coordinate %d' % j, real(lget(X, a, (i, j))) == f(i, j))
    X.pop()
    z = X.const('Z')
    ele = X.alloc('obj', {'Z': z}, None)
    b = to_lam(X, X.call(X.getattr(p, 'get_cartesian'), [ele]))
    m = b.dims[0]
    r, s = X.const('r'), X.const('s')
    X.push(i, [i >= 0, i < n, zv(num(i)) == z])
    cand = place_of(X, [i])
    goal = Or([And(t >= 0, t < zv(m), *[real(lget(X, b, (t, j))) == f(i, j) for j in range(3)]) for t, _ in cand])
    X.obls.append(core.Obl('every atom of the element has a row', X.hyps() + [w for _, w in cand], goal, X.line, 'post'))
    X.pop()
    src = [g for scope, cn, nk, (L, rank, g, dom, ks) in X.flatshapes if nk == 1 and not scope]
    if not src:
        raise Unsupported('the rows are not a listing of the atoms of the element')
    X.push(r, [r >= 0, r < zv(m)])
    at = lambda g, t: zv(g[0](t)) if callable(g[0]) else sub(zv(g[0]), [])
    X.oblige('every row is that of an atom of the element', Or([And(at(g, r) >= 0, at(g, r) < n, zv(num(at(g, r))) == z,
             *[real(lget(X, b, (r, j))) == f(at(g, r), j) for j in range(3)]) for g in src]))
    X.push(s, [s > r, s < zv(m)])
    X.oblige('in the order of the atoms, none twice', Or([And(at(g, r) < at(g, s), *[real(lget(X, b, (s, j))) == f(at(g, s), j) for j in range(3)]) for g in src]))
    X.pop(), X.pop()


def unchanged(X, c, l, n, fn):
    ll = to_lam(X, X.getattr(c, 'lattice'))
    X.oblige('the lattice is unchanged', And([real(lget(X, ll, (i, j))) == l.L[i][j] for i in range(3) for j in range(3)]))
    nl = to_lam(X, X.getattr(c, 'numbers'))
    i = X.const('i')
    X.oblige('as many sites as before', And(eq(X, nl.dims[0], n), eq(X, to_lam(X, X.getattr(c, 'positions')).dims[0], n)))
    X.push(i, [i >= 0, i < n])
    X.oblige('no element is changed', eq(X, lget(X, nl, (i,)), fn(i)))
    X.pop()


def translate(v):
    X = v.X
    c, l, n, fp, fn = cell(v)
    idx = X.const('idx')
    X.assume(And(idx >= 0, idx < n))
    t = vec(X, 't')
    arr = models.mkarr(X, (3,), lambda q: t[q] if isinstance(q, int) else z3.If(zv(q) == 0, t[0], z3.If(zv(q) == 1, t[1], t[2])))
    X.call(X.getattr(c, 'translate_sites'), [idx, arr])
    pl = X.getattr(c, 'positions')
    p1, p0 = row(X, pl, idx), fp(idx)
    for j in range(3):
        l.prove('the site moves by the vector, coordinate %d' % j, l.cart(p1, j) == l.cart(p0, j) + t[j], [l.cart(p0, q) + t[q] for q in range(3)])
    i = X.const('i')
    X.push(i, [i >= 0, i < n, i != idx])
    q1, q0 = row(X, pl, i), fp(i)
    X.oblige('no other site moves', And([real(a) == real(b) for a, b in zip(q1, q0)]))
    X.pop()
    unchanged(X, c, l, n, fn)


def length(X, u, d):
    """the drawn vector has length d"""
    u = [real(w) for w in u]
    divs, seen, todo = [], set(), list(u)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
            divs.append(e)
        todo += e.children()
    facts = []
    for e in divs:
        facts += [Implies(e.arg(1) != 0, e * e.arg(1) == e.arg(0))]
    ss = list(dict((e.arg(1).get_id(), e.arg(1)) for e in divs).values())
    ys = [z3.Real(c) for c in ('y0', 'y1', 'y2')]
    s_, d_, w_, S_ = z3.Reals('s d w S')
    lemma0(X, 'a vector divided by its length', ys + [s_, d_],
           Implies(And(s_ != 0, sum([(y * s_) * (y * s_) for y in ys], Q(0)) == s_ * s_), sum([(y * d_) * (y * d_) for y in ys], Q(0)) == d_ * d_))
    lemma0(X, 'a vector scaled by a length over its own', ys + [s_, w_],
           Implies(sum([y * y for y in ys], Q(0)) == s_ * s_, sum([(y * w_) * (y * w_) for y in ys], Q(0)) == (w_ * s_) * (w_ * s_)))
    for s in ss:
        es = [e for e in divs if e.arg(1).eq(s)]
        if len(es) == 3:
            facts += [Implies(And(s != 0, sum([e.arg(0) * e.arg(0) for e in es], Q(0)) == s * s), sum([(e * d) * (e * d) for e in es], Q(0)) == d * d)]
        if len(es) == 1 and z3.is_app(s) and s.num_args() == 1:
            sq = [t for t in s.arg(0).children()]
            ys_ = [t.arg(0) for t in sq if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.arg(0).eq(t.arg(1))]
            if len(ys_) == 3:
                facts += [Implies(And(s != 0, sum([y * y for y in ys_], Q(0)) == s * s), sum([(y * es[0]) * (y * es[0]) for y in ys_], Q(0)) == d * d)]
    for s in ss:
        facts += lib.sqrt_facts(s.arg(0)) if z3.is_app(s) and s.decl().name() == 'sqrt' else []
    goal = u[0] * u[0] + u[1] * u[1] + u[2] * u[2] == d * d
    X.obls.append(core.Obl('a draw has the requested length', X.hyps() + facts, goal, X.line, 'post'))


def perturb(v):
    X = v.X
    c, l, n, fp, fn = cell(v)
    d = X.const('d', R)
    X.assume(d >= 0)
    moves = []

    def draw(X_, f, args):
        # the contract of a recursive draw: some vector of the wanted length
        w = [X_.fresh('draw', R) for _ in range(3)]
        X_.define(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] == d * d)
        return models.mkarr(X_, (3,), lambda q: w[q] if isinstance(q, int) else z3.If(zv(q) == 0, w[0], z3.If(zv(q) == 1, w[1], w[2])))
    X.opts['recursion'] = draw
    TS = MC + '.translate_sites'

    def translate_c(X_, self_, i, vector):
        """the contract of translate_sites (its own unit)"""
        moves.append(X_.binders())
        u = row(X_, vector)
        s = X_.at(X_.tree_of(self_), i)
        p = X_.getattr(s, 'position')
        X_.safety(And(zv(i) >= 0, zv(i) < n), 'a site of the cell')
        ns = [X_.fresh('moved', R) for _ in range(3)]
        for j in range(3):
            X_.define(l.cart(ns, j) == l.cart(list(p), j) + real(u[j]))
        moves[-1] = moves[-1][-1:] + [u]
        length(X_, u, d)
        X_.setattr(s, 'position', tuple(ns))
    X.contracts[TS] = translate_c
    X.call(X.getattr(c, 'perturb'), [d])
    if not moves:
        raise Unsupported('sites are not moved by translate_sites')
    pl = X.getattr(c, 'positions')
    i = X.const('i')
    X.push(i, [i >= 0, i < n])
    p1, p0 = row(X, pl, i), fp(i)
    if len(moves[-1]) != 2:
        raise Unsupported('sites are not moved in a loop')
    k, u = moves[-1]
    for j in range(3):
        X.oblige('every site moves by its draw, coordinate %d' % j, l.cart(p1, j) == l.cart(p0, j) + sub(real(u[j]), [(k, i)]))
    X.pop()
    unchanged(X, c, l, n, fn)


UNITS = [('ModifiedCell.get_cartesian_from_frac, get_frac_from_cart', conversions), ('GeneralCell.get_cartesian', cartesian),
         ('ModifiedCell.translate_sites', translate), ('ModifiedCell.perturb', perturb)]
