"""C07: equality of superlattices, and the reduction by it."""
from common_c import *

ASSUMPTIONS = ['spglib.get_symmetry: the rotations are integer matrices and the inverse of each is among them (a group)',
               'floats are exact reals; the volume is below 2000 (the rounding to three decimals counts as exact below it)',
               'a sublattice contained in another one of the same volume is equal to it; so the criterion below is the action of a group and an equivalence',
               'np.linalg.inv returns the inverse matrix, which is unique']
SLC = 'ababe.stru.grid.SuperLatticeCell'
Q = z3.RealVal


def real(x):
    return z3.ToReal(x) if is_z(x) and x.sort() == I else zv(x) if is_z(x) else Q(x)


def rnd(V, P, e):
    """rounding to three decimals decides integrality of P / V"""
    r = lib.round_half_even(e * 1000)
    x = z3.ToReal(r) / 1000
    return Implies(And(V >= 1, V < 2000, real(P) == real(V) * e), Iff(z3.IsInt(x), P % V == 0))


class Pair(object):
    """two Hermite normal forms of one volume, the inverse of the first, a group of rotations"""
    def __init__(self, X):
        self.X = X
        V = self.V = X.const('V')
        X.assume(And(V >= 1, V < 2000))
        self.H = []
        for t in '12':
            a, b, c, d, e, f = [X.const(s + t) for s in 'abcdef']
            X.assume(And(a >= 1, c >= 1, f >= 1, b >= 0, b < c, d >= 0, d < f, e >= 0, e < f, V == a * c * f))
            self.H.append([[a, b, d], [0, c, e], [0, 0, f]])
        self.inv0 = []
        for t, M in zip('12', self.H):
            w = [[X.const('w%s%d%d' % (t, i, j), R) if i <= j else 0 for j in range(3)] for i in range(3)]
            fs = []
            for i in range(3):
                for j in range(i, 3):
                    one = Q(1 if i == j else 0)
                    fs.append(sum([real(M[i][q]) * w[q][j] for q in range(i, j + 1)], Q(0)) == one)
                    fs.append(sum([w[i][q] * real(M[q][j]) for q in range(i, j + 1)], Q(0)) == one)
            for f in fs:
                X.define(f)
            self.inv0.append(w)
        self.G = X.const('M')
        X.assume(self.G >= 1)
        self.rot = X.func('rot', [I, I, I], I)
        self.inv = X.func('inv', [I], I)
        m = z3.Int('m')
        X.assume(All([m], Implies(And(m >= 0, m < self.G), And(self.inv(m) >= 0, self.inv(m) < self.G, self.inv(self.inv(m)) == m)), [self.inv(m)]))

    def scaled(self, t):
        """V times the inverse, entry by entry: the adjugate"""
        (a, b, d), (_, c, e), (_, _, f) = self.H[t]
        return [[c * f, -b * f, b * e - c * d], [0, a * f, -a * e], [0, 0, a * c]]

    def sym(self, X, *args, **kw):
        m, i, j = X.const('m'), X.const('i'), X.const('j')
        rots = X.arr(Lam((self.G, 3, 3), (m, i, j), self.rot(m, i, j)))
        tr = X.arr(Lam((self.G, 3), (m, i), X.func('tran', [I, I], R)(m, i)))
        return X.alloc('dict', Cat([Unit(('rotations', rots)), Unit(('translations', tr))]))

    def arr(self, t):
        M = self.H[t]
        return models.mkarr(self.X, (3, 3), lambda i, j: M[i][j] if isinstance(i, int) and isinstance(j, int) else models._sel(self.X, M, i, j))

    def inverse(self, X, a):
        lam = to_lam(X, a)
        if tuple(lam.dims) != (3, 3):
            raise Unsupported('inverse of another matrix')
        m = [[zv(lget(X, lam, (i, j))) for j in range(3)] for i in range(3)]
        for t in (0, 1):
            if all(z3.simplify(real(m[i][j]) == real(self.H[t][i][j])).eq(z3.BoolVal(True)) for i in range(3) for j in range(3)):
                w = self.inv0[t]
                return models.mkarr(X, (3, 3), lambda i, j: w[i][j] if isinstance(i, int) and isinstance(j, int) else models._sel(X, w, i, j))
        e = z3.simplify(m[0][0])
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            e = e.arg(0)
        if z3.is_app(e) and e.decl().eq(self.rot(0, 0, 0).decl()):
            g = e.arg(0)
            for tr in (False, True):
                if all(z3.simplify(real(m[i][j]) == real(self.rot(g, j, i) if tr else self.rot(g, i, j))).eq(z3.BoolVal(True))
                       for i in range(3) for j in range(3)):
                    r = self.rot
                    return models.mkarr(X, (3, 3), lambda i, j: z3.ToReal(r(self.inv(g), zv(j), zv(i)) if tr else r(self.inv(g), zv(i), zv(j))))
        raise Unsupported('inverse of another matrix')

    def entry(self, m, i, j):
        """numerator over V of entry i, j of  H2 r^T H1^-1"""
        H2, adj = self.H[1], self.scaled(0)
        s = 0
        for q in range(3):
            n = sum([H2[i][p] * self.rot(m, z3.IntVal(q), z3.IntVal(p)) for p in range(3) if not isinstance(H2[i][p], int)], z3.IntVal(0))
            if not isinstance(adj[q][j], int):
                s = s + n * adj[q][j]
        return s

    def quot(self, m, i, j):
        H2, w = self.H[1], self.inv0[0]
        s = Q(0)
        for q in range(3):
            n = sum([H2[i][p] * self.rot(m, z3.IntVal(q), z3.IntVal(p)) for p in range(3) if not isinstance(H2[i][p], int)], z3.IntVal(0))
            if is_z(w[q][j]):
                s = s + z3.ToReal(n) * w[q][j]
        return s

    def carried(self, m):
        """rotation m carries the second sublattice into the first"""
        return And([self.entry(m, i, j) % self.V == 0 for i in range(3) for j in range(3)])


def arith(v):
    X = v.X
    V, P = ints('V', 'P')
    e = z3.Real('e')
    k = z3.Int('k')
    u = z3.Real('u')
    lemma0(X, 'a small multiple', [V, u], Implies(And(V >= 1, V < 2000, u <= Q('1/2000'), u >= Q('-1/2000')), And(real(V) * u < 1, real(V) * u > -1)))
    lemma0(X, 'a multiple', [V, P, k], Implies(And(V >= 1, P == V * k), P % V == 0))
    lemma0(X, 'a quotient', [V, P, e], Implies(And(V >= 1, P % V == 0, real(P) == real(V) * e), e == z3.ToReal(P / V)))
    r = lib.round_half_even(e * 1000)
    x = z3.ToReal(r) / 1000
    k = z3.ToInt(x)
    u = e - z3.ToReal(k)
    h0 = [V >= 1, V < 2000, real(P) == real(V) * e]
    X.obls.append(core.Obl('lemma rounding, near', h0 + [z3.IsInt(x)], And(u <= Q('1/2000'), u >= Q('-1/2000')), 'contracts', 'lemma'))
    X.obls.append(core.Obl('lemma rounding, nearest', h0 + [real(V) * u < 1, real(V) * u > -1, real(V) * u == real(V) * e - real(V) * z3.ToReal(k)],
                           P == V * k, 'contracts', 'lemma'))
    X.obls.append(core.Obl('lemma rounding, product', h0, real(V) * u == real(V) * e - real(V) * z3.ToReal(k), 'contracts', 'lemma'))
    X.obls.append(core.Obl('lemma rounding, only integers', h0 + [Implies(z3.IsInt(x), P == V * k), Implies(P == V * k, P % V == 0)],
                           Implies(z3.IsInt(x), P % V == 0), 'contracts', 'lemma'))
    X.obls.append(core.Obl('lemma rounding, all integers', h0 + [Implies(P % V == 0, e == z3.ToReal(P / V))],
                           Implies(P % V == 0, z3.IsInt(x)), 'contracts', 'lemma'))
    p = Pair(X)
    for t in (0, 1):
        w, s = p.inv0[t], p.scaled(t)
        for i in range(3):
            for j in range(i, 3):
                X.oblige('adjugate of matrix %d, entry %d, %d' % (t, i, j), real(p.V) * w[i][j] == real(s[i][j]), 'lemma')
    for i in range(3):
        for j in range(i, 3):
            X.define(real(p.V) * p.inv0[0][i][j] == real(p.scaled(0)[i][j]))
    n = [X.const('n') for _ in range(3)]
    w, s = p.inv0[0], p.scaled(0)
    for j in range(3):
        X.oblige('numerators of a row, column %d' % j, real(sum([n[q] * s[q][j] for q in range(j + 1)], z3.IntVal(0))) ==
                 real(p.V) * sum([real(n[q]) * w[q][j] for q in range(j + 1)], Q(0)), 'lemma')


def equality(v):
    X = v.X
    X.opts['nosortfacts'] = True
    p = Pair(X)
    asked = []

    def symm(X_, cell, *a, **k):
        asked.append(And([same_arr(X_, cell[q], X_.getattr(c, nm)) for q, nm in enumerate(('lattice', 'positions', 'numbers'))]))
        return p.sym(X_)
    X.hooks[('lib', 'spglib.get_symmetry')] = symm
    X.hooks[('lib', 'numpy.linalg.inv')] = p.inverse
    c, n = parent_cell(v)
    s1, s2 = v.real_obj(SLC, [c, p.arr(0)]), v.real_obj(SLC, [c, p.arr(1)])
    r = fb(X.truth(X.call(X.getattr(s1, '__eq__'), [s2])))
    if not (z3.is_quantifier(r) and r.is_exists() and r.num_vars() == 1):
        raise Unsupported('not a search over the rotations')
    m = X.const('m')
    X.push(m, [])
    body = z3.substitute_vars(r.body(), m)
    t = p.inv(m) if uses(body, p.inv(0).decl()) else m
    dom = And(m >= 0, m < p.G)
    facts = []
    for i in range(3):
        for j in range(3):
            P, e = p.entry(t, i, j), p.quot(t, i, j)
            facts += [real(P) == real(p.V) * e, rnd(p.V, P, e)]
    hy = X.hyps() + facts
    for i in range(3):
        for j in range(3):
            X.obls.append(core.Obl('equal implies carried over, entry %d %d' % (i, j), hy, Implies(body, p.entry(t, i, j) % p.V == 0), X.line, 'post'))
    X.obls.append(core.Obl('equal implies that the operation is one of the group', hy, Implies(body, dom), X.line, 'post'))
    X.obls.append(core.Obl('carried over implies equal', hy, Implies(And(dom, p.carried(t)), body), X.line, 'post'))
    # the inverse runs over the whole group
    X.oblige('every operation is considered', Implies(dom, And(p.inv(m) >= 0, p.inv(m) < p.G, p.inv(p.inv(m)) == m)))
    X.pop()
    X.oblige('the matrices are untouched', And([same_arr(X, X.getattr(s, 'lat_coeff'), p.arr(k)) for k, s in enumerate((s1, s2))]))
    X.oblige('the symmetry asked for is that of the parent', And(asked) if asked else False)


def uses(e, decl):
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t) and t.decl().eq(decl):
            return True
        todo.extend(t.children())
    return False


def reduction(gen):
    def run(v):
        X = v.X
        X.opts['nosortfacts'] = True
        c, n = parent_cell(v)
        K, N = X.const('K'), X.const('n')
        X.assume(K >= 0, ), X.assume(N >= 1)
        rel = X.func('carried', [I, I], B)
        i, j, k = ints('i', 'j', 'k')
        X.assume(All([i], rel(i, i), [rel(i, i)]))
        X.assume(All([i, j], rel(i, j) == rel(j, i), [rel(i, j)]))
        X.assume(All([i, j, k], Implies(And(rel(i, j), rel(j, k)), rel(i, k)), [z3.MultiPattern(rel(i, j), rel(j, k))]))
        cls = v.get(SLC)
        g = v.get('ababe.stru.grid.' + gen)

        def dups(X_, cls_, cell, m):
            if not (same(cell, c) and same(m, N)):
                raise Unsupported('another enumeration')
            q = X_.const('q')
            X_.push(q, [q >= 0, q < K])
            o = X_.alloc('obj', {'ix': q}, cls)
            X_.pop()
            return X_.newlist(For(q, K, Unit(o)))
        X.contracts['ababe.stru.grid.%s.hnfs_from_n_dups' % gen] = dups
        X.contracts[SLC + '.__eq__'] = lambda X_, a, b: rel(X_.getattr(a, 'ix'), X_.getattr(b, 'ix'))
        res = v.cls_call('ababe.stru.grid.' + gen, 'hnfs_from_n', [c, N])
        ls = leaves(X, X.tree_of(res))
        if len(ls) != 1 or len(ls[0][0]) != 1:
            raise Unsupported('the reduced list is not one filtered pass')
        ks, dom, o = ls[0]
        k = ks[0]
        E = lambda t: sub(fb(dom), [(k, zv(t))])
        a, b = X.const('a'), X.const('b')
        X.oblige('an entry is the superlattice of its place in the enumeration', All([k], Implies(dom, And(k >= 0, k < K, X.getattr(o, 'ix') == k))))
        X.oblige('no two entries are of one class', All([a, b], Implies(And(E(a), E(b), a < b), Not(rel(a, b)))))
        X.oblige('what is left out is of the class of an earlier entry',
                 All([b], Implies(And(b >= 0, b < K, Not(E(b))), Ex([a], And(a >= 0, a < b, E(a), rel(a, b))))))
        X.oblige('the first of every class is kept',
                 All([b], Implies(And(b >= 0, b < K, All([a], Implies(And(a >= 0, a < b), Not(rel(a, b))))), E(b))))
    return run


UNITS = [('arithmetic', arith), ('SuperLatticeCell.__eq__', equality),
         ('SuperLatticeGenerator.hnfs_from_n', reduction('SuperLatticeGenerator')),
         ('SuperLatticeGenerator2D.hnfs_from_n', reduction('SuperLatticeGenerator2D'))]
