"""C06: Hermite normal forms, each exactly once."""
from common_c import *

ASSUMPTIONS = ['int(n**0.5) is the integer square root (floats are treated as exact reals; true of IEEE doubles for n < 2**52)',
               'building a SuperLatticeCell stores the matrix it is given (its own contract, see C07/C08)']


def slat_stub(X, cls, unit, coeff):
    return X.alloc('obj', {'lat_coeff': coeff}, cls)


def mat(X, v):
    m = to_lam(X, X.getattr(v, 'lat_coeff'))
    if tuple(m.dims) != (3, 3):
        raise Unsupported('superlattice matrix is not 3 x 3')
    return [[lget(X, m, (i, j)) for j in range(3)] for i in range(3)]


def div_lemma(m, x, r):
    """divisors of m around its integer square root r"""
    q = m / x
    return [Implies(And(x >= 1, m % x == 0), And(m == x * q, q >= 1)),
            Implies(And(x >= 1, q >= 1, m == x * q), And(m % q == 0, m / q == x, Or(x * x <= m, q * q <= m))),
            Implies(And(x >= 1, x * x <= m), x <= r), Implies(And(q >= 1, q * q <= m), q <= r)]


def arith(X):
    m, x, r = ints('m', 'x', 'r')
    S = z3.Real('S')
    for i, f in enumerate(div_lemma(m, x, r)):
        lemma0(X, 'divisors and the square root (%d)' % i, [m, x, r], Implies(And(m >= 1, r >= 0, r * r <= m, m < (r + 1) * (r + 1)), f))
    lemma0(X, 'integer part of the square root', [m, S], Implies(And(m >= 0, S >= 0, S * S == z3.ToReal(m)), And(
        z3.ToInt(S) >= 0, z3.ToInt(S) * z3.ToInt(S) <= m, m < (z3.ToInt(S) + 1) * (z3.ToInt(S) + 1))))
    for i, f in enumerate(div_facts([(m, x)])):
        lemma0(X, 'quotients of divisors', [m, x], f)
    a, c, f = ints('a', 'c', 'f')
    for i, g in enumerate(prod_facts(m, a, c, f)):
        lemma0(X, 'quotients of a product (%d)' % i, [m, a, c, f], Implies(And(a >= 1, c >= 1, f >= 1, m == a * (c * f)), g))


def prod_facts(n, a, c, f):
    return [And(n % a == 0, n / a == c * f), Implies(n / a == c * f, And((n / a) % c == 0, (n / a) / c == f)),
            Implies(f == 1, And(n % c == 0, n / c == a))]


def divisors(X, ks, p):
    """a set that is exactly the set of divisors of m is listed as such (checked)"""
    if len(ks) != 1 or ks[0].sort() != I:
        return None
    x = ks[0]
    cand, todo, seen = {}, [fb(p)], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MOD and not has_var(e.arg(0)) and has_var(e.arg(1)):
            cand[e.arg(0).get_id()] = e.arg(0)
        todo.extend(e.children())
    for m in cand.values():
        spec = And(x >= 1, m % x == 0)
        q = m / x
        r = z3.ToInt(lib.sqrtR(z3.ToReal(m)))
        i = X.const('i')
        facts = [m >= 1] + div_lemma(m, x, r) + [All([i], And(div_lemma(m, i, r)))]
        # all of these are instances of the arithmetic lemmas
        goal1 = Implies(spec, witnesses(p, [x, q, x - 1, q - 1]))
        goal2 = Implies(p, spec)
        base = facts
        ok = X.entails(m >= 1, 3000) and all(quick(base, g) for g in (goal1, goal2))
        if ok:
            X.oblige('the set iterated is the set of divisors: m >= 1', m >= 1)
            X.obls.append(core.Obl('the set iterated contains every divisor', [fb(f) for f in base], goal1, X.line))
            X.obls.append(core.Obl('the set iterated contains divisors only', [fb(f) for f in base], goal2, X.line))
            X.define(m >= 1)
            return spec
    return None


def has_var(e):
    if z3.is_var(e):
        return True
    if z3.is_quantifier(e):
        return False
    return any(has_var(c) for c in e.children())


def unit(dim):
    qual = 'ababe.stru.grid.SuperLatticeGenerator' + ('' if dim == 3 else '2D')

    def run(v):
        X = v.X
        X.contracts['ababe.stru.grid.SuperLatticeCell'] = slat_stub
        X.hooks['setpred'] = divisors
        n = X.const('n')
        X.assume(n >= 1)
        arith(X)
        u = X.alloc('obj', {}, None, meta={'views': {}})
        res = v.cls_call(qual, 'hnfs_from_n_dups', [u, n])
        t = X.tree_of(res)
        a, b, c, d, e, f = [X.const(q) for q in 'abcdef']

        def spec(a, b, c, d, e, f):
            if dim == 2:
                return And(a >= 1, c >= 1, f == 1, d == 0, e == 0, a * c == n, b >= 0, b < c)
            return And(a >= 1, c >= 1, f >= 1, a * (c * f) == n, b >= 0, b < c, d >= 0, d < f, e >= 0, e < f)
        for i, (ks, dom, val) in enumerate(leaves(X, t)):
            m = mat(X, val)
            post = And(eq(X, m[1][0], 0), eq(X, m[2][0], 0), eq(X, m[2][1], 0),
                       spec(*[zv(q) for q in (m[0][0], m[0][1], m[1][1], m[0][2], m[1][2], m[2][2])]))
            fs = div_facts(div_pairs(And(dom, post)))
            X.oblige('every matrix listed is a Hermite normal form of determinant n%s' % (' (%d)' % i if i else ''),
                     Implies(And([dom] + fs), post))
        want = [[a, b, d], [0, c, e], [0, 0, f]]

        def is_it(val):
            m = mat(X, val)
            return And([eq(X, m[i][j], want[i][j]) for i in range(3) for j in range(3)])
        goal = X.member(t, is_it)
        hy = [spec(a, b, c, d, e, f)] + prod_facts(n, a, c, f)
        X.oblige('every Hermite normal form of determinant n is listed', Implies(And(hy), witnesses(goal, [a, n / a, c, f])))
        for i, (ks, dom, val) in enumerate(leaves(X, t)):
            for j, (ks2, dom2, val2) in enumerate(leaves(X, t)):
                if j < i:
                    continue
                m, m2 = mat(X, val), mat(X, val2)
                sm = And([eq(X, m[p][q], m2[p][q]) for p in range(3) for q in range(3)])
                X.oblige('no matrix is listed twice%s' % (' (%d,%d)' % (i, j) if i + j else ''),
                         Implies(And(dom, dom2, sm), And([p == q for p, q in zip(ks, ks2)]) if i == j else False))
    return run


UNITS = [('grid.SuperLatticeGenerator.hnfs_from_n_dups', unit(3)), ('grid.SuperLatticeGenerator2D.hnfs_from_n_dups', unit(2))]
