"""C05: the site permutations of a cell are what its symmetry operations do to the sites."""
import z3
from vals import *
import core, lib, models
from lib import lget, to_lam, eq
from common_c import *

ASSUMPTIONS = ['spglib.get_symmetry: every operation carries every atom, to within a tolerance in each fractional coordinate and modulo '
               'lattice translations, onto an atom of the same element, different atoms onto different atoms; no two atoms of a cell '
               'are within four times that tolerance of each other in all coordinates (modulo lattice translations)',
               'for the identity and the closure: the operations are exact, contain the identity and are closed under composition '
               'modulo lattice translations, as spglib documents (a space group)']


def around_int(y):
    return z3.ToReal(lib.round_half_even(y))


def absz(t):
    return z3.If(t >= 0, t, -t)


def biggest(ts):
    m = absz(ts[0])
    for t in ts[1:]:
        m = z3.If(absz(t) > m, absz(t), m)
    return m


# the ways to say which atom is nearest
SIZES = [lambda ts: sum(t * t for t in ts), lambda ts: sum(absz(t) for t in ts), biggest]


class Ops(object):
    """the symmetry operations of a cell, as spglib's contract gives them"""
    def __init__(self, v):
        X = self.X = v.X
        self.cell, self.n = parent_cell(v)
        self.M = X.const('M')
        self.eps = X.const('eps', R)
        X.assume(And(self.M >= 1, self.eps > 0))
        self.rot = X.func('rot', [I, I, I], I)
        self.tr = X.func('tran', [I, I], R)
        self.s = X.func('moves', [I, I], I)
        self.si = X.func('from', [I, I], I)
        self.z = X.func('whole', [I, I, I], I)
        self.axis = X.func('axis', [I, I], I)
        self.lp = to_lam(X, X.getattr(self.cell, 'positions'))
        self.ln = to_lam(X, X.getattr(self.cell, 'numbers'))
        self.asked = []
        X.hooks[('lib', 'spglib.get_symmetry')] = self.symmetry
        m, k = z3.Int('m'), z3.Int('k')
        dom = And(m >= 0, m < self.M, k >= 0, k < self.n)
        for f, g in ((self.s, self.si), (self.si, self.s)):
            X.assume(All([m, k], Implies(dom, And(f(m, k) >= 0, f(m, k) < self.n, g(m, f(m, k)) == k)), [f(m, k)]))

    def symmetry(self, X, cell, *a, **k):
        c = self.cell
        self.asked.append(And([same_arr(X, cell[q], X.getattr(c, nm)) for q, nm in enumerate(('lattice', 'positions', 'numbers'))]))
        m, i, j = X.const('m'), X.const('i'), X.const('j')
        rots = X.arr(Lam((self.M, 3, 3), (m, i, j), self.rot(m, i, j)))
        tr = X.arr(Lam((self.M, 3), (m, i), self.tr(m, i)))
        return X.alloc('dict', Cat([Unit(('rotations', rots)), Unit(('translations', tr))]))

    def x(self, i, c):
        return zv(lget(self.X, self.lp, (zv(i), c)))

    def num(self, i):
        return zv(lget(self.X, self.ln, (zv(i),)))

    def image(self, m, j, c):
        return sum([z3.ToReal(self.rot(m, c, q)) * self.x(j, q) for q in range(3)], z3.RealVal(0)) + self.tr(m, c)

    def sends(self, m, j, eps=None):
        """operation m carries atom j onto atom s(m, j)"""
        eps = self.eps if eps is None else eps
        i = self.s(m, j)
        d = [self.image(m, j, c) - self.x(i, c) - z3.ToReal(self.z(m, j, c)) for c in range(3)]
        return And([self.num(i) == self.num(j)] + [And(e <= eps, -e <= eps) for e in d])

    def apart(self, i, j, z=None, eps=None):
        """two atoms are apart along one of the axes, whatever the lattice translation"""
        eps = self.eps if eps is None else eps
        a = self.axis(i, j)

        def far(c):
            d = self.x(i, c) - self.x(j, c)
            if z is not None:
                return d - z3.ToReal(z[c]) != 0
            w = d - around_int(d)
            return Or(w > 4 * eps, -w > 4 * eps)
        return Implies(i != j, And(a >= 0, a < 3, *[Implies(a == c, far(c)) for c in range(3)]))


def instances(X, decls, terms):
    """instances at the given terms of the quantified facts about some symbols"""
    import itertools
    out = []
    for h in X.hyps():
        h = fb(h)
        if not any(d in symbols(h) for d in decls):
            continue
        todo = [h]
        while todo:
            f = todo.pop()
            if z3.is_quantifier(f) and f.is_forall():
                n = f.num_vars()
                for c in itertools.product(terms, repeat=n):
                    if all(f.var_sort(q) == c[q].sort() for q in range(n)):
                        b = z3.substitute_vars(f.body(), *reversed(c))
                        todo.append(b)
            elif z3.is_implies(f) and z3.is_quantifier(f.arg(1)):
                q = f.arg(1)
                for c in itertools.product(terms, repeat=q.num_vars()):
                    todo.append(z3.Implies(f.arg(0), z3.substitute_vars(q.body(), *reversed(c))))
            else:
                out.append(f)
    return out


def table(v):
    X = v.X
    o = Ops(v)
    tab = X.call(X.getattr(o.cell, 'get_symmetry_permutation'), [])
    X.oblige('the symmetry is that of the cell', And([fb(a) for a in o.asked]) if o.asked else False)
    t = X.tree_of(tab)
    ls = leaves(X, t)
    if len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('the table is not one entry per operation')
    ks, dom, a = ls[0]
    k0 = ks[0]
    X.oblige('one entry for every operation', All([k0], Iff(dom, And(k0 >= 0, k0 < o.M))))
    m, k = X.const('m'), X.const('k')
    X.push(m, [m >= 0, m < o.M])
    a = core.sub(a, [(k0, m)])
    la = to_lam(X, a)
    X.oblige('an entry lists every site', len(la.dims) == 1 and eq(X, la.dims[0], o.n))
    X.push(k, [k >= 0, k < o.n])
    p = zv(lget(X, la, (k,)))
    X.pop()
    X.pop()
    apps = symbols(p)
    D = And(m >= 0, m < o.M, k >= 0, k < o.n)

    def ob(nm, hy, goal):
        X.obls.append(core.Obl(nm, [D] + [fb(h) for h in hy], fb(goal), X.line, 'post'))
    # an entry is a function of the site: it may say where the site goes, or where it comes from (the table is a group)
    for here, size in ((True, SIZES[0]), (False, SIZES[0]), (True, SIZES[1]), (False, SIZES[1]), (True, SIZES[2])):
        j = o.si(m, k) if here else o.s(m, k)
        inst = [f for f in instances(X, apps, [m, k, j]) if not z3.is_quantifier(f) and mentions(f, p)]
        inst += [Implies(D, And(j >= 0, j < o.n))]
        at = (lambda q, c: o.image(m, q, c) - o.x(k, c)) if here else (lambda q, c: o.image(m, k, c) - o.x(q, c))
        W = lambda q, c: (lambda y: y - around_int(y))(at(q, c))
        nearest = size([W(p, c) for c in range(3)]) <= size([W(j, c) for c in range(3)])
        if proves([D] + inst, nearest):
            break
    ob('entries are sites', inst, And(p >= 0, p < o.n))
    ob('an entry is the nearest site', inst, nearest)
    mover = (lambda q: q) if here else (lambda q: k)
    goes = lambda q: o.s(m, mover(q))
    target = (lambda q: k) if here else (lambda q: q)
    # about one coordinate: rounding finds the nearest lattice translation
    y, d, e, z = z3.Real('y'), z3.Real('d'), z3.Real('e'), z3.Int('z')
    r, r2 = z3.Int('r'), z3.Int('r2')
    T = z3.ToReal
    cases = lambda a, b: Or(a == b, T(a) >= T(b) + 1, T(a) <= T(b) - 1)
    half = lambda t, n: And(2 * (t - T(n)) <= 1, 2 * (T(n) - t) <= 1)
    within = lambda t, b: And(t <= b, -t <= b)
    beyond = lambda t, b: Or(t > b, -t > b)
    lemma0(X, 'rounding is within one half', [y], half(y, lib.round_half_even(y)))
    lemma0(X, 'whole numbers', [z, r], cases(z, r))
    lemma0(X, 'the rounded difference is the least', [y, z, r, e], Implies(And(cases(z, r), half(y, r), within(y - T(z), e)), within(y - T(r), e)))
    lemma0(X, 'far from any atom stays far', [y, d, z, r, r2, e],
           Implies(And(cases(r - z, r2), e > 0, half(y, r), half(d, r2), within(y - d - T(z), e), beyond(d - T(r2), 4 * e)), beyond(y - T(r), 3 * e)))
    E = o.eps
    near = lambda t, z: And(t - z3.ToReal(z) <= E, z3.ToReal(z) - t <= E)
    sj = z3.substitute(o.sends(m, mover(j)), (goes(j), target(j)))
    sp = o.sends(m, mover(p))
    for c in range(3):
        ob('the right atom is moved here, axis %d' % c, [sj], near(at(j, c), o.z(m, mover(j), c)))
        diff = at(p, c) - (o.x(goes(p), c) - o.x(target(p), c))
        ob('another atom is moved elsewhere, axis %d' % c, [sp], near(diff, o.z(m, mover(p), c)))
    w = [z3.Real('w%d' % q) for q in range(6)]
    small = And([And(q <= e, -q <= e) for q in w[3:]])
    far = Or([Or(q > 3 * e, -q > 3 * e) for q in w[:3]])
    lemma0(X, 'the nearest atom', w + [e], Implies(And(e > 0, size(w[:3]) <= size(w[3:]), small), Not(far)))
    # w0..2: the entry's distance along the axes, w3..5: the right atom's; u: between the atoms
    u = [z3.Real('u%d' % q) for q in range(3)]
    ax, same_site = o.axis(goes(p), target(p)), goes(p) == target(p)
    apart = Or(same_site, And(ax >= 0, ax < 3, *[Implies(ax == c, Or(u[c] > 4 * E, -u[c] > 4 * E)) for c in range(3)]))
    facts = [And(p >= 0, p < o.n), E > 0, apart, o.si(m, o.s(m, p)) == p]
    for c in range(3):
        facts += [w[3 + c] <= E, -w[3 + c] <= E, Implies(Or(u[c] > 4 * E, -u[c] > 4 * E), Or(w[c] > 3 * E, -w[c] > 3 * E))]
    facts.append(Not(z3.substitute(far, (e, E))))
    ob('an entry is the site the operation moves here', facts, p == j)
    ob('of the same element', [o.sends(m, mover(j)), goes(j) == target(j), p == j], o.num(p) == o.num(k))
    return o


def group(v):
    """the table of exact operations, closed under composition: a group"""
    X = v.X
    o = Ops(v)
    T = z3.ToReal
    comp, w, e = X.func('comp', [I, I], I), X.func('shift', [I, I, I], I), X.const('e')
    m1, m2, j, q = X.const('m1'), X.const('m2'), X.const('j'), X.const('q')
    c = comp(m1, m2)
    inm = lambda m: And(m >= 0, m < o.M)
    D = [inm(m1), inm(m2), inm(c), j >= 0, j < o.n]
    exact = lambda m, j: [o.image(m, j, a) == o.x(o.s(m, j), a) + T(o.z(m, j, a)) for a in range(3)]

    def ob(nm, hy, goal, kind='post'):
        X.obls.append(core.Obl(nm, [fb(h) for h in hy], fb(goal), X.line, kind))
    # composition: rot(c) = rot(m1) rot(m2), tran(c) = rot(m1) tran(m2) + tran(m1) + whole
    comps = [o.rot(c, a, b) == sum(o.rot(m1, a, q_) * o.rot(m2, q_, b) for q_ in range(3)) for a in range(3) for b in range(3)]
    comps_t = [o.tr(c, a) == sum(T(o.rot(m1, a, q_)) * o.tr(m2, q_) for q_ in range(3)) + o.tr(m1, a) + T(w(m1, m2, a)) for a in range(3)]
    k, both = o.s(m2, j), o.s(m1, o.s(m2, j))
    whole = [w(m1, m2, a) - o.z(c, j, a) + o.z(m1, k, a) + sum(o.rot(m1, a, q_) * o.z(m2, j, q_) for q_ in range(3)) for a in range(3)]
    for a in range(3):
        r1 = [z3.Int('r%d' % b) for b in range(3)]
        r2 = [[z3.Int('s%d%d' % (b, d)) for d in range(3)] for b in range(3)]
        x = [z3.Real('x%d' % b) for b in range(3)]
        t2 = [z3.Real('t%d' % b) for b in range(3)]
        z2 = [z3.Int('zz%d' % b) for b in range(3)]
        t1, (w1, zc, z1) = z3.Real('t'), [z3.Int(b) for b in ('w', 'zc', 'z1')]
        second = [sum(T(r2[b][d]) * x[d] for d in range(3)) + t2[b] - T(z2[b]) for b in range(3)]
        lhs = sum(T(sum(r1[b] * r2[b][d] for b in range(3))) * x[d] for d in range(3)) + sum(T(r1[b]) * t2[b] for b in range(3)) + t1 + T(w1) - T(zc)
        rhs = sum(T(r1[b]) * second[b] for b in range(3)) + t1 - T(z1)
        vars_ = r1 + sum(r2, []) + x + t2 + z2 + [t1, w1, zc, z1]
        ident = lhs - rhs == T(w1 - zc + z1 + sum(r1[b] * z2[b] for b in range(3)))
        lemma0(X, 'composition of operations, axis %d' % a, vars_, ident)
        m = [(r1[b], o.rot(m1, a, b)) for b in range(3)] + [(r2[b][d], o.rot(m2, b, d)) for b in range(3) for d in range(3)] \
            + [(x[d], o.x(j, d)) for d in range(3)] + [(t2[b], o.tr(m2, b)) for b in range(3)] + [(z2[b], o.z(m2, j, b)) for b in range(3)] \
            + [(t1, o.tr(m1, a)), (w1, w(m1, m2, a)), (zc, o.z(c, j, a)), (z1, o.z(m1, k, a))]
        # the composed operation's image, and the image of the image
        ob('the composed operation, axis %d' % a, comps + [comps_t[a], exact(c, j)[a]], o.x(o.s(c, j), a) == z3.substitute(lhs, *m))
        ob('the image of the image, axis %d' % a, exact(m2, j) + [exact(m1, k)[a]], o.x(both, a) == z3.substitute(rhs, *m))
        ob('they differ by a lattice translation, axis %d' % a,
           [o.x(o.s(c, j), a) == z3.substitute(lhs, *m), o.x(both, a) == z3.substitute(rhs, *m), z3.substitute(ident, *m)],
           o.x(o.s(c, j), a) - o.x(both, a) - T(whole[a]) == 0)
    same_atom = o.s(c, j) == both
    ob('the composed operation moves an atom where the two do', D + [o.apart(o.s(c, j), both, whole)] +
       [o.x(o.s(c, j), a) - o.x(both, a) - T(whole[a]) == 0 for a in range(3)], same_atom)
    # in the table: entry m at site k is si(m, k)
    p = o.si(m2, o.si(m1, q))
    dom = And(inm(m1), inm(m2), inm(c), q >= 0, q < o.n)
    hy = X.hyps()
    ob('the table is closed under composition', hy + [dom, Implies(And(p >= 0, p < o.n), o.s(c, p) == o.s(m1, o.s(m2, p)))], o.si(c, q) == p)
    ident = [And([o.rot(e, a, b) == (1 if a == b else 0) for b in range(3)] + [o.tr(e, a) == 0]) for a in range(3)]
    ob('the identity moves no atom', D + ident + exact(e, j) + [o.apart(j, o.s(e, j), [o.z(e, j, a) for a in range(3)])], o.s(e, j) == j)
    ob('the identity is in the table', hy + [inm(e), q >= 0, q < o.n, o.s(e, q) == q], o.si(e, q) == q)


def proves(hyps, goal, s=12):
    """an obligation that decides between two readings of the code"""
    import prover, time
    j = prover.Job([fb(h) for h in hyps], fb(goal))
    j.solve(1.0, time.time() + s)
    return j.status == 'proved'


def mentions(f, t):
    todo, seen = [f], set()
    while todo:
        e = todo.pop()
        if e.eq(t):
            return True
        if e.get_id() not in seen:
            seen.add(e.get_id())
            todo += e.children()
    return False


def symbols(f):
    out, todo, seen = [], [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and e.decl() not in out:
            out.append(e.decl())
        todo += [e.body()] if z3.is_quantifier(e) else e.children()
    return out


UNITS = [('the table is a group', group), ('GeneralCell.get_symmetry_permutation', table)]
