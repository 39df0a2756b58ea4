"""Shared contract vocabulary."""
import z3
from vals import *
import core, lib, models
from lib import lget, to_lam, eq, cmp, is_arr


def dom_of(bs, gs):
    return And([And(k >= 0, k < zv(n)) for k, n in bs if n is not None] + list(gs))


def leaves(X, t):
    """[(binders, domain formula, value)]"""
    return [([k for k, n in bs], dom_of(bs, gs), v) for bs, gs, v in X.leaves(t)]


def ints(*names):
    return [z3.Int(n) for n in names]


def lemma(X, name, ks, f, patterns=()):
    """prove f for all ks on its own, then use it"""
    X.obls.append(core.Obl('lemma ' + name, [], z3.ForAll(list(ks), fb(f)) if ks else fb(f), 'contracts', 'lemma'))
    X.define(z3.ForAll(list(ks), fb(f), patterns=list(patterns)) if patterns else (z3.ForAll(list(ks), fb(f)) if ks else f))


def lemma0(X, name, ks, f):
    """a lemma proved once for all values; the contracts use its instances"""
    X.obls.append(core.Obl('lemma ' + name, [], z3.ForAll(list(ks), fb(f)), 'contracts', 'lemma'))


def witnesses(f, terms):
    import prover
    r = prover.witnesses(fb(f), terms)
    return fb(f) if r is None else r


def quick(hyps, goal, ms=3000):
    """entailment by the linear part of the hypotheses"""
    import prover
    t = prover.smt2_abs([fb(h) for h in hyps], fb(goal)) or prover.smt2([fb(h) for h in hyps], fb(goal))
    s = z3.Solver()
    s.set('timeout', ms)
    s.from_string(t)
    return s.check() == z3.unsat


def div_pairs(f):
    """ground pairs (A, B) with A % B or A / B in a formula, B not a numeral"""
    out, seen, var = {}, set(), {}

    def hv(e):
        if z3.is_var(e):
            return True
        if e.get_id() not in var:
            var[e.get_id()] = z3.is_quantifier(e) and hv(e.body()) or any(hv(c) for c in e.children())
        return var[e.get_id()]
    todo = [fb(f)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and not z3.is_int_value(e.arg(1)) and not hv(e):
            out[(e.arg(0).get_id(), e.arg(1).get_id())] = (e.arg(0), e.arg(1))
        todo.extend(e.children())
    return list(out.values())


def div_facts(pairs):
    """instances of: B >= 1 and B | A  ->  A = B * (A / B), the quotient is positive and divides A too"""
    out = []
    for A, Bq in pairs:
        q = A / Bq
        out.append(Implies(And(Bq >= 1, A % Bq == 0), And(A == Bq * q, Implies(A >= 1, And(q >= 1, A % q == 0, A / q == Bq)))))
        if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_IDIV:
            # substitution of equals
            p, x = A.arg(0), A.arg(1)
            out.append(Implies(And(p == x * A, A == Bq * q), p == x * (Bq * q)))
    return out


# ------------------------------------------------------------------ cells
GC = 'ababe.stru.scaffold.GeneralCell'
N_ = z3.Int('N')


def sym_arr(X, name, dims, sort):
    f = X.func(name, [I] * len(dims), sort)
    ps = [X.const('i') for _ in dims]
    return X.arr(Lam(dims, ps, f(*ps))), f


def parent_cell(v, facts=False):
    """an arbitrary cell: the real constructor run on arbitrary arrays"""
    X = v.X
    X.opts['nosortfacts'] = not facts
    n = X.const('N')
    X.assume(n >= 1)
    lat, _ = sym_arr(X, 'lat', (3, 3), R)
    pos, _ = sym_arr(X, 'pos', (n, 3), R)
    num, _ = sym_arr(X, 'num', (n,), I)
    return v.real_obj(GC, [lat, pos, num]), n


def cell_like(v, parent, n, nums):
    """a cell with the parent's lattice and positions and the given numbers"""
    X = v.X
    return v.real_obj(GC, [X.getattr(parent, 'lattice'), X.getattr(parent, 'positions'), nums])


def stream(v, parent, n, K, name='nums'):
    """a generator of K arbitrary occupations of the parent; (generator, numbers function)"""
    X = v.X
    f = X.func(name, [I, I], I)
    k = X.const('k')
    X.push(k, [k >= 0, k < K])
    i = X.const('i')
    c = cell_like(v, parent, n, X.arr(Lam((n,), (i,), f(k, i))))
    X.pop()
    return X.alloc('gen', Cat([For(k, K, Unit(c))])), f


class Group(object):
    """the site permutations of a cell, as its contract (C05) gives them"""
    def __init__(self, X, n):
        self.n = n
        self.M = X.const('M')
        self.e = X.const('e')
        self.perm = X.func('perm', [I, I], I)
        self.inv = X.func('inv', [I], I)
        self.comp = X.func('comp', [I, I], I)
        m, m2, i = ints('m', 'm2', 'i')
        p = self.perm
        inm, ini = And(m >= 0, m < self.M), And(i >= 0, i < n)
        X.assume(And(self.e >= 0, self.e < self.M))
        X.assume(All([m, i], Implies(And(inm, ini), And(p(m, i) >= 0, p(m, i) < n)), [p(m, i)]))
        X.assume(All([i], Implies(ini, p(self.e, i) == i), [p(self.e, i)]))
        X.assume(All([m], Implies(inm, And(self.inv(m) >= 0, self.inv(m) < self.M)), [self.inv(m)]))
        X.assume(All([m, i], Implies(And(inm, ini), And(p(self.inv(m), p(m, i)) == i, p(m, p(self.inv(m), i)) == i)),
                     [p(self.inv(m), i)]))
        inm2 = And(m2 >= 0, m2 < self.M)
        c = self.comp(m, m2)
        X.assume(All([m, m2], Implies(And(inm, inm2), And(c >= 0, c < self.M)), [c]))
        X.assume(All([m, m2, i], Implies(And(inm, inm2, ini), p(c, i) == p(m, p(m2, i))), [p(c, i)]))

    def listing(self, X):
        m, i = X.const('m'), X.const('i')
        X.push(m, [m >= 0, m < self.M])
        a = X.arr(Lam((self.n,), (i,), self.perm(m, i)))
        X.pop()
        return X.newlist(For(m, self.M, Unit(a)))


Letter = z3.DeclareSort('Letter')


def spglib_contracts(v, parent, n):
    """contracts of the symmetry analysis of one cell"""
    X = v.X
    g = Group(X, n)

    def perms(X_, cell, *a):
        if not same(cell, parent):
            raise Unsupported('symmetry of another cell')
        return g.listing(X_)
    X.contracts[GC + '.get_symmetry_permutation'] = perms
    wy = X.func('wyckoff', [I], Item)

    def wyck(X_, cell, *a):
        if not same(cell, parent):
            raise Unsupported('symmetry of another cell')
        k = X_.const('k')
        return X_.newlist(For(k, n, Unit(wy(k))))
    X.contracts[GC + '.get_wyckoffs'] = wyck
    g.wy = wy
    return g


def numbers_fn(X, cell):
    """element function of a cell's numbers and its length"""
    lam = to_lam(X, X.getattr(cell, 'numbers'))
    if len(lam.dims) != 1:
        raise Unsupported('numbers are not one-dimensional')
    return (lambda i: lget(X, lam, (i,))), lam.dims[0]


def same_arr(X, a, b):
    return lib.content_eq(X, to_lam(X, a), to_lam(X, b))


def same_frame(X, cell, parent):
    """lattice and positions are the parent's"""
    return And(same_arr(X, X.getattr(cell, 'lattice'), X.getattr(parent, 'lattice')),
               same_arr(X, X.getattr(cell, 'positions'), X.getattr(parent, 'positions')))


def place_of(X, terms):
    """instances of the listing facts: where the given binder values stand in every filtered listing with as many binders;
    [(place, facts)]"""
    out = []
    for scope, cn, nk, (L, rank, g, dom, ks) in X.flatshapes:
        if nk != len(terms) or scope:
            continue
        m = list(zip(ks, [zv(t) for t in terms]))
        r = rank(*[zv(t) for t in terms])
        out.append((r, Implies(sub(fb(dom), m), And(r >= 0, r < L, *[f(r) == zv(t) for f, t in zip(g, terms)]))))
    return out


def species_contract(v):
    """Specie.from_num (C16): a species with that number"""
    X = v.X
    EL = 'ababe.stru.element'
    a = X.data(v.real_obj(EL + '.Specie', ['Fe']))
    zs = [n for n, w in a.items() if isinstance(w, int) and w == 26]
    if len(zs) != 1:
        raise Unsupported('representation of a species')
    name, mass = X.func('symbol_of', [I], Item), X.func('mass_of', [I], R)

    def from_num(X_, z):
        if isinstance(z, int):
            return v.real_obj(EL + '.Specie', [[k for k, d in _table(v).items() if d['Atomic no'] == z][0]]) if z else v.real_obj(EL + '.GhostSpecie', [])
        d = {}
        for n, w in a.items():
            d[n] = z if n == zs[0] else name(zv(z)) if isinstance(w, str) else X_.func('sp_' + n, [I], R)(zv(z))
        return X_.alloc('obj', d, v.get(EL + '.Specie'))
    X.contracts[EL + '.Specie.from_num'] = from_num


def _table(v):
    import json, os
    from vf import REPO
    return json.load(open(os.path.join(REPO, 'ababe/stru/pt.json')))
