"""C19: neighbours of a grid position."""
from common_c import *
import c21

ASSUMPTIONS = ['floats are exact reals', 'scipy cKDTree.query_ball_point lists the indices of the points within the distance (at most it), each once',
               'a grid position is a tuple of integers within the grid']
SC = 'ababe.stru.scaffold.'
SD = 'ababe.stru.scaffold2d.'


def neighbours(scls, gcls, k):
    def unit(v):
        X = v.X
        species_contract(v)
        X.opts['nosortfacts'] = True
        g, ds, f = c21.grid(v, gcls, k)
        m = [[X.const('m', R) for _ in range(k)] for _ in range(k)]
        rows = m
        s = v.real_obj(scls, [c21.pylist(X, rows), g])
        p0 = c21.under(X, ds, 'at')
        delta = X.const('delta', R)
        X.assume(delta >= 0)
        res = X.call(X.getattr(s, 'get_neighbors'), [tuple(p0), delta])
        ls = leaves(X, X.tree_of(res))
        q = [X.const('q') for _ in ds]
        inside = And([And(x >= 0, x < d) for x, d in zip(q, ds)])
        dist2 = sum(square(sum(z3.ToReal(q[a] - p0[a]) * m[a][j] for a in range(k))) for j in range(len(m[0])))
        want = And(inside, Or([x != y for x, y in zip(q, p0)]), dist2 <= delta * delta)
        X.push(q[0], [inside])
        got = fb(lib.contains(X, res, tuple(q)))
        # where the listing of the positions has this one
        at, eqs, listed, c = [], [], [], X.const('c')
        for n_, (L, rank, gs, dom, ks) in ((t[2], t[3]) for t in X.flatshapes):
            if n_ == k:
                r = rank(*q)
                at.append(r)
                listed.append(All([c], Implies(And(c >= 0, c < L), sub(fb(dom), [(x, gq(c)) for x, gq in zip(ks, gs)]))))
                eqs += [(gq(r), x) for gq, x in zip(gs, q)]
                X.oblige('a position is listed where its rank says', Implies(want, And(r >= 0, r < L, *[e == x for e, x in eqs[-k:]])))
        goal = z3.substitute(fb(witnesses(z3.simplify(got), at + q)), *eqs)
        # roots compare as their squares
        x_, d_, r_ = z3.Reals('x d r')
        root = Implies(And(r_ >= 0, r_ * r_ == x_, d_ >= 0), (r_ <= d_) == (x_ <= d_ * d_))
        lemma0(X, 'roots compare as squares', [x_, d_, r_], root)
        roots = []
        for e in apps(goal, 'sqrt'):
            sq = z3.simplify(e.arg(0), som=True, som_blowup=10000)
            ar = z3.FreshReal('square')
            goal = z3.substitute(goal, (e, ar))
            # a sum of squares is not negative, so its root is one
            roots += [Implies(sq >= 0, And(ar >= 0, ar * ar == sq, z3.substitute(root, (x_, sq), (d_, delta), (r_, ar)))), squares(z3.simplify(e.arg(0))) and sq >= 0]
        roots = [f for f in roots if f is not False]
        X.obls.append(core.Obl('a position in range is reported', roots + [z3.simplify(fb(want), som=True, som_blowup=10000), delta >= 0] + [And(x >= 0, x < d) for x, d in zip(p0, ds)] + [fb(Implies(want, And(r >= 0, r < t[3][0]))) for r, t in zip(at, X.flatshapes)],
                               z3.simplify(goal, som=True, som_blowup=10000), X.line, 'post'))
        X.obls.append(core.Obl('a position out of range is not', [z3.simplify(c, som=True, som_blowup=10000) for c in opened(got, q)] +
                               [And(x >= 0, x < d) for x, d in zip(p0, ds)] + listed, z3.simplify(fb(want), som=True, som_blowup=10000), X.line, 'post'))
        X.pop()
        for bs, dom, val in ls:
            X.oblige('only grid positions', All(bs, Implies(dom, And([And(zv(x) >= 0, zv(x) < d) for x, d in zip(val, ds)]))))
        X.oblige('the grid is not changed', c21.sizes(X, g, ds))
        c21.array_is(X, 'the grid is not changed', X.call(X.getattr(s, 'get_array'), []), ds, f)
        c21.pop(X, ds)
    return unit


def opened(f, q):
    """the conjuncts of a formula, its existentials named, the terms equal to q replaced by q"""
    out, todo = [], [z3.simplify(fb(f))]
    while todo:
        e = todo.pop()
        if z3.is_and(e):
            todo += e.children()
        elif z3.is_quantifier(e) and e.is_exists():
            todo.append(z3.substitute_vars(e.body(), *[z3.FreshConst(e.var_sort(i), 'w') for i in reversed(range(e.num_vars()))]))
        else:
            out.append(e)
    eqs = []
    for e in out:
        if z3.is_eq(e):
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if any(b.eq(x) for x in q) and not any(a.eq(x) for x in q):
                    eqs.append((a, b))
    return [z3.substitute(e, *eqs) if eqs else e for e in out] + [a == b for a, b in eqs]


def apps(f, name):
    out, todo, seen = [], [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() == name:
            out.append(e)
        todo += e.children()
    return out


def squares(e):
    """a sum of squares"""
    if z3.is_add(e):
        return all(squares(c) for c in e.children())
    if z3.is_mul(e):
        return e.num_args() == 2 and e.arg(0).eq(e.arg(1))
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        return z3.simplify(e.arg(1) == 2).eq(z3.BoolVal(True))
    return z3.is_rational_value(e) and e.as_fraction() >= 0


def square(x):
    return x * x


UNITS = [('CStru.get_neighbors', neighbours(SC + 'CStru', SC + 'SitesGrid', 3)),
         ('CStru2d.get_neighbors', neighbours(SD + 'CStru2d', SD + 'SitesGrid2d', 2))]

