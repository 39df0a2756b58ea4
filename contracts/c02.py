"""C02: substitution enumerates every choice of sites exactly once."""
from common_c import *
import c01

ASSUMPTIONS = ['itertools.combinations lists every n-element subset of the positions of its argument exactly once, as an increasing tuple',
               'the Wyckoff letters are those spglib reports, one per site',
               'generator bodies are run eagerly; interleaving of generators is covered by the bounded part only']


def pool_ob(X, rec, name, eligible, n):
    """the pool lists exactly the eligible sites, each once"""
    x, p, q = X.const('x'), X.const('p'), X.const('q')
    X.push(x, [])
    mem = X.member(rec.pool, lambda v: eq(X, v, x))
    X.pop()
    X.oblige('every site chosen from is eligible' + name, All([x], Implies(mem, And(x >= 0, x < n, eligible(x)))))
    X.oblige('every eligible site is chosen from' + name, All([x], Implies(And(x >= 0, x < n, eligible(x)), mem)))
    for k in (p, q):
        X.push(k, [k >= 0, k < zv(rec.plen)])
    a, b = X.at(rec.pool, p), X.at(rec.pool, q)
    d = eq(X, a, b)
    X.pop()
    X.pop()
    X.oblige('no site is chosen from twice' + name,
             All([p, q], Implies(And(p >= 0, p < zv(rec.plen), q >= 0, q < zv(rec.plen), d), p == q)))


def chosen(X, rec, c, i):
    """site i is among the sites of choice c"""
    j = X.const('j')
    X.push(j, [j >= 0, j < rec.n])
    s = X.at(rec.pool, rec.idx(c, j))
    X.pop()
    return Ex([j], And(j >= 0, j < rec.n, eq(X, s, i)))


def frame(X, p, before):
    X.oblige('the parent cell is not altered', And(*[lib.content_eq(X, to_lam(X, X.getattr(p, a)), b) for a, b in before.items()]))


def snap(X, p):
    return dict((a, X.data(X.getattr(p, a))) for a in ('lattice', 'positions', 'numbers'))


def single(name, mkargs, eligible):
    def run(v):
        X = v.X
        p, n, g, og = c01.setup(v)
        before = snap(X, p)
        cnt = c01.count(X)
        sp = c01.specie(X, 's')
        pn, _ = numbers_fn(X, p)
        args, elig = mkargs(X, g, pn, cnt, sp)
        res = X.call(X.getattr(og, name), args)
        ls = leaves(X, X.tree_of(res))
        if len(X.combs) != 1 or len(ls) != 1 or len(ls[0][0]) != 1:
            raise Unsupported('not one pass over the combinations')
        rec = X.combs[0]
        (c,), dom, cell = ls[0]
        i = X.const('i')
        X.oblige('as many sites are chosen as asked for', eq(X, rec.n, cnt))
        pool_ob(X, rec, '', elig, n)
        X.oblige('every choice gives exactly one structure', All([c], Iff(dom, And(c >= 0, c < rec.count))))
        fn, ln = numbers_fn(X, cell)
        X.oblige('one entry per site', All([c], Implies(dom, eq(X, ln, n))))
        X.push(c, [dom])
        ch = chosen(X, rec, c, i)
        X.pop()
        Z = X.getattr(sp, 'Z')
        X.oblige('the chosen sites carry the new element', All([c, i], Implies(And(dom, i >= 0, i < n, ch), fn(i) == Z)))
        X.oblige('all other sites keep their element', All([c, i], Implies(And(dom, i >= 0, i < n, Not(ch)), fn(i) == sub(pn(i), []))))
        X.oblige('lattice and positions are the parent\'s', All([c], Implies(dom, same_frame(X, cell, p))))
        frame(X, p, before)
    return run


def trinary(v):
    X = v.X
    p, n, g, og = c01.setup(v)
    before = snap(X, p)
    n1, n2 = c01.count(X), c01.count(X)
    s1, s2 = c01.specie(X, 's'), c01.specie(X, 't')
    pn, _ = numbers_fn(X, p)
    res = X.call(X.getattr(og, '_gen_dup_trinary_alloy'), [s1, n1, s2, n2])
    ls = leaves(X, X.tree_of(res))
    if len(X.combs) != 2 or len(ls) != 1 or len(ls[0][0]) != 2:
        raise Unsupported('not two nested passes over combinations %d %d %s' % (len(X.combs), len(ls), [len(q[0]) for q in ls]))
    r1, r2 = X.combs
    (c1, c2), dom, cell = ls[0]
    i = X.const('i')
    X.oblige('as many sites are chosen as asked for (first)', eq(X, r1.n, n1))
    X.oblige('as many sites are chosen as asked for (second)', eq(X, r2.n, n2))
    pool_ob(X, r1, ' (first)', lambda x: True, n)
    # the inner choice is indexed by the outer one
    m = [(c1, r2.binders[-1])]
    c1, dom, cell = r2.binders[-1], sub(dom, m), sub(cell, m)
    X.push(c1, [c1 >= 0, c1 < r1.count])
    r2c = r2
    pool_ob(X, r2c, ' (second)', lambda x: Not(chosen(X, r1, c1, x)), n)
    X.pop()
    X.oblige('every pair of choices gives exactly one structure',
             All([c1, c2], Iff(dom, And(c1 >= 0, c1 < r1.count, c2 >= 0, c2 < r2c.count))))
    fn, ln = numbers_fn(X, cell)
    X.oblige('one entry per site', All([c1, c2], Implies(dom, eq(X, ln, n))))
    X.push(c1, [c1 >= 0, c1 < r1.count])
    X.push(c2, [dom])
    h1, h2 = chosen(X, r1, c1, i), chosen(X, r2c, c2, i)
    X.pop()
    X.pop()
    din = And(dom, i >= 0, i < n)
    Z1, Z2 = X.getattr(s1, 'Z'), X.getattr(s2, 'Z')
    X.oblige('the two choices are disjoint', All([c1, c2, i], Implies(And(din, h1), Not(h2))))
    X.oblige('the first choice carries the first element', All([c1, c2, i], Implies(And(din, h1), fn(i) == Z1)))
    X.oblige('the second choice carries the second element', All([c1, c2, i], Implies(And(din, h2), fn(i) == Z2)))
    X.oblige('all other sites keep their element', All([c1, c2, i], Implies(And(din, Not(h1), Not(h2)), fn(i) == pn(i))))
    X.oblige('lattice and positions are the parent\'s', All([c1, c2], Implies(dom, same_frame(X, cell, p))))
    frame(X, p, before)


def wy_args(X, g, pn, cnt, sp):
    w = X.const('w', Item)
    return [w, cnt, sp], lambda x: g.wy(x) == w


def ele_args(X, g, pn, cnt, sp):
    e = c01.specie(X, 'e')
    return [e, cnt, sp], lambda x: pn(x) == X.getattr(e, 'Z')


UNITS = [
    ('OccupyGenerator.gen_dup_unitary', single('gen_dup_unitary', lambda X, g, pn, cnt, sp: ([cnt, sp], lambda x: True), None)),
    ('OccupyGenerator.gen_dup', single('gen_dup', wy_args, None)),
    ('OccupyGenerator.gen_dup_of_ele', single('gen_dup_of_ele', ele_args, None)),
    ('OccupyGenerator._gen_dup_trinary_alloy', trinary),
]
