"""C03: level-by-level growth is complete, unique and right in composition."""
from common_c import *
import c01

ASSUMPTIONS = ['the permutation table is a group of permutations of the sites (C05); related sites have equal Wyckoff letters (spglib)',
               'xxh64 is injective on the number arrays compared, which have one dtype',
               'itertools.tee gives two streams with the elements of the argument; generator bodies are run eagerly '
               '(interleaved reading is covered by the bounded part only)',
               'induction over the levels: base and step are obligations, the principle itself is trusted']
OG = c01.OG


def add_one(name, mk):
    def run(v):
        X = v.X
        p, n, g, og = c01.setup(v)
        K = X.const('K')
        X.assume(K >= 0)
        gen, nums = stream(v, p, n, K)
        sp = c01.specie(X, 's')
        Z = X.getattr(sp, 'Z')
        extra, elig = mk(X, g, nums)
        res = X.call(X.getattr(og, name), [gen] + extra + [sp])
        ls = leaves(X, X.tree_of(res))
        if len(ls) != 1 or len(ls[0][0]) != 2:
            raise Unsupported('not one pass over structures and sites')
        (k, s), dom, cell = ls[0]
        k2, s2, i = X.const('k'), X.const('s'), X.const('i')
        at = lambda f, a, b: sub(f, [(k, a), (s, b)])
        can = lambda a, b: And(a >= 0, a < K, b >= 0, b < n, elig(a, b), nums(a, b) != Z)
        ext = lambda a, b, j: z3.If(j == b, Z, nums(a, j))
        fn, ln = numbers_fn(X, cell)
        din = And(i >= 0, i < n)
        X.oblige('an emitted structure differs by one eligible site', All([k, s], Implies(dom, can(k, s))))
        X.oblige('an emitted structure has the new element there and is the input elsewhere',
                 All([k, s, i], Implies(And(dom, din), fn(i) == ext(k, s, i))))
        X.oblige('one entry per site', All([k, s], Implies(dom, eq(X, ln, n))))
        X.oblige('lattice and positions are those of the input', All([k, s], Implies(dom, same_frame(X, cell, p))))
        dom2 = at(fb(dom), k2, s2)
        samec = All([i], Implies(din, ext(k, s, i) == ext(k2, s2, i)))
        X.oblige('no structure is emitted twice',
                 All([k, s, k2, s2], Implies(And(dom, dom2, samec), And(k == k2, s == s2))))
        X.oblige('every extension is emitted',
                 All([k, s], Implies(And(can(k, s), Not(dom)), Ex([k2, s2], And(dom2, samec)))))
    return run


def tok(X, v):
    t = X.tree_of(v)
    u = t.ts if isinstance(t, Cat) else (t,)
    return u[0].v if len(u) == 1 and isinstance(u[0], Unit) else None


def levels(name, addname, mk):
    """the levels are level(0) = the parent, level(k+1) = reduction of the one-atom extensions of level(k)"""
    def run(v):
        X = v.X
        p, n, g, og = c01.setup(v)
        sp = X.alloc('obj', {'Z': X.const('Z'), 'name': 'X'}, None)
        upto = X.const('n')
        extra = mk(X)
        def token(*t):
            return X.alloc('gen', Cat([Unit(t)]))

        def red(X_, self_, gen):
            t = tok(X_, gen)
            X_.iter_tree(gen)
            return token('red', t if same(self_, og) else None)

        def add(X_, self_, *a, **kw):
            f = X_.lookup(X_.obj(og).cls, addname)
            names = [q.arg for q in f.node.args.args][1:]
            d = dict(zip(names, a))
            d.update(kw)
            vals = [d[q] for q in names]
            t = tok(X_, vals[0])
            X_.iter_tree(vals[0])
            ok = same(self_, og) and all(same(x, y) for x, y in zip(vals[1:], extra + [sp]))
            return token('add', t if ok else None)
        n0 = X.const('n0')

        def cnt(X_, cell, s):
            if not (same(cell, p) and same(s, sp)):
                raise Unsupported('count of another cell or element')
            return n0
        X.assume(n0 >= 0)
        X.contracts.update({OG + '.gen_2nodup_gen': red, OG + '.' + addname: add, GC + '.get_speckle_num': cnt})
        found = []

        def carry(X_, loc, init, k):
            if not (isinstance(init, Ref) and X_.obj(init).kind == 'gen'):
                return None
            ok0 = same(tok(X_, init), p)

            def step(X2, kk, val):
                t = tok(X2, val)
                ok = isinstance(t, tuple) and t[0] == 'red' and isinstance(t[1], tuple) and t[1][0] == 'add' and \
                    isinstance(t[1][1], tuple) and t[1][1][0] == 'level' and t[1][1][1].eq(zv(kk))
                found.append((ok0, ok))
            return {'at': lambda kk: token('level', zv(kk)), 'step': step, 'after': lambda q: token('level', zv(q))}
        X.hooks['carry'] = carry
        res = X.call(X.getattr(og, name), [upto] + extra + [sp])
        ls = leaves(X, X.tree_of(res))
        if len(ls) != 1 or len(ls[0][0]) != 1 or not found:
            raise Unsupported('not one stream per level')
        (k,), dom, val = ls[0]
        t = tok(X, val)
        ok = isinstance(t, tuple) and t[0] == 'red' and isinstance(t[1], tuple) and t[1][0] == 'add' and \
            isinstance(t[1][1], tuple) and t[1][1][0] == 'level' and t[1][1][1].eq(k)
        X.oblige('growth starts from the parent alone', found[-1][0])
        X.oblige('the next level is the reduction of the one-atom extensions of the level before', found[-1][1])
        X.oblige('the stream handed out is that level', ok)
        X.oblige('one stream per added atom, up to the requested number',
                 All([k], Iff(dom, And(k >= 0, k < upto - n0))))
    return run


def induction(v):
    """if level(k) represents every class of S(k) once, so does level(k+1) for S(k+1)"""
    X = v.X
    n = X.const('N')
    X.assume(n >= 1)
    g = Group(X, n)
    i, m, m2, s, t = ints('i', 'm', 'm2', 's', 't')
    Z = X.const('Z')
    Occ = z3.DeclareSort('Occ')
    f = z3.Function('occ', Occ, I, I)
    a, b, c, d = z3.Consts('a b c d', Occ)
    inm = lambda q: And(q >= 0, q < g.M)
    by = lambda x, y, q: And(inm(q), All([i], Implies(And(i >= 0, i < n), f(x, g.perm(q, i)) == f(y, i))))
    for nm, elig, inv in (
            ('any site', lambda x, q: True, True),
            ('a Wyckoff letter', None, None),
            ('an element', lambda x, q: f(x, q) == X.E, True)):
        X.E = z3.Int('E')
        if elig is None:
            wy = z3.Function('wy', I, Item)
            w = z3.Const('w', Item)
            X.assume(All([m, i], Implies(And(inm(m), i >= 0, i < n), wy(g.perm(m, i)) == wy(i)), [g.perm(m, i)]))
            elig = lambda x, q: wy(q) == w
        ext = lambda x, y, q: And(q >= 0, q < n, elig(x, q), f(x, q) != Z,
                                  All([i], Implies(And(i >= 0, i < n), f(y, i) == z3.If(i == q, Z, f(x, i)))))
        # a ~ b by m, c extends a at s: the occupation d that extends b at m^-1(s) is related to c
        s2 = g.perm(g.inv(m), s)
        # d is given by its contents
        pre = And(by(a, b, m), ext(a, c, s))
        X.oblige('related structures have related extensions (%s): the site is eligible' % nm,
                 All([a, b, c, m, s], Implies(pre, And(s2 >= 0, s2 < n, elig(b, s2), f(b, s2) != Z))))
        X.oblige('related structures have related extensions (%s): the extensions are related' % nm,
                 All([a, b, c, d, m, s], Implies(And(pre, ext(b, d, s2)), by(c, d, m))))
    # induction step over abstract sets
    S0, S1, L0, A1, L1 = [z3.Function(q, Occ, B) for q in ('S0', 'S1', 'L0', 'A1', 'L1')]
    Rel = z3.Function('rel', Occ, Occ, B)
    Ext = z3.Function('ext', Occ, Occ, B)
    X.oblige('induction step over the levels', Implies(And(
        All([a, b], Implies(Rel(a, b), Rel(b, a))), All([a, b, c], Implies(And(Rel(a, b), Rel(b, c)), Rel(a, c))),
        # S1: one-atom extensions of S0; S0 represented by L0
        All([c], S1(c) == z3.Exists([a], And(S0(a), Ext(a, c)))),
        All([a], Implies(L0(a), S0(a))), All([a], Implies(S0(a), z3.Exists([b], And(L0(b), Rel(a, b))))),
        # related structures have related extensions
        All([a, b, c], Implies(And(Rel(a, b), Ext(a, c)), z3.Exists([d], And(Ext(b, d), Rel(c, d))))),
        # contracts of the extension and the reduction
        All([c], A1(c) == z3.Exists([a], And(L0(a), Ext(a, c)))),
        All([c], Implies(L1(c), A1(c))), All([a, b], Implies(And(L1(a), L1(b), Rel(a, b)), a == b)),
        All([c], Implies(A1(c), z3.Exists([d], And(L1(d), Rel(c, d)))))),
        And(All([c], Implies(L1(c), S1(c))), All([c], Implies(S1(c), z3.Exists([d], And(L1(d), Rel(c, d))))),
            All([a, b], Implies(And(L1(a), L1(b), Rel(a, b)), a == b)))))


def wy_add(X, g, nums):
    w = X.const('w', Item)
    return [w], lambda k, s: g.wy(s) == w


def ele_add(X, g, nums):
    e = c01.specie(X, 'e')
    return [e], lambda k, s: nums(k, s) == X.getattr(e, 'Z')


UNITS = [
    ('OccupyGenerator.gen_add_one_speckle_unitary', add_one('gen_add_one_speckle_unitary', lambda X, g, nums: ([], lambda k, s: True))),
    ('OccupyGenerator.gen_add_one_speckle', add_one('gen_add_one_speckle', wy_add)),
    ('OccupyGenerator.gen_add_one_speckle_of_ele', add_one('gen_add_one_speckle_of_ele', ele_add)),
    ('OccupyGenerator.all_speckle_gen_unitary', levels('all_speckle_gen_unitary', 'gen_add_one_speckle_unitary', lambda X: [])),
    ('OccupyGenerator.all_speckle_gen', levels('all_speckle_gen', 'gen_add_one_speckle', lambda X: [X.const('w', Item)])),
    ('OccupyGenerator.all_speckle_gen_of_ele', levels('all_speckle_gen_of_ele', 'gen_add_one_speckle_of_ele', lambda X: [c01.specie(X, 'e')])),
    ('growth: induction over the levels', induction),
]
