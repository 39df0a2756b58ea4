"""C23: occupations of the 60-site cage."""
from common_c import *
from fractions import Fraction
import itertools
import c01
import c02
import c03

ASSUMPTIONS = ['itertools.combinations lists every n-element subset of the positions of its argument exactly once, as an increasing tuple',
               'xxh64 is injective on the number arrays compared, which have one dtype',
               'itertools.tee gives two streams with the elements of the argument; generator bodies are run eagerly '
               '(interleaved reading is covered by the bounded part only)',
               'induction over the levels: base and step are obligations (those of C03), the principle itself is trusted',
               'the table and the positions are the data files of the package as they are on disk; every entry is looked at']
BB = 'ababe.stru.buckyball.'
ST = BB + 'Structure'
N = 60


def value(X, x):
    x = z3.simplify(zv(x))
    if not (z3.is_rational_value(x) or z3.is_int_value(x)):
        raise Unsupported('not a number of the data files')
    return Fraction(str(x))


def table(v):
    """the stored operations: the symmetry group of the cage as the code orders its sites"""
    X = v.X
    X.opts['rows'] = 60
    num, _ = sym_arr(X, 'num', (N,), I)
    s = v.real_obj(ST, [num])
    lat, pos, nums = X.getattr(s, 'spg_cell')
    i = X.const('i')
    X.push(i, [i >= 0, i < N])
    X.oblige('the numbers are those given', eq(X, lget(X, to_lam(X, nums), (i,)), lget(X, to_lam(X, num), (i,))))
    X.pop()
    lp, ll = to_lam(X, pos), to_lam(X, lat)
    P = [[value(X, lget(X, lp, (i, j))) for j in range(3)] for i in range(N)]
    L = [[value(X, lget(X, ll, (i, j))) for j in range(3)] for i in range(3)]
    tab = X.tree_of(X.call(X.getattr(s, 'get_symmetry_permutation'), []))
    us = models.units(tab)
    T = []
    for u in us:
        lam = to_lam(X, u)
        T.append(tuple(int(value(X, lget(X, lam, (k,)))) for k in range(lam.dims[0])))
    sites = set(range(N))
    X.oblige('every operation is a permutation of the 60 sites', all(len(t) == N and set(t) == sites for t in T))
    S = set(T)
    X.oblige('120 different operations', len(T) == 120 and len(S) == 120)
    X.oblige('the identity is one of them', tuple(range(N)) in S)
    ok = all(len(t) == N and set(t) == sites for t in T)
    X.oblige('the composition of two operations is one of them', ok and all(tuple(a[k] for k in b) in S for a in T for b in T))
    X.oblige('the inverse of an operation is one of them', ok and all(tuple(sorted(range(N), key=lambda q: t[q])) in S for t in T))
    C = [[sum(p[q] * L[q][j] for q in range(3)) for j in range(3)] for p in P]
    D = [[float(sum((a - b) ** 2 for a, b in zip(p, q))) ** .5 for q in C] for p in C]
    X.oblige('the sites of the file are apart', all(D[a][b] > .5 for a in range(N) for b in range(a)))
    X.oblige('every operation keeps all distances (to 0.05)',
             ok and all(abs(D[t[a]][t[b]] - D[a][b]) < .05 for t in T for a in range(N) for b in range(a)))

    # no other permutation keeps the distances
    found = []

    def extend(m):
        k = len(m)
        if k == N:
            found.append(tuple(m))
            return
        for q in range(N):
            if q not in m and all(abs(D[k][c] - D[q][m[c]]) < .05 for c in range(k)):
                extend(m + [q])
    extend([])
    X.oblige('every permutation that keeps the distances is stored', set(found) <= S)


def setup(v, n=N):
    """a structure with arbitrary numbers; its operations by the contract above"""
    X = v.X
    X.opts['rows'] = 60
    num, f = sym_arr(X, 'num', (N,), I)
    s = v.real_obj(ST, [num])
    X.opts['rows'] = 12
    g = Group(X, n)
    if n is not N:
        X.contracts[ST + '.get_symmetry_permutation'] = lambda X_, self_: g.listing(X_)
    return s, f, g


def sites(X):
    # what holds for any number of sites holds for 60
    n = X.const('N')
    X.assume(n >= 1)
    return n


def occupations(X, K, n, name='nums'):
    f = X.func(name, [I, I], I)
    k, i = X.const('k'), X.const('i')
    X.push(k, [k >= 0, k < K])
    a = X.arr(Lam((n,), (i,), f(k, i)))
    X.pop()
    return X.alloc('gen', Cat([For(k, K, Unit(a))])), f


def entry(X, a):
    lam = to_lam(X, a)
    if len(lam.dims) != 1:
        raise Unsupported('an occupation is not one-dimensional')
    return (lambda i: zv(lget(X, lam, (i,)))), lam.dims[0]


def speckle(v):
    X = v.X
    cnt = c01.count(X)
    sp = c01.specie(X, 's')
    Z = X.getattr(sp, 'Z')
    res = v.cls_call(ST, 'gen_speckle', [sp, cnt])
    ls = leaves(X, X.tree_of(res))
    if len(X.combs) != 1 or len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('not one pass over the combinations')
    rec = X.combs[0]
    (c,), dom, a = ls[0]
    i = X.const('i')
    X.oblige('as many sites are chosen as asked for', eq(X, rec.n, cnt))
    X.oblige('every choice gives exactly one occupation', All([c], Iff(dom, And(c >= 0, c < rec.count))))
    c02.pool_ob(X, rec, '', lambda x: True, N)
    X.push(c, [c >= 0, c < rec.count])
    fn, ln = entry(X, a)
    X.oblige('60 sites', eq(X, ln, N))
    X.push(i, [i >= 0, i < N])
    ch = c02.chosen(X, rec, c, i)
    X.oblige('the chosen sites carry the element', Implies(ch, fn(i) == Z))
    X.oblige('all others carbon', Implies(Not(ch), fn(i) == 6))
    X.pop()
    X.pop()


def helper(v):
    """help_add_one_speckle: every one-atom extension of one occupation"""
    X = v.X
    n = sites(X)
    sp = c01.specie(X, 's')
    Z = X.getattr(sp, 'Z')
    arr, f = sym_arr(X, 'num', (n,), I)
    res = v.cls_call(ST, 'help_add_one_speckle', [arr, sp])
    ls = leaves(X, X.tree_of(res))
    if len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('not one pass over the sites')
    (s,), dom, a = ls[0]
    i = X.const('i')
    X.oblige('one extension for every site without the element', All([s], Iff(dom, And(s >= 0, s < n, f(s) != Z))))
    X.push(s, [dom])
    fn, ln = entry(X, a)
    X.oblige('as many sites', eq(X, ln, n))
    X.push(i, [i >= 0, i < n])
    X.oblige('the new element there, the input elsewhere', fn(i) == z3.If(i == s, Z, f(i)))
    X.pop()
    X.pop()


def add_one(v):
    X = v.X
    n = sites(X)
    st, _, g = setup(v, n)
    K = X.const('K')
    X.assume(K >= 0)
    gen, nums = occupations(X, K, n)
    sp = c01.specie(X, 's')
    Z = X.getattr(sp, 'Z')
    res = X.call(X.getattr(st, 'add_one_speckle_generator'), [gen, sp])
    ls = leaves(X, X.tree_of(res))
    if len(ls) != 1 or len(ls[0][0]) != 2:
        raise Unsupported('not one pass over occupations and sites')
    (k, s), dom, a = ls[0]
    k2, s2, i = X.const('k'), X.const('s'), X.const('i')
    at = lambda f, p, q: sub(f, [(k, p), (s, q)])
    can = lambda p, q: And(p >= 0, p < K, q >= 0, q < n, nums(p, q) != Z)
    ext = lambda p, q, j: z3.If(j == q, Z, nums(p, j))
    fn, ln = entry(X, a)
    din = And(i >= 0, i < n)
    X.oblige('an emitted occupation differs by one site', All([k, s], Implies(dom, can(k, s))))
    X.oblige('it has the new element there and is the input elsewhere', All([k, s, i], Implies(And(dom, din), fn(i) == ext(k, s, i))))
    X.oblige('as many sites', All([k, s], Implies(dom, eq(X, ln, n))))
    dom2 = at(fb(dom), k2, s2)
    same_ = All([i], Implies(din, ext(k, s, i) == ext(k2, s2, i)))
    X.oblige('no occupation is emitted twice', All([k, s, k2, s2], Implies(And(dom, dom2, same_), And(k == k2, s == s2))))
    X.oblige('every extension is emitted', All([k, s], Implies(And(can(k, s), Not(dom)), Ex([k2, s2], And(dom2, same_)))))


def reduction(v):
    X = v.X
    n = sites(X)
    st, _, g = setup(v, n)
    K = X.const('K')
    X.assume(K >= 0)
    gen, nums = occupations(X, K, n)
    res = X.call(X.getattr(st, 'to_nodup_generator'), [gen])
    ls = leaves(X, X.tree_of(res))
    if len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('the reduced stream is not one filtered pass over its input')
    (k,), dom, a = ls[0]
    E = lambda j: sub(fb(dom), [(k, zv(j))])
    kk, jj, i = X.const('k'), X.const('j'), X.const('i')
    fn, ln = entry(X, a)
    X.oblige('an emitted occupation is the input of its position',
             All([k], Implies(dom, And(k >= 0, k < K, eq(X, ln, n), All([i], Implies(And(i >= 0, i < n), fn(i) == nums(k, i)))))))
    rel = lambda p, q: c01.related(g, nums, p, q, n)
    X.oblige('no two emitted occupations are related', All([jj, kk], Implies(And(E(jj), E(kk), jj < kk), Not(rel(jj, kk)))))
    X.oblige('every occupation that is not emitted is related to an emitted earlier one',
             All([kk], Implies(And(kk >= 0, kk < K, Not(E(kk))), Ex([jj], And(jj >= 0, jj < kk, E(jj), rel(jj, kk))))))


def tok(X, v):
    t = X.tree_of(v)
    u = t.ts if isinstance(t, Cat) else (t,)
    return u[0].v if len(u) == 1 and isinstance(u[0], Unit) else None


def levels(v):
    """level 0 is the structure, level k+1 the reduction of the one-atom extensions of level k"""
    X = v.X
    st, f, g = setup(v)
    sp = c01.specie(X, 's')
    upto, n0 = X.const('n'), X.const('n0')
    X.assume(n0 >= 0)

    def token(*t):
        return X.alloc('gen', Cat([Unit(t)]))

    def red(X_, self_, gen):
        t = tok(X_, gen)
        X_.iter_tree(gen)
        return token('red', t if same(self_, st) else None)

    def add(X_, self_, gen, s):
        t = tok(X_, gen)
        X_.iter_tree(gen)
        return token('add', t if same(self_, st) and same(s, sp) else None)

    def cnt(X_, self_, s):
        if not (same(self_, st) and same(s, sp)):
            raise Unsupported('count of another structure or element')
        return n0
    X.contracts.update({ST + '.to_nodup_generator': red, ST + '.add_one_speckle_generator': add, ST + '.get_speckle_num': cnt})
    found = []
    is_start = lambda t: lib.is_arr(X, t) and prove_same(X, t, f)

    def carry(X_, loc, init, k):
        if not (isinstance(init, Ref) and X_.obj(init).kind == 'gen'):
            return None
        ok0 = is_start(tok(X_, init))

        def step(X2, kk, val):
            t = tok(X2, val)
            ok = isinstance(t, tuple) and t[0] == 'red' and isinstance(t[1], tuple) and t[1][0] == 'add' and \
                isinstance(t[1][1], tuple) and t[1][1][0] == 'level' and t[1][1][1].eq(zv(kk))
            found.append((ok0, ok))
        return {'at': lambda kk: token('level', zv(kk)), 'step': step, 'after': lambda q: token('level', zv(q))}
    X.hooks['carry'] = carry
    res = v.cls_call(ST, 'all_speckle_gen', [st, upto, sp])
    ls = leaves(X, X.tree_of(res))
    first = [l for l in ls if not l[0]]
    rest = [l for l in ls if l[0]]
    if len(first) != 1 or len(rest) != 1 or len(rest[0][0]) != 1 or not found:
        raise Unsupported('not one stream per level')
    X.oblige('the structure itself is handed out first', fb(first[0][1]))
    X.oblige('the first stream is the structure alone', is_start(tok(X, first[0][2])))
    (k,), dom, val = rest[0]
    t = tok(X, val)
    ok = isinstance(t, tuple) and t[0] == 'red' and isinstance(t[1], tuple) and t[1][0] == 'add' and \
        isinstance(t[1][1], tuple) and t[1][1][0] == 'level' and t[1][1][1].eq(k)
    X.oblige('growth starts from the structure alone', found[-1][0])
    X.oblige('the next level is the reduction of the one-atom extensions of the level before', found[-1][1])
    X.oblige('the stream handed out is that level', ok)
    X.oblige('one stream per added atom, up to the requested number', All([k], Iff(dom, And(k >= 0, k < upto - n0))))


def prove_same(X, t, f):
    fn, ln = entry(X, t)
    i = X.const('i')
    X.push(i, [i >= 0, i < N])
    r = X.entails(And(eq(X, ln, N), fn(i) == f(i)), 2000)
    X.pop()
    return r


UNITS = [('the stored operations', table), ('Structure.gen_speckle', speckle), ('Structure.help_add_one_speckle', helper),
         ('Structure.add_one_speckle_generator', add_one), ('Structure.to_nodup_generator', reduction),
         ('Structure.all_speckle_gen', levels), ('growth: induction over the levels', c03.induction)]
