"""C04: the constructor sorts by the wrapped rounded position; the views follow the elements."""
from common_c import *

ASSUMPTIONS = ['floats are exact reals (coordinates whose wrapped, rounded value depends on the last bits of a float are not covered)',
               'an injective map of [0, n) to itself is a bijection (pigeonhole)',
               'the digest of an element list is injective']


def K(x):
    """wrapped and rounded to three decimals, in thousandths"""
    return lib.round_half_even(x * 1000) % 1000


def raw(v, pre=''):
    X = v.X
    n = X.const('N')
    X.assume(n >= 1)
    lat, fl = sym_arr(X, pre + 'lat', (3, 3), R)
    pos, fp = sym_arr(X, pre + 'pos', (n, 3), R)
    num, fn = sym_arr(X, pre + 'num', (n,), I)
    return n, (lat, pos, num), (fl, fp, fn)


def site_of(X, cell, n, fn):
    """which given atom is atom i of the cell: read off its elements"""
    f, m = numbers_fn(X, cell)
    i = X.const('i')
    X.push(i, [i >= 0, i < n])
    t = z3.simplify(zv(f(i)))
    X.pop()
    if not (z3.is_app(t) and t.decl().eq(fn(i).decl())):
        raise Unsupported('the elements are not those given')
    e = t.arg(0)
    return (lambda j: sub(e, [(i, zv(j))])), m


def lexle(a, b, strict=False):
    r = z3.BoolVal(not strict)
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(x == y, r))
    return r


def keys(f, j):
    return [K(f(j, z3.IntVal(c))) for c in range(3)]


def induction(X, n, f, what):
    """a strictly increasing map of [0, n) to itself is the identity; returns the fact"""
    i, j = ints('i', 'j')
    inc = All([i, j], Implies(And(i >= 0, i < j, j < n), f(i) < f(j)), [z3.MultiPattern(f(i), f(j))])
    rng = All([i], Implies(And(i >= 0, i < n), And(f(i) >= 0, f(i) < n)), [f(i)])
    X.oblige('%s: increasing' % what, inc)
    X.oblige('%s: into the same range' % what, rng)
    k = X.const('k')
    h = [k >= 0, k + 1 < n, f(k) < f(k + 1)]
    X.obls.append(core.Obl(what + ': not below, base', [], Implies(And(n >= 1, f(z3.IntVal(0)) >= 0), f(z3.IntVal(0)) >= 0), 'contracts', 'lemma'))
    X.obls.append(core.Obl(what + ': not below, step', [], Implies(And(*(h + [f(k) >= k])), f(k + 1) >= k + 1), 'contracts', 'lemma'))
    X.obls.append(core.Obl(what + ': not above, base', [], Implies(And(n >= 1, f(n - 1) < n), f(n - 1) <= n - 1), 'contracts', 'lemma'))
    X.obls.append(core.Obl(what + ': not above, step', [], Implies(And(*(h + [f(k + 1) <= k + 1])), f(k) <= k), 'contracts', 'lemma'))
    X.define(All([i], Implies(And(i >= 0, i < n), f(i) == i), [f(i)]))


def build(v):
    X = v.X
    n, args, (fl, fp, fn) = raw(v)
    before = [to_lam(X, a) for a in args]
    c = v.real_obj(GC, list(args))
    site, m = site_of(X, c, n, fn)
    i, j, a = ints('i', 'j', 'a')
    ini = And(i >= 0, i < n)
    X.oblige('as many elements as atoms', eq(X, m, n))
    X.oblige('the count of atoms', eq(X, X.getattr(c, 'num_count'), n))
    X.oblige('every atom of the cell is one of those given', All([i], Implies(ini, And(site(i) >= 0, site(i) < n))))
    X.oblige('no given atom appears twice, so every atom is kept',
             All([i, j], Implies(And(ini, j >= 0, j < i), site(i) != site(j))))
    lp = to_lam(X, X.getattr(c, 'positions'))
    X.oblige('shape of the positions', And(eq(X, lp.dims[0], n), eq(X, lp.dims[1], 3)) if len(lp.dims) == 2 else False)
    X.oblige('every atom keeps its own position', And([All([i], Implies(ini, eq(X, lget(X, lp, (i, k)), fp(site(i), k)))) for k in range(3)]))
    X.oblige('every atom keeps its own element', All([i], Implies(ini, numbers_fn(X, c)[0](i) == fn(site(i)))))
    X.oblige('ordered by the wrapped rounded position',
             All([i, j], Implies(And(i >= 0, i < j, j < n), lexle(keys(fp, site(i)), keys(fp, site(j))))))
    X.oblige('the lattice is the one given', same_arr(X, X.getattr(c, 'lattice'), args[0]))
    X.oblige('the arrays of the caller are untouched', And([lib.content_eq(X, to_lam(X, x), y) for x, y in zip(args, before)]))


def floor_shift(X, a, m):
    """instance of the lemma: the floor moves with an integer"""
    return z3.ToInt(a + z3.ToReal(m)) == z3.ToInt(a) + m


def wrap_lemma(v):
    X = v.X
    x, z, m = z3.Real('x'), z3.Int('z'), z3.Int('m')
    lemma0(X, 'the floor moves with an integer', [x, m], floor_shift(X, x, m))
    h = z3.RealVal('1/2')
    X.obls.append(core.Obl('the key does not depend on the periodic image',
                           [floor_shift(X, 1000 * x + h, 1000 * z), x * 1000 + z3.ToReal(1000 * z) + h == (x + z3.ToReal(z)) * 1000 + h],
                           K(x + z3.ToReal(z)) == K(x), 'contracts', 'post'))
    r = lib.round_half_even(x * 1000)
    X.oblige('the key is below a thousand', And(K(x) >= 0, K(x) < 1000))
    d = 1000 * x - z3.ToReal(K(x)) - 1000 * z3.ToReal(r / 1000)
    X.oblige('the key is the wrapped position rounded to three decimals', And(d <= h, d >= -h))


def perm_fact(X, n, f):
    i, j = ints('i', 'j')
    return And(All([i], Implies(And(i >= 0, i < n), And(f(i) >= 0, f(i) < n)), [f(i)]))


def identity_lemma(v):
    """a strictly increasing map of [0, n) to itself is the identity"""
    X = v.X
    n = z3.Int('n')
    f = z3.Function('f', I, I)
    k = z3.Int('k')
    h = [n >= 1, k >= 0, k + 1 < n, f(k) < f(k + 1)]
    X.obls.append(core.Obl('not below the identity, base', [], Implies(f(0) >= 0, f(0) >= 0), 'contracts', 'lemma'))
    X.obls.append(core.Obl('not below the identity, step', [], Implies(And(*(h + [f(k) >= k])), f(k + 1) >= k + 1), 'contracts', 'lemma'))
    X.obls.append(core.Obl('not above the identity, base', [], Implies(And(n >= 1, f(n - 1) < n), f(n - 1) <= n - 1), 'contracts', 'lemma'))
    X.obls.append(core.Obl('not above the identity, step', [], Implies(And(*(h + [f(k + 1) <= k + 1])), f(k) <= k), 'contracts', 'lemma'))


def stable(v):
    """a stable sort of a sequence in order is the identity (used wherever a cell is rebuilt)"""
    X = v.X
    n = X.const('n')
    X.assume(n >= 1)
    X.opts['nosortfacts'] = False
    ks = [X.func('key', [I], R) for _ in range(3)]
    kt = lambda i: tuple(f(i) for f in ks)
    i, j = ints('i', 'j')
    X.assume(All([i, j], Implies(And(i >= 0, i < j, j < n), lexle(kt(i), kt(j))), [z3.MultiPattern(ks[0](i), ks[0](j))]))
    p, q = models.sort_perm(X, n, kt)
    # p(i) < p(j) for i < j: otherwise p(j) < p(i) are in order already, so their keys agree and the sort is not stable
    X.oblige('increasing', All([i, j], Implies(And(i >= 0, i < j, j < n), p(i) < p(j))))
    X.oblige('into the same range', All([i], Implies(And(i >= 0, i < n), And(p(i) >= 0, p(i) < n))))


def rebuild(v):
    X = v.X
    n, args, (fl, fp, fn) = raw(v)
    X.opts['nosortfacts'] = True
    c = v.real_obj(GC, list(args))
    d = v.real_obj(GC, [X.getattr(c, 'lattice'), X.getattr(c, 'positions'), X.getattr(c, 'numbers')])
    X.oblige('rebuilding a cell from its data keeps lattice, positions and elements',
             And(same_frame(X, d, c), same_arr(X, X.getattr(d, 'numbers'), X.getattr(c, 'numbers'))))
    t = X.getattr(c, 'spg_cell')
    e = X.call(v.get(GC), list(t[:3]))
    X.oblige('rebuilding a cell from its triple keeps lattice, positions and elements',
             And(same_frame(X, e, c), same_arr(X, X.getattr(e, 'numbers'), X.getattr(c, 'numbers'))))


def canonical(v):
    """the same atoms in another order and other periodic images, no two in one place"""
    X = v.X
    X.opts['nosortfacts'] = True
    n, args, (fl, fp, fn) = raw(v)
    s, z = X.func('order', [I], I), X.func('image', [I, I], I)
    i, j, c = X.const('i'), X.const('j'), X.const('c')
    X.push(i, [i >= 0, i < n]), X.push(c, [c >= 0, c < 3])
    pos2 = X.arr(Lam((n, 3), (i, c), fp(s(i), c) + z3.ToReal(z(i, c))))
    num2 = X.arr(Lam((n,), (i,), fn(s(i))))
    X.pop(), X.pop()
    c1, c2 = v.real_obj(GC, list(args)), v.real_obj(GC, [args[0], pos2, num2])
    s1, _ = site_of(X, c1, n, fn)
    s2, _ = site_of(X, c2, n, fn)      # already composed with the order
    f1, f2 = numbers_fn(X, c1)[0], numbers_fn(X, c2)[0]
    # both list every given atom once (contract of the constructor); p is the place in the second of atom i of the first
    p = z3.Function('place', I, I)
    a, b = ints('a', 'b')
    key = z3.Function('key', I, I, I)   # K of the given positions, the same for every image (unit 'wrapping')
    kt = lambda t: [key(t, z3.IntVal(q)) for q in range(3)]
    ina, inb = And(a >= 0, a < n), And(b >= 0, b < n)
    X.define(All([a], Implies(ina, And(p(a) >= 0, p(a) < n, s2(p(a)) == s1(a))), [p(a)]))
    X.define(All([a], Implies(ina, And(s1(a) >= 0, s1(a) < n, s2(a) >= 0, s2(a) < n))))
    X.assume(All([a, b], Implies(And(ina, inb, a != b), Or([key(a, z3.IntVal(q)) != key(b, z3.IntVal(q)) for q in range(3)]))))
    for sx in (s1, s2):
        X.define(All([a, b], Implies(And(ina, inb, a < b), And(sx(a) != sx(b), lexle(kt(sx(a)), kt(sx(b)))))))
    X.oblige('the place is increasing', All([a, b], Implies(And(a >= 0, a < b, b < n), p(a) < p(b))))
    X.define(All([a], Implies(ina, p(a) == a), [p(a)]))      # identity lemma
    X.oblige('the same elements in the same order', And(eq(X, numbers_fn(X, c1)[1], numbers_fn(X, c2)[1]), All([a], Implies(ina, f1(a) == f2(a)))))
    l1, l2 = to_lam(X, X.getattr(c1, 'positions')), to_lam(X, X.getattr(c2, 'positions'))
    X.push(a, [a >= 0, a < n])
    X.define(Implies(ina, s2(a) == s1(a)))
    for q in range(3):
        X.oblige('the same positions up to the periodic image, coordinate %d' % q,
                 z3.IsInt(zv(lget(X, l2, (a, q))) - zv(lget(X, l1, (a, q)))))
    X.pop()


def views(v):
    X = v.X
    for after in (False, True):
        n, args, (fl, fp, fn) = raw(v)
        c = v.real_obj(GC, list(args))
        if after:
            new, fnew = sym_arr(X, 'new', (n,), I)
            keep = to_lam(X, new)
            X.setattr(c, 'numbers', new)
            X.oblige('the elements are the new ones', same_arr(X, X.getattr(c, 'numbers'), new))
            X.oblige('the given elements are untouched', lib.content_eq(X, to_lam(X, new), keep))
        f, m = numbers_fn(X, c)
        t = X.getattr(c, 'spg_cell')
        X.oblige('the triple has the current data', And(
            same_arr(X, t[0], X.getattr(c, 'lattice')), same_arr(X, t[1], X.getattr(c, 'positions')), same_arr(X, t[2], X.getattr(c, 'numbers'))))
        X.oblige('the number of atoms', eq(X, X.getattr(c, 'num_count'), m))
        z = X.const('Z')
        sp = X.alloc('obj', {'Z': z}, None)
        cnt = X.call(X.getattr(c, 'get_speckle_num'), [sp])
        ref = models.count(X, X.iter_tree(X.getattr(c, 'numbers')), z)
        X.oblige('the count of an element is that among the current elements', eq(X, cnt, ref))
        other, _ = sym_arr(X, 'other', (n,), I)
        d = v.real_obj(GC, list(args))
        X.setattr(d, 'numbers', other)
        X.oblige('the identity tells exactly different current elements apart',
                 Iff(fb(eq(X, X.getattr(c, 'id'), X.getattr(d, 'id'))), fb(same_arr(X, X.getattr(c, 'numbers'), other))))


UNITS = [('GeneralCell.__init__', build), ('wrapping', wrap_lemma),
         ('identity', identity_lemma), ('stable sort', stable), ('rebuilding', rebuild), ('order and images', canonical), ('views', views)]
