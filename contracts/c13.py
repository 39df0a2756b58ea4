"""C13: sphere queries over periodic images, and the atom removers."""
from common_c import *
import itertools

ASSUMPTIONS = ['floats are exact reals', 'scipy euclidean is the Euclidean distance', 'the element numbers are numbers of elements (Specie.from_num: C16)']
MC = 'ababe.stru.scaffold.ModifiedCell'
CL = 'ababe.stru.clarifier.'
Q = z3.RealVal


def cell(v):
    X = v.X
    species_contract(v)
    n = X.const('N')
    X.assume(n >= 0)
    lat, fl = sym_arr(X, 'lat', (3, 3), R)
    pos, fp = sym_arr(X, 'pos', (n, 3), R)
    num, fn = sym_arr(X, 'num', (n,), I)
    c = v.real_obj(MC, [lat, pos, num])
    L = [[fl(z3.IntVal(i), z3.IntVal(j)) for j in range(3)] for i in range(3)]
    return c, n, L, (lambda i: [fp(zv(i), z3.IntVal(q)) for q in range(3)]), fn


def near(L, p, c, r):
    """p or one of its 26 images is strictly closer to c than r"""
    out = []
    for t in itertools.product((-1, 0, 1), repeat=3):
        d = Q(0)
        for j in range(3):
            w = sum([(p[q] + t[q]) * L[q][j] for q in range(3)], Q(0)) - sum([c[q] * L[q][j] for q in range(3)], Q(0))
            d = d + w * w
        out.append(lib.sqrtR(d) < r)
    return out


def triple(X, cc, shape):
    if shape == 'array':
        return models.mkarr(X, (3,), lambda q: cc[q] if isinstance(q, int) else z3.If(zv(q) == 0, cc[0], z3.If(zv(q) == 1, cc[1], cc[2])))
    return tuple(cc)


def inrange(shape):
    def unit(v):
        X = v.X
        c, n, L, fp, fn = cell(v)
        cc, pp = [X.const('c', R) for _ in range(3)], [X.const('p', R) for _ in range(3)]
        r = X.const('r', R)
        got = fb(X.truth(X.call(X.getattr(c, 'in_euclidean_discance'), [tuple(pp), triple(X, cc, shape), r])))
        want = near(L, pp, cc, r)
        for t, w in zip(itertools.product((-1, 0, 1), repeat=3), want):
            X.oblige('in range if the image %d %d %d is' % t, Implies(w, got))
        X.oblige('in range only if an image is', Implies(got, Or(want)))
    return unit


def row(X, a):
    if isinstance(a, tuple):
        w = list(a)
    else:
        lam = to_lam(X, a)
        if len(lam.dims) != 1 or not isinstance(lam.dims[0], int):
            raise Unsupported('a point')
        w = [lget(X, lam, (q,)) for q in range(lam.dims[0])]
    if len(w) != 3:
        raise Unsupported('a point')
    return [real(x) for x in w]


HIT = z3.Function('inrange', *([R] * 7 + [B]))


def range_contract(X):
    def hit(X_, self_, pos, center, r):
        return HIT(*(row(X_, pos) + row(X_, center) + [real(r)]))
    X.contracts[MC + '.in_euclidean_discance'] = hit


def query(shape, with_ele):
    def unit(v):
        X = v.X
        c, n, L, fp, fn = cell(v)
        range_contract(X)
        cc = [X.const('c', R) for _ in range(3)]
        r = X.const('r', R)
        z = X.const('Z')
        args = [triple(X, cc, shape), r]
        if with_ele:
            args.append(X.call(X.getattr(v.get('ababe.stru.element.Specie'), 'from_num'), [z]))
        sites = X.iter_tree(X.call(X.getattr(c, '__iter__'), []))
        d = X.call(X.getattr(c, 'get_points_incell_insphere'), args)
        i = X.const('i')
        X.push(i, [i >= 0, i < n])
        has = fb(lib.contains(X, d, i))
        want = HIT(*(fp(i) + cc + [r]))
        if with_ele:
            want = And(want, fn(i) == z)
        X.oblige('a site in range is returned under its index', Implies(want, has))
        X.oblige('only a site in range is returned', Implies(has, want))
        X.pop()
        for bs, dom, kv in leaves(X, X.data(d)):
            for b in bs:
                X.push(b, [dom] if b is bs[-1] else [])
            X.oblige('every index returned comes with its site', And(kv[0] >= 0, kv[0] < n, fb(lib.is_(X, kv[1], X.at(sites, kv[0])))))
            for b in bs:
                X.pop()
    return unit


class Removal(object):
    """the loop invariant of the removers: after k rounds the cell lists, in order, the sites that no earlier round removed"""
    def __init__(self, v, c, n, hit):
        X = self.X = v.X
        self.v, self.c, self.n, self.hit = v, c, n, hit
        self.base = X.iter_tree(X.call(X.getattr(c, '__iter__'), []))
        self.M, self.S, self.P = X.func('M', [I], I), X.func('S', [I, I], I), X.func('P', [I, I], I)
        self.G = X.func('gone', [I, I], B)
        self.rounds = None
        self.lists = set()
        X.hooks['carry'] = self.carry

    def site(self, i):
        return self.X.at(self.base, zv(i))

    def inv(self, k, name=None):
        X, n, M, S, P, G = self.X, self.n, self.M, self.S, self.P, self.G
        j, j2, i = X.const('j'), X.const('j'), X.const('i')
        fs = [('the number of sites left', [], M(k) >= 0, []),
              ('every site left was there and not removed', [j], Implies(And(j >= 0, j < M(k)), And(S(k, j) >= 0, S(k, j) < n, Not(G(k, S(k, j))), P(k, S(k, j)) == j)), [S(k, j)]),
              ('every site not removed is left', [i], Implies(And(i >= 0, i < n, Not(G(k, i))), And(P(k, i) >= 0, P(k, i) < M(k), S(k, P(k, i)) == i)), [P(k, i)]),
              ('they are in the original order', [j, j2], Implies(And(j >= 0, j < j2, j2 < M(k)), S(k, j) < S(k, j2)), [z3.MultiPattern(S(k, j), S(k, j2))])]
        for nm, ks, f, pat in fs:
            if name is not None:
                X.oblige('%s: %s' % (name, nm), All(ks, f) if ks else f)
            else:
                X.assume(All(ks, f, pat) if ks else f)

    def listing(self, k):
        X = self.X
        j = X.const('j')
        X.push(j, [j >= 0, j < self.M(k)])
        s = self.site(self.S(k, j))
        X.pop()
        r = X.newlist(For(j, self.M(k), Unit(s)))
        self.lists.add(r.oid)
        return r

    def gone_def(self, k, h):
        i = z3.Int('i!gone')
        self.X.define(All([i], self.G(k + 1, i) == Or(self.G(k, i), h(i)), [self.G(k + 1, i)]))

    def describe(self, lst, k):
        """(length, site at a place, place of a site) of a list of sites"""
        X = self.X
        if isinstance(lst, IteV):
            a, b = self.describe(lst.a, k), self.describe(lst.b, k)
            c = fb(lst.c)
            return z3.If(c, a[0], b[0]), (lambda j: z3.If(c, a[1](j), b[1](j))), (lambda i: z3.If(c, a[2](i), b[2](i)))
        if not isinstance(lst, Ref):
            raise Unsupported('the sites after a round')
        t = X.data(lst)
        if isinstance(t, Cat) and len(t.ts) == 1:
            t = t.ts[0]
        if not isinstance(t, For):
            raise Unsupported('the sites after a round')
        el = X.site_id = lambda s: self.sid(s)
        if isinstance(t.t, Unit):
            f = lambda j: self.sid(sub(t.t.v, [(t.k, zv(j))]))
            return zv(t.n), f, (lambda i: self.P(k, i))
        L, at, rank, ks, dom, g = X.flatten(t)
        if len(ks) != 1:
            raise Unsupported('the sites after a round')
        return L, (lambda j: self.sid(at(j))), (lambda i: rank(self.P(k, i)))

    def sid(self, s):
        b = self.site(z3.Int('probe'))
        if not isinstance(s, Ref) or s.oid != b.oid or len(s.idx) != 1:
            raise Unsupported('the sites after a round')
        return zv(s.idx[0])

    def carry(self, X, loc, init, k):
        if not (loc[0] == 'field' and isinstance(init, Ref) and X.obj(init).kind == 'list'):
            return None
        def step(X2, kk, nv):
            # base: before the first round
            self.rounds = True
            t = X2.iter_tree(init)
            j = X2.const('j')
            lv = X2.levels.pop()
            X2.define(self.M(0) == zv(X2.tlen(t)))
            X2.define(All([j], And(self.S(0, j) == self.sid(X2.at(t, j)), self.P(0, j) == j, Not(self.G(0, j)))))
            self.inv(z3.IntVal(0), 'before the first round')
            X2.levels.append(lv)
            L, t, pl = self.describe(nv, kk)
            i, j = X2.const('i'), X2.const('j')
            X2.define(self.M(kk + 1) == L)
            X2.define(All([j], self.S(kk + 1, j) == t(j), [self.S(kk + 1, j)]))
            X2.define(All([i], self.P(kk + 1, i) == pl(i), [self.P(kk + 1, i)]))
            self.gone_def(kk, lambda i: self.hit(kk, i))
            self.inv(kk + 1, 'after a round')

        def at(kk):
            self.inv(kk)
            return self.listing(kk)

        def after(q):
            return self.listing(zv(q))
        return {'at': at, 'step': step, 'after': after}

    def final(self, m):
        """after all rounds: stated for the history-free meaning of removed"""
        X, n = self.X, self.n
        if self.rounds is None:
            raise Unsupported('no rounds')
        m = zv(m)
        i, q, k = z3.Int('i'), z3.Int('q'), z3.Int('k')
        meaning = lambda k, i: Ex([q], And(q >= 0, q < k, fb(self.hit(q, i))))
        G = self.G
        rec = lambda k, i: G(k + 1, i) == Or(G(k, i), fb(self.hit(k, i)))
        a, b = X.const('k'), X.const('i')
        X.obls.append(core.Obl('lemma removed means removed in some round (first)', [Not(G(0, b))], G(0, b) == meaning(z3.IntVal(0), b), X.line, 'lemma'))
        X.obls.append(core.Obl('lemma removed means removed in some round (step)', [a >= 0, rec(a, b), G(a, b) == meaning(a, b)], G(a + 1, b) == meaning(a + 1, b), X.line, 'lemma'))
        self.inv(m)
        X.define(All([i], G(m, i) == meaning(m, i), [G(m, i)]))
        c = self.c
        size = zv(X.call(X.getattr(c, '__len__'), []))
        get = lambda j: X.call(X.getattr(c, '__getitem__'), [j])
        gone = lambda i: meaning(m, i)
        i = X.const('i')
        X.push(i, [i >= 0, i < n, Not(gone(i))])
        w = self.P(m, i)
        X.oblige('every site not in range is kept', And(w >= 0, w < size, fb(lib.is_(X, get(w), self.site(i)))))
        X.pop()
        j, j2 = X.const('j'), X.const('j')
        X.push(j, [j >= 0, j < size])
        s = self.sid(get(j))
        X.oblige('every site kept was there, is not in range', And(s >= 0, s < n, Not(gone(s))))
        X.push(j2, [j2 > j, j2 < size])
        X.oblige('in the original order', s < self.sid(get(j2)))
        X.pop(), X.pop()


def unchanged(X, r, c, n, L, fp, fn, base):
    X.oblige('the cell given is returned', lib.is_(X, r, c))
    ll = to_lam(X, X.getattr(c, 'lattice'))
    X.oblige('the lattice is unchanged', And([real(lget(X, ll, (i, j))) == L[i][j] for i in range(3) for j in range(3)]))
    i = X.const('i')
    X.push(i, [i >= 0, i < n])
    s = X.at(base, i)
    X.oblige('no site changes', And([real(a) == b for a, b in zip(X.getattr(s, 'position'), fp(i))] + [eq(X, X.getattr(X.getattr(s, 'element'), 'Z'), fn(i))]))
    X.pop()


def specie(v, z):
    return v.X.call(v.X.getattr(v.get('ababe.stru.element.Specie'), 'from_num'), [z])


def remover(with_ele):
    def unit(v):
        X = v.X
        c, n, L, fp, fn = cell(v)
        range_contract(X)
        m = X.const('M')
        X.assume(m >= 0)
        cen, fc = sym_arr(X, 'centers', (m, 3), R)
        r, z = X.const('r', R), X.const('Z')
        args = [cen, r] + ([specie(v, z)] if with_ele else [])
        hit = lambda k, i: And(HIT(*(fp(i) + [fc(zv(k), z3.IntVal(q)) for q in range(3)] + [r])), *([fn(zv(i)) == z] if with_ele else []))
        inv = Removal(v, c, n, hit)
        cl = X.call(v.get(CL + 'AtomRemoveClarifier'), args)
        res = X.call(X.getattr(cl, 'clarify'), [c])
        inv.final(m)
        unchanged(X, res, c, n, L, fp, fn, inv.base)
    return unit


def verbose(with_ele):
    def unit(v):
        X = v.X
        c, n, L, fp, fn = cell(v)
        range_contract(X)
        r, z, z0 = X.const('r', R), X.const('Z'), X.const('Zc')
        args = [specie(v, z0), r] + ([specie(v, z)] if with_ele else [])
        hit = lambda k, i: And(fn(zv(k)) == z0, HIT(*(fp(i) + fp(k) + [r])), *([fn(zv(i)) == z] if with_ele else []))
        inv = Removal(v, c, n, hit)
        cl = X.call(v.get(CL + 'VerboseAtomRemoveClarifier'), args)
        res = X.call(X.getattr(cl, 'clarify'), [c])
        inv.final(n)
        unchanged(X, res, c, n, L, fp, fn, inv.base)
    return unit


UNITS = [('ModifiedCell.in_euclidean_discance (%s)' % s, inrange(s)) for s in ('triple', 'array')] + \
        [('ModifiedCell.get_points_incell_insphere (%s, %s)' % (s, 'element' if e else 'any'), query(s, e)) for s in ('triple', 'array') for e in (False, True)] + \
        [('AtomRemoveClarifier.clarify (%s)' % ('element' if e else 'any'), remover(e)) for e in (True, False)] + \
        [('VerboseAtomRemoveClarifier.clarify (%s)' % ('element' if e else 'any'), verbose(e)) for e in (True, False)]
