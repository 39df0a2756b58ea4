"""C11: the editable cell is a mutable sequence of independent sites."""
from common_c import *

ASSUMPTIONS = ['floats are exact reals', 'copy.deepcopy copies every object reachable from its argument',
               'the element numbers are numbers of elements (Specie.from_num: C16)']
MC = 'ababe.stru.scaffold.ModifiedCell'
SITE = 'ababe.stru.site.Site'
Q = z3.RealVal


def cell(v, nm=''):
    X = v.X
    if 'ababe.stru.element.Specie.from_num' not in X.contracts:
        species_contract(v)
    n = X.const('N' + nm)
    X.assume(n >= 0)
    lat, fl = sym_arr(X, 'lat' + nm, (3, 3), R)
    pos, fp = sym_arr(X, 'pos' + nm, (n, 3), R)
    num, fn = sym_arr(X, 'num' + nm, (n,), I)
    c = v.real_obj(MC, [lat, pos, num])
    return c, n, (lat, pos, num), (fl, lambda i: [fp(zv(i), z3.IntVal(q)) for q in range(3)], fn)


def site(v, nm):
    X = v.X
    sp = X.call(X.getattr(v.get('ababe.stru.element.Specie'), 'from_num'), [X.const('Z' + nm)])
    return X.call(v.get(SITE), [tuple(X.const(c + nm, R) for c in 'xyz'), sp])


def get(X, c, i):
    return X.call(X.getattr(c, '__getitem__'), [i])


def size(X, c):
    return X.call(X.getattr(c, '__len__'), [])


def desc(X, s):
    return [real(x) for x in X.getattr(s, 'position')] + [real(zv(X.getattr(X.getattr(s, 'element'), 'Z')))]


def is_site(X, a, b):
    """the very same object"""
    return lib.is_(X, a, b)


def check(v, what, c, n, old):
    """c has n sites; site j is old(j) (a list of alternatives (condition, object)); the listings agree"""
    X = v.X
    X.oblige(what + ': number of sites', eq(X, size(X, c), n))
    pl, nl = to_lam(X, X.getattr(c, 'positions')), to_lam(X, X.getattr(c, 'numbers'))
    X.oblige(what + ': as many positions and elements listed', And(eq(X, pl.dims[0], n), eq(X, nl.dims[0], n)))
    it = X.iter_tree(X.call(X.getattr(c, '__iter__'), []))
    X.oblige(what + ': as many sites iterated', eq(X, X.tlen(it), n))
    j = X.const('j')
    X.push(j, [j >= 0, j < zv(n)])
    s = get(X, c, j)
    w = X.at(it, j)
    for cond, o in old(j):
        X.push(X.const('u'), [fb(cond)])
        X.oblige(what + ': each site is the one expected', is_site(X, s, o))
        X.oblige(what + ': iteration gives the same', is_site(X, w, o))
        X.oblige(what + ': its position is listed', And([real(lget(X, pl, (j, q))) == desc(X, o)[q] for q in range(3)]))
        X.oblige(what + ': its element is listed', real(zv(lget(X, nl, (j,)))) == desc(X, o)[3])
        X.pop()
    X.pop()


def basics(v):
    X = v.X
    c, n, _, (fl, fp, fn) = cell(v)
    check(v, 'a new cell', c, n, lambda j: [(True, get(X, c, j))])
    j = X.const('j')
    X.push(j, [j >= 0, j < n])
    X.oblige('a new cell lists the atoms it is made from', And([a == b for a, b in zip(desc(X, get(X, c, j)), fp(j) + [real(fn(j))])]))
    X.oblige('indices count from the end', is_site(X, get(X, c, -1 - j), get(X, c, n - 1 - j)))
    i = X.const('i')
    X.push(i, [i >= 0, i < n, i != j])
    X.oblige('sites are different objects', Not(fb(is_site(X, get(X, c, i), get(X, c, j)))))
    X.pop(), X.pop()


def op(name, run, count, old, grown=None):
    def unit(v):
        X = v.X
        c, n, _, (fl, fp, fn) = cell(v)
        base = X.iter_tree(X.call(X.getattr(c, '__iter__'), []))
        before = lambda j: X.at(base, j)
        i = X.const('i')
        s = site(v, 'new')
        r = run(v, c, n, i, s, before)
        check(v, name, c, count(n, r), lambda j: old(X, j, n, i, s, before, r))
        l1 = to_lam(X, X.getattr(c, 'lattice'))
        X.oblige('the lattice is unchanged', And([real(lget(X, l1, (p, q))) == fl(z3.IntVal(p), z3.IntVal(q)) for p in range(3) for q in range(3)]))
    unit.__name__ = name
    return unit


def setitem(v, c, n, i, s, before):
    X = v.X
    X.assume(And(i >= 0, i < n))
    X.call(X.getattr(c, '__setitem__'), [i, s])


def delitem(v, c, n, i, s, before):
    X = v.X
    X.assume(And(i >= 0, i < n))
    X.call(X.getattr(c, '__delitem__'), [i])


def insert(v, c, n, i, s, before):
    X = v.X
    X.assume(And(i >= 0, i <= n))
    X.call(X.getattr(c, 'insert'), [i, s])


def append(meth):
    def f(v, c, n, i, s, before):
        r = v.X.call(v.X.getattr(c, meth), [s])
        if meth.endswith('site'):
            v.X.oblige('it returns the cell', is_site(v.X, r, c))
    return f


def pop(meth, arg):
    def f(v, c, n, i, s, before):
        X = v.X
        X.assume(And(i >= 0, i < n))
        if not arg:
            X.assume(i == n - 1)
        r = X.call(X.getattr(c, meth), [i] if arg else [])
        X.oblige('it returns the site taken out' if meth == 'pop' else 'it returns the cell', is_site(X, r, before(i) if meth == 'pop' else c))
    return f


def extend(meth):
    def f(v, c, n, i, s, before):
        X = v.X
        m = X.const('M')
        X.assume(m >= 0)
        _, _, (lat, pos, num), _ = cell(v, 'more')
        e = v.real_obj(MC, [lat, pos, num])
        t = X.iter_tree(X.call(X.getattr(e, '__iter__'), []))
        r = X.call(X.getattr(c, meth), [X.newlist(t)])
        if meth.endswith('sites'):
            X.oblige('it returns the cell', is_site(X, r, c))
        return (t, X.tlen(t))
    return f


taken = lambda X, j, n, i, s, before, r: [(j < i, before(j)), (j >= i, before(j + 1))]
UN = [op('__setitem__', setitem, lambda n, r: n, lambda X, j, n, i, s, b, r: [(j == i, s), (j != i, b(j))]),
      op('__delitem__', delitem, lambda n, r: n - 1, taken),
      op('insert', insert, lambda n, r: n + 1, lambda X, j, n, i, s, b, r: [(j < i, b(j)), (j == i, s), (j > i, b(j - 1))])]
for m in ('append', 'append_site'):
    UN.append(op(m, append(m), lambda n, r: n + 1, lambda X, j, n, i, s, b, r: [(j < n, b(j)), (j == n, s)]))
for m, a in (('pop', True), ('pop', False), ('remove_site', True), ('remove_site', False)):
    UN.append(op(m + ('(i)' if a else '()'), pop(m, a), lambda n, r: n - 1,
                 taken if a else lambda X, j, n, i, s, b, r: [(True, b(j))]))
for m in ('extend', 'append_sites'):
    UN.append(op(m, extend(m), lambda n, r: n + r[1], lambda X, j, n, i, s, b, r: [(j < n, b(j)), (j >= n, X.at(r[0], j - n))]))


def remove_sites(v):
    X = v.X
    c, n, _, _ = cell(v)
    base = X.iter_tree(X.call(X.getattr(c, '__iter__'), []))
    before = lambda j: X.at(base, j)
    m = X.const('M')
    X.assume(m >= 0)
    g = X.func('removed', [I], I)
    k = X.const('k')
    lst = X.newlist(For(k, m, Unit(g(k))))
    r = X.call(X.getattr(c, 'remove_sites'), [lst])
    X.oblige('it returns the cell', is_site(X, r, c))
    L = zv(size(X, c))
    q = z3.Int('q')
    gone = lambda i: Ex([q], And(q >= 0, q < m, g(q) == i))
    i, j = X.const('i'), X.const('j')
    X.push(i, [i >= 0, i < n, Not(gone(i))])
    cand = place_of(X, [i])
    X.obls.append(core.Obl('every site not named is kept', X.hyps() + [f for _, f in cand],
                           Or([And(t >= 0, t < L, fb(is_site(X, get(X, c, t), before(i)))) for t, _ in cand]), X.line, 'post'))
    X.pop()
    X.push(j, [j >= 0, j < L])
    s = get(X, c, j)
    if not isinstance(s, Ref) or len(s.idx) != 1:
        raise Unsupported('sites')
    w = zv(s.idx[0])
    X.oblige('every site kept was there and is not named', And(w >= 0, w < n, fb(is_site(X, s, before(w))), Not(gone(w))))
    i = X.const('i')
    X.push(i, [i > j, i < L])
    X.oblige('in the same order', zv(get(X, c, i).idx[0]) > w)
    X.pop(), X.pop()


def conversions(v):
    X = v.X
    species_contract(v)
    p, n = parent_cell(v)
    X.opts['nosortfacts'] = True
    c = v.cls_call(MC, 'from_gcell', [p])
    f, _ = numbers_fn(X, p)
    lp = to_lam(X, X.getattr(p, 'positions'))
    same_lat = lambda a, b: And([eq(X, lget(X, to_lam(X, a), (i, j)), lget(X, to_lam(X, b), (i, j))) for i in range(3) for j in range(3)])
    X.oblige('from the canonical cell: lattice', same_lat(X.getattr(c, 'lattice'), X.getattr(p, 'lattice')))
    X.oblige('from the canonical cell: number of sites', eq(X, size(X, c), n))
    j = X.const('j')
    X.push(j, [j >= 0, j < n])
    d = desc(X, get(X, c, j))
    X.oblige('from the canonical cell: every atom with its element', And([d[q] == real(lget(X, lp, (j, q))) for q in range(3)] + [d[3] == real(zv(f(j)))]))
    X.pop()


def back(v):
    X = v.X
    c, n, _, (fl, fp, fn) = cell(v)
    made = []

    def gc(X_, cls, lattice, positions, numbers, *a, **k):
        made.append((lattice, positions, numbers))
        return X_.alloc('obj', {}, None)
    X.contracts[GC] = gc
    X.call(X.getattr(c, 'to_gcell'), [])
    if len(made) != 1:
        raise Unsupported('canonical cell not built once')
    ll, pl, nl = [to_lam(X, a) for a in made[0]]
    X.oblige('to the canonical cell: lattice', And([real(lget(X, ll, (i, j))) == fl(z3.IntVal(i), z3.IntVal(j)) for i in range(3) for j in range(3)]))
    X.oblige('to the canonical cell: number of atoms', And(eq(X, pl.dims[0], n), eq(X, nl.dims[0], n)))
    j = X.const('j')
    X.push(j, [j >= 0, j < n])
    X.oblige('to the canonical cell: every atom with its element', And([real(lget(X, pl, (j, q))) == fp(j)[q] for q in range(3)] + [zv(lget(X, nl, (j,))) == fn(j)]))
    X.pop()


def objs(X, r, out, depth=0):
    """oids of the mutable objects reachable"""
    if isinstance(r, tuple):
        for x in r:
            objs(X, x, out, depth)
    elif isinstance(r, IteV):
        objs(X, r.a, out, depth), objs(X, r.b, out, depth)
    elif isinstance(r, Ref) and r.oid not in out:
        out.add(r.oid)
        h = X.obj(r)
        if h.kind == 'obj':
            for nm in h.data:
                objs(X, h.data[nm], out, depth + 1)
        elif isinstance(h.data, Tree):
            for bs, gs, w in X.leaves(h.data):
                objs(X, w, out, depth + 1)
    return out


def copying(v):
    X = v.X
    c, n, _, (fl, fp, fn) = cell(v)
    d = X.call(X.getattr(c, 'copy'), [])
    shared = objs(X, c, set()) & objs(X, d, set())
    X.oblige('no object is shared', not shared)
    X.oblige('same number of sites', eq(X, size(X, d), n))
    ll = to_lam(X, X.getattr(d, 'lattice'))
    X.oblige('same lattice', And([real(lget(X, ll, (i, j))) == fl(z3.IntVal(i), z3.IntVal(j)) for i in range(3) for j in range(3)]))
    j = X.const('j')
    X.push(j, [j >= 0, j < n])
    X.oblige('same atoms', And([a == b for a, b in zip(desc(X, get(X, d, j)), fp(j) + [real(fn(j))])]))
    X.pop()


def equality(v):
    X = v.X
    a, n, _, (la, pa, na) = cell(v, 'a')
    b, m, _, (lb, pb, nb) = cell(v, 'b')
    i = z3.Int('i')
    X.assume(All([i], And(na(i) >= 0, na(i) <= 200, nb(i) >= 0, nb(i) <= 200), [na(i)]))
    r = fb(X.truth(X.call(X.getattr(a, '__eq__'), [b])))
    ab = lambda x: z3.If(x >= 0, x, -x)
    iv = z3.IntVal
    ent = [(lambda k, q=q: pa(k)[q], lambda k, q=q: pb(k)[q]) for q in range(3)]
    close = lambda x, y: ab(x - y) <= Q('1e-8')
    near = lambda x, y: ab(x - y) <= Q('1e-3') * (1 + ab(y))
    lat = [(la(iv(p), iv(q)), lb(iv(p), iv(q))) for p in range(3) for q in range(3)]
    k = X.const('k')
    dom = And(i >= 0, i < n)
    agree = And(n == m, *[close(x, y) for x, y in lat])
    agree = And(agree, All([i], Implies(dom, And(na(i) == nb(i), *[close(f(i), g(i)) for f, g in ent]))))
    X.oblige('cells that agree are equal', Implies(agree, r))
    X.oblige('equal cells have as many sites', Implies(r, n == m))
    X.push(k, [k >= 0, k < n, r])
    X.oblige('equal cells have the same elements', na(k) == nb(k))
    X.oblige('equal cells have positions within tolerance', And([near(f(k), g(k)) for f, g in ent]))
    X.pop()
    X.oblige('equal cells have lattices within tolerance', Implies(r, And([near(x, y) for x, y in lat])))


UNITS = [('ModifiedCell.__init__, __getitem__, __len__, __iter__, positions, numbers', basics)] + \
        [('ModifiedCell.' + u.__name__, u) for u in UN] + \
        [('ModifiedCell.remove_sites', remove_sites), ('ModifiedCell.from_gcell', conversions), ('ModifiedCell.to_gcell', back),
         ('ModifiedCell.copy', copying), ('ModifiedCell.__eq__', equality)]
