"""C21: site grids, their arrays, copies and cells."""
from common_c import *

ASSUMPTIONS = ['floats are exact reals', 'numpy.vectorize applies the function to every element',
               'the element numbers are numbers of elements (Specie.from_num: C16)']
SC = 'ababe.stru.scaffold.'
SD = 'ababe.stru.scaffold2d.'
Q = z3.RealVal


def dims(X, k):
    ds = [X.const(c) for c in 'dwl'[-k:]]
    for d in ds:
        X.assume(d >= 1)
    return ds


def grid(v, cls, k, nm='num', ds=None):
    X = v.X
    ds = ds or dims(X, k)
    arr, f = sym_arr(X, nm, tuple(ds), I)
    g = v.cls_call(cls, 'from_array', [arr])
    return g, ds, f


def under(X, ds, nm='q'):
    ix = [X.const(nm) for _ in ds]
    for i, d in zip(ix, ds):
        X.push(i, [i >= 0, i < zv(d)])
    return ix


def pop(X, ds):
    for _ in ds:
        X.pop()


def zof(X, s):
    return zv(X.getattr(s, 'Z'))


def sizes(X, g, ds):
    return And([eq(X, X.getattr(g, n), d) for n, d in zip(('depth', 'width', 'length')[-len(ds):], ds)])


def array_is(X, name, a, ds, f):
    lam = to_lam(X, a)
    X.oblige(name + ': shape', len(lam.dims) == len(ds) and And([eq(X, p, q) for p, q in zip(lam.dims, ds)]))
    ix = under(X, ds)
    X.oblige(name + ': every position', eq(X, lget(X, lam, tuple(ix)), f(*ix)))
    pop(X, ds)


def round_trip(cls, k, arr_name):
    def unit(v):
        X = v.X
        species_contract(v)
        g, ds, f = grid(v, cls, k)
        X.oblige('sizes', sizes(X, g, ds))
        a = X.call(X.getattr(g, arr_name), [])
        array_is(X, 'the array of a grid made from an array is that array', a, ds, f)
        h = v.cls_call(cls, 'from_array', [a])
        X.oblige('the grid made from its array is equal', fb(X.truth(X.call(X.getattr(h, '__eq__'), [g]))))
        X.oblige('a grid is not equal to nothing', Not(fb(X.truth(X.call(X.getattr(g, '__eq__'), [None])))))
        if k == 3:
            ix = under(X, ds)
            X.oblige('every position holds its element', eq(X, zof(X, X.call(X.getattr(g, '__getitem__'), [tuple(ix)])), f(*ix)))
            pop(X, ds)
    return unit


def equality(cls, k):
    def unit(v):
        X = v.X
        species_contract(v)
        g, ds, f = grid(v, cls, k)
        h, ds2, f2 = grid(v, cls, k, 'mun')
        r = fb(X.truth(X.call(X.getattr(g, '__eq__'), [h])))
        X.oblige('equal grids have equal sizes', Implies(r, And([a == b for a, b in zip(ds, ds2)])))
        ix = under(X, ds)
        X.oblige('equal grids have the same elements', Implies(r, f(*ix) == f2(*ix)))
        pop(X, ds)
        qs = [z3.Int('q%d' % i) for i in range(k)]
        agree = And([a == b for a, b in zip(ds, ds2)] + [All(qs, Implies(And([And(q >= 0, q < d) for q, d in zip(qs, ds)]), f(*qs) == f2(*qs)), [f(*qs)])])
        X.oblige('grids with the same elements are equal', Implies(agree, r))
    return unit


def specie(v, z):
    return v.X.call(v.X.getattr(v.get('ababe.stru.element.Specie'), 'from_num'), [z])


def sea(cls, k, arr_name):
    def unit(v):
        X = v.X
        species_contract(v)
        ds = dims(X, k)
        z = X.const('Z')
        g = v.cls_call(cls, 'sea', list(ds) + [specie(v, z)])
        X.oblige('sizes', sizes(X, g, ds))
        array_is(X, 'a sea', X.call(X.getattr(g, arr_name), []), ds, lambda *ix: z)
    return unit


def assign(v):
    X = v.X
    species_contract(v)
    g, ds, f = grid(v, SC + 'SitesGrid', 3)
    p = [X.const('p') for _ in ds]
    for a, d in zip(p, ds):
        X.assume(And(a >= 0, a < d))
    z = X.const('Z')
    X.call(X.getattr(g, '__setitem__'), [tuple(p), specie(v, z)])
    X.oblige('sizes', sizes(X, g, ds))
    at = lambda ix: z3.If(And([a == b for a, b in zip(ix, p)]), z, f(*ix))
    array_is(X, 'one assignment', X.call(X.getattr(g, 'to_array'), []), ds, lambda *ix: at(ix))
    ix = under(X, ds)
    X.oblige('only the position assigned changes', eq(X, zof(X, X.call(X.getattr(g, '__getitem__'), [tuple(ix)])), at(ix)))
    pop(X, ds)


def copying(which):
    def unit(v):
        X = v.X
        species_contract(v)
        g, ds, f = grid(v, SC + 'SitesGrid', 3)
        h = X.call(X.getattr(g, 'deepCopy'), [])
        X.oblige('the copy is equal', fb(X.truth(X.call(X.getattr(h, '__eq__'), [g]))))
        X.oblige('sizes', sizes(X, h, ds))
        p = [X.const('p') for _ in ds]
        for a, d in zip(p, ds):
            X.assume(And(a >= 0, a < d))
        z = X.const('Z')
        a, b = (g, h) if which else (h, g)
        X.call(X.getattr(a, '__setitem__'), [tuple(p), specie(v, z)])
        array_is(X, 'a change of the %s does not show in the %s' % (('original', 'copy') if which else ('copy', 'original')),
                 X.call(X.getattr(b, 'to_array'), []), ds, f)
        ix = under(X, ds)
        X.oblige('nor at any position read', eq(X, zof(X, X.call(X.getattr(b, '__getitem__'), [tuple(ix)])), f(*ix)))
        pop(X, ds)
    return unit


def matrix(v):
    X = v.X
    m = [[X.const('m', R) for _ in range(3)] for _ in range(3)]
    return m, [list(r) for r in m]


def pylist(X, rows):
    return X.newlist(Cat([Unit(X.newlist(Cat([Unit(x) for x in r]))) for r in rows]))


def structure(v):
    X = v.X
    X.opts['rectangles'] = True
    species_contract(v)
    g, ds, f = grid(v, SC + 'SitesGrid', 3)
    m, rows = matrix(v)
    s = v.real_obj(SC + 'CStru', [pylist(X, rows), g])
    X.oblige('sizes', sizes(X, s, ds))
    array_is(X, 'the array of a structure', X.call(X.getattr(s, 'get_array'), []), ds, f)
    bas, pos, num = X.call(X.getattr(s, 'get_cell'), [])
    cell_is(v, 'get_cell', bas, pos, num, m, ds, f)


def cell_is(v, nm, bas, pos, num, m, ds, f):
    X = v.X
    lb, lp, ln = to_lam(X, bas), to_lam(X, pos), to_lam(X, num)
    X.oblige(nm + ': a lattice of three rows', len(lb.dims) == 2 and And(eq(X, lb.dims[0], 3), eq(X, lb.dims[1], 3)))
    for i in range(3):
        X.oblige(nm + ': lattice row %d is scaled by the size along it' % i, And([real(lget(X, lb, (i, j))) == m[i][j] * z3.ToReal(ds[i]) for j in range(3)]))
    d, w, l = ds
    n = d * w * l
    X.oblige(nm + ': one atom for every grid position', And(eq(X, lp.dims[0], n), eq(X, ln.dims[0], n), eq(X, lp.dims[1], 3)))
    ix = under(X, ds)
    a, b, c = ix
    at = lib.MK(lib.MK(a, b, w), c, l)
    plain = (a * w + b) * l + c
    X.oblige(nm + ': the flat index', at == plain)
    for q in range(3):
        X.oblige(nm + ': position index over size, axis %d' % q, real(zv(lget(X, lp, (at, q)))) * z3.ToReal(ds[q]) == z3.ToReal(ix[q]))
    X.oblige(nm + ': with the element of that position', eq(X, lget(X, ln, (at,)), f(*ix)))
    pop(X, ds)


UNITS = [('SitesGrid.from_array, to_array', round_trip(SC + 'SitesGrid', 3, 'to_array')),
         ('SitesGrid.__eq__', equality(SC + 'SitesGrid', 3)),
         ('SitesGrid.sea', sea(SC + 'SitesGrid', 3, 'to_array')),
         ('SitesGrid.__setitem__, __getitem__', assign),
         ('SitesGrid.deepCopy (original changed)', copying(True)), ('SitesGrid.deepCopy (copy changed)', copying(False)),
         ('SitesGrid2d.from_array, get_array', round_trip(SD + 'SitesGrid2d', 2, 'get_array')),
         ('SitesGrid2d.__eq__', equality(SD + 'SitesGrid2d', 2)),
         ('SitesGrid2d.sea', sea(SD + 'SitesGrid2d', 2, 'get_array')),
         ('CStru.get_cell, get_array', structure)]
