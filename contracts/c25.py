"""C25: refined and reshaped cells, primitivity."""
from common_c import *

ASSUMPTIONS = ['spglib.standardize_cell returns the standardised cell of the crystal it is given, primitive where asked: a lattice, positions and '
               'labels with every atom the image, under one distance-preserving map and lattice translations, of the atom of the input with its label; '
               'a primitive cell holds one atom of every class under the translations that map the crystal onto itself, labels included',
               'spglib.find_primitive returns a primitive cell of the same crystal (as many atoms as there are such classes)',
               'no translation relates atoms of different labels, so a crystal whose atoms all have different labels is primitive',
               'the symmetry is recognised at the tolerance of the cell', 'floats are exact reals']
SPG = 'spglib.'


class Std(object):
    """spglib on one cell: every request is recorded"""
    def __init__(self, v):
        self.v, X = v, v.X
        self.X = X
        self.p, self.n = parent_cell(v)
        g = X.getattr
        self.lat, self.pos, self.num = [to_lam(X, g(self.p, a)) for a in ('lattice', 'positions', 'numbers')]
        self.before = [lib.content_eq]
        self.asked = []
        # translations that map the crystal onto itself, as labelled: classes of atoms
        self.classes = X.const('classes')
        self.src = X.func('atom', [I], I)
        X.hooks[('lib', SPG + 'standardize_cell')] = self.standardize
        X.hooks[('lib', SPG + 'find_primitive')] = self.primitive

    def request(self, cell, symprec):
        X = self.X
        if isinstance(cell, Ref) and X.obj(cell).kind == 'list':
            cell = tuple(models.units(X.tree_of(cell)))
        if not isinstance(cell, tuple) or len(cell) != 3:
            raise Unsupported('not a cell of three arrays')
        l, p, k = [to_lam(X, c) for c in cell]
        if len(p.dims) != 2 or len(k.dims) != 1:
            raise Unsupported('not a cell of three arrays')
        i = z3.Int('i')
        lab = lambda i: zv(lget(X, k, (i,)))
        j = z3.Int('j')
        rng = lambda t: And(t >= 0, t < zv(self.n))
        plain = And(eq(X, k.dims[0], self.n), All([i], Implies(rng(i), lab(i) == zv(lget(X, self.num, (i,))))))
        distinct = And(eq(X, k.dims[0], self.n), All([i, j], Implies(And(rng(i), rng(j), i != j), lab(i) != lab(j))))
        own = And(lib.content_eq(X, l, self.lat), lib.content_eq(X, p, self.pos), eq(X, p.dims[0], self.n))
        tol = symprec is not None and eq(X, symprec, X.getattr(self.p, 'symprec'))
        return own, plain, distinct, tol, lab

    def answer(self, prim, lab, what):
        """arrays of the standardised cell: atom i is an image of atom src(i), with its label"""
        X = self.X
        n2 = X.const('atoms')
        X.assume(n2 >= 1)
        i = X.const('i')
        c = len(self.asked)
        lat, _ = sym_arr(X, 'newlat', (3, 3), R)
        pos, _ = sym_arr(X, 'newpos', (n2, 3), R)
        src = X.func('atom', [I], I)
        rng = And(i >= 0, i < n2)
        X.assume(All([i], Implies(rng, And(src(i) >= 0, src(i) < zv(self.n)))))
        num = X.arr(Lam((n2,), (i,), lab(src(i))))
        self.asked.append(dict(prim=prim, n=n2, src=src, lat=lat, pos=pos, num=num, **what))
        return lat, pos, num, n2, src

    def standardize(self, X_, cell, to_primitive=False, no_idealize=False, symprec=None, angle_tolerance=-1.0):
        X = self.X
        own, plain, distinct, tol, lab = self.request(cell, symprec)
        if not isinstance(to_primitive, (bool, int)):
            raise Unsupported('to_primitive is not a constant')
        prim = bool(to_primitive)
        lat, pos, num, n2, src = self.answer(prim, lab, dict(own=own, plain=plain, distinct=distinct, tol=tol))
        if prim:
            i, k = z3.Int('i'), z3.Int('k')
            at = X.func('place', [I], I)
            # all labels different: one atom per atom
            X.assume(Implies(distinct, And(n2 == zv(self.n), All([k], Implies(And(k >= 0, k < zv(self.n)), And(at(k) >= 0, at(k) < n2, src(at(k)) == k))),
                                           All([i], Implies(And(i >= 0, i < n2), at(src(i)) == i)))))
            X.assume(Implies(plain, n2 == self.classes))
        return (lat, pos, num)

    def primitive(self, X_, cell, symprec=None, angle_tolerance=-1.0):
        own, plain, distinct, tol, lab = self.request(cell, symprec)
        lat, pos, num, n2, src = self.answer(True, lab, dict(own=own, plain=plain, distinct=distinct, tol=tol))
        self.X.assume(Implies(plain, n2 == self.classes))
        return (lat, pos, num)

    def one(self):
        if len(self.asked) != 1:
            raise Unsupported('not one request to spglib')
        return self.asked[0]


def frame(X, s):
    X.oblige('the cell itself is not changed', And([lib.content_eq(X, to_lam(X, X.getattr(s.p, a)), b)
                                                    for a, b in (('lattice', s.lat), ('positions', s.pos), ('numbers', s.num))]))


def result(X, s, r, label):
    """the result holds exactly the atoms of spglib's cell; label(i): the element of its atom i"""
    a = s.one()
    n2 = a['n']
    lat, pos, num = [to_lam(X, X.getattr(r, q)) for q in ('lattice', 'positions', 'numbers')]
    X.oblige('the lattice is the standardised one', lib.content_eq(X, lat, to_lam(X, a['lat'])))
    X.oblige('as many atoms', And(eq(X, pos.dims[0], n2), eq(X, num.dims[0], n2)))
    P = to_lam(X, a['pos'])
    i, k = X.const('i'), X.const('k')
    # the atom of the result at place k is an atom of spglib's cell, and all of them are there
    X.push(k, [k >= 0, k < n2])
    same_atom = lambda k, i: And([eq(X, lget(X, pos, (k, q)), lget(X, P, (i, q))) for q in range(3)] + [eq(X, lget(X, num, (k,)), label(i))])
    if not X.sorts:
        raise Unsupported('the result is not made by the constructor')
    p, q = X.sorts[-1][1:3]
    X.oblige('every atom of the result is one of them, with its element', And(p(k) >= 0, p(k) < n2, same_atom(k, p(k))))
    X.oblige('every one of them is in the result, with its element', And(q(k) >= 0, q(k) < n2, same_atom(q(k), k)))
    X.oblige('none twice', q(p(k)) == k)
    X.pop()


def shaped(v):
    X = v.X
    s = Std(v)
    r = X.call(X.getattr(s.p, 'get_shaped_cell'), [])
    a = s.one()
    X.oblige('the atoms standardised are those of the cell', a['own'])
    X.oblige('every atom has a label of its own', a['distinct'])
    X.oblige('at the tolerance of the cell', a['tol'])
    X.oblige('one atom per atom', a['n'] == zv(s.n))
    result(X, s, r, lambda i: zv(lget(X, s.num, (a['src'](i),))))
    frame(X, s)


def refined(name, prim):
    def unit(v):
        X = v.X
        s = Std(v)
        r = X.call(X.getattr(s.p, name), [])
        a = s.one()
        X.oblige('the atoms standardised are those of the cell', And(a['own'], a['plain']))
        X.oblige('at the tolerance of the cell', a['tol'])
        if prim:
            X.oblige('a primitive cell is asked for', a['prim'])
        result(X, s, r, lambda i: zv(lget(X, s.num, (a['src'](i),))))
        frame(X, s)
    return unit


def is_primitive(v):
    X = v.X
    s = Std(v)
    r = fb(X.truth(X.call(X.getattr(s.p, 'is_primitive'), [])))
    a = s.one()
    X.oblige('the crystal asked about is the cell', And(a['own'], a['plain']))
    X.oblige('at the tolerance of the cell', a['tol'])
    X.oblige('primitive exactly when every atom is a class of its own', Iff(r, s.classes == zv(s.n)))
    frame(X, s)


UNITS = [('GeneralCell.get_shaped_cell', shaped), ('GeneralCell.get_refined_cell', refined('get_refined_cell', False)),
         ('GeneralCell.get_refined_pcell', refined('get_refined_pcell', True)), ('GeneralCell.is_primitive', is_primitive)]
