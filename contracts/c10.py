"""C10: every symbol the symmetry library can report, against an arbitrary list of numbers."""
import json, os
from common_c import *

ASSUMPTIONS = ['spglib.get_spacegroup returns "<short symbol> (<number>)" and get_symmetry_dataset the same pair; the pairs are the '
               '393 distinct ones of spglib\'s table of 530 settings (contracts/spg.json, read from the installed spglib); every pair is a case of the obligation']
SGR = 'ababe.stru.restriction.SpaceGroupRestriction'
SPG = [tuple(x) for x in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spg.json')))]


def is_satisfied(v):
    X = v.X
    p, n = parent_cell(v)
    cur, asked = [None], []

    def cell_of(c):
        if not (isinstance(c, tuple) and len(c) >= 3):
            raise Unsupported('argument of the symmetry analysis')
        return c

    def ask(c, prec):
        c = cell_of(c)
        asked.append(And(same_arr(X, c[0], X.getattr(p, 'lattice')), same_arr(X, c[1], X.getattr(p, 'positions')),
                         same_arr(X, c[2], X.getattr(p, 'numbers')), eq(X, prec, X.getattr(p, 'symprec'))))

    def spacegroup(X_, c, symprec=Fraction(1, 100000), **k):
        if k:
            raise Unsupported('options of get_spacegroup')
        ask(c, symprec)
        return '%s (%d)' % (cur[0][1], cur[0][0])

    def dataset(X_, c, symprec=Fraction(1, 100000), **k):
        if k:
            raise Unsupported('options of get_symmetry_dataset')
        ask(c, symprec)
        return X_.alloc('dict', Cat([Unit(('number', cur[0][0])), Unit(('international', cur[0][1]))]))
    X.hooks[('lib', 'spglib.get_spacegroup')] = spacegroup
    X.hooks[('lib', 'spglib.get_symmetry_dataset')] = dataset
    K = X.const('K')
    X.assume(K >= 0)
    f = X.func('l_sp', [I], I)
    k, q = X.const('k'), z3.Int('q')
    l = X.newlist(For(k, K, Unit(f(k))))
    r = X.call(v.get(SGR), [l])
    goals, oks = [], []
    for num, sym in SPG:
        cur[0] = (num, sym)
        try:
            b = fb(X.truth(X.call(X.getattr(r, 'is_satisfied'), [p])))
        except PyRaise as e:
            X.oblige('no exception for %s (%d): %s' % (sym, num, e.what), False)
            continue
        listed = Ex([q], And(q >= 0, q < K, f(q) == num))
        goals.append((num, sym, b, listed))
    X.oblige('every pair is decided', len(goals) == len(SPG))
    for lo in range(1, 231, 10):
        part = [(b, w) for num, s, b, w in goals if lo <= num < lo + 10]
        X.oblige('a cell of group %d to %d passes only if its number is listed' % (lo, min(230, lo + 9)), And([Implies(b, w) for b, w in part]))
        X.oblige('a cell of group %d to %d passes if its number is listed' % (lo, min(230, lo + 9)), And([Implies(w, b) for b, w in part]))
    X.oblige('the group asked for is that of the cell itself at its own precision', And(asked) if asked else False)


UNITS = [('SpaceGroupRestriction.is_satisfied', is_satisfied)]
