"""C16: symbols and numbers; the table is finite, every entry is a case of the obligations."""
import json, os
from common_c import *
from vf import REPO

ASSUMPTIONS = ['the table is the data file pt.json of the package as it is on disk; every entry of it is enumerated (complete, not sampled)']
EL = 'ababe.stru.element'
SP = EL + '.Specie'


def table():
    return json.load(open(os.path.join(REPO, 'ababe', 'stru', 'pt.json')))


def cost(x):
    from strs import pyvalue
    return pyvalue(None, x)


def fields_ok(X, s, name, d):
    g = lambda f: X.getattr(s, f)
    return And(eq(X, g('Z'), d['Atomic no']), same(g('symbol'), name), same(g('name'), name),
               eq(X, g('atom_mass'), cost(d['Atomic mass'])), eq(X, g('atom_radius'), cost(d['Atomic radius'])))


def names(v):
    X = v.X
    t = table()
    bad = []
    for k, d in sorted(t.items()):
        s = X.call(v.get(SP), [k])
        if not isT(fields_ok(X, s, k, d)):
            bad.append(k)
    X.oblige('the species made from every symbol has the number, mass and radius of the table %s' % bad, not bad)
    X.oblige('there are elements', len(t) > 1)


def numbers(v):
    X = v.X
    t = table()
    bad, bad2 = [], []
    for k, d in sorted(t.items()):
        z = d['Atomic no']
        s = v.cls_call(SP, 'from_num', [z])
        ghost = z == 0
        if not isT(fields_ok(X, s, k, d) if not ghost else And(eq(X, X.getattr(s, 'Z'), 0), same(X.getattr(s, 'symbol'), k))):
            bad.append(k)
        if v.cls_call(SP, 'to_name', [z]) != k:
            bad2.append(k)
    X.oblige('the species made from every number is that element again %s' % bad, not bad)
    X.oblige('the name made from every number is that symbol again %s' % bad2, not bad2)
    X.oblige('no number is used twice', len(set(d['Atomic no'] for d in t.values())) == len(t))


def vacancy(v):
    X = v.X
    g = X.call(v.get(EL + '.GhostSpecie'), [])
    s = v.cls_call(SP, 'from_num', [0])
    for q in (g, s):
        X.oblige('the vacancy is number zero, named G', And(eq(X, X.getattr(q, 'Z'), 0), same(X.getattr(q, 'name'), 'G'),
                                                            same(X.getattr(q, 'symbol'), 'G')))
    X.oblige('zero is named as the vacancy', v.cls_call(SP, 'to_name', [0]) == 'G')


def any_specie(v, nm, ghost=False):
    X = v.X
    s = v.real_obj(EL + '.GhostSpecie', []) if ghost else v.real_obj(SP, ['H'])
    d = X.data(s)
    if '_Z' not in d:
        raise Unsupported('representation')
    z = X.const('Z' + nm)
    if not ghost:
        X.setfield(s, '_Z', z)
        X.setfield(s, 'symbol', X.const('sym' + nm, Item))
        X.setfield(s, 'atom_mass', X.const('mass' + nm, R))
        X.setfield(s, 'atom_radius', X.const('radius' + nm, R))
    return s, (0 if ghost else z)


def equality(v):
    X = v.X
    for ga in (False, True):
        for gb in (False, True):
            a, za = any_specie(v, 'a', ga)
            b, zb = any_specie(v, 'b', gb)
            w = zv(za) == zv(zb)
            X.oblige('equal exactly when the numbers are', Iff(fb(lib.compare(X, 'Eq', a, b)), w))
            X.oblige('unequal exactly when the numbers differ', Iff(fb(lib.compare(X, 'NotEq', a, b)), Not(w)))
    a, za = any_specie(v, 'c')
    for o in (X.const('k'), X.const('r', R), 'H', None, (za,), X.newlist(Cat([Unit(za)]))):
        X.oblige('never equal to something else', Not(fb(X.call(X.getattr(a, '__eq__'), [o]))))
        X.oblige('always unequal to something else', fb(X.call(X.getattr(a, '__ne__'), [o])))


def site(v):
    X = v.X
    t = table()
    bad = []
    pos = tuple(X.const(c, R) for c in 'xyz')
    S = 'ababe.stru.site.Site'
    for k, d in sorted(t.items()):
        z = d['Atomic no']
        for e in (k, z):
            st = X.call(v.get(S), [pos, e])
            if not isT(eq(X, X.getattr(X.getattr(st, 'element'), 'Z'), z)) or not same(X.getattr(st, 'position'), pos):
                bad.append(e)
    X.oblige('a site made from every symbol and number has that element %s' % bad, not bad)
    s, z = any_specie(v, 's')
    st = X.call(v.get(S), [pos, s])
    X.oblige('a site made from a species has it', And(same(X.getattr(st, 'element'), s), same(X.getattr(st, 'position'), pos)))
    s2, z2 = any_specie(v, 't')
    pos2 = tuple(X.const(c, R) for c in 'uvw')
    st2 = X.call(v.get(S), [pos2, s2])
    X.oblige('sites are equal exactly when position and element are',
             Iff(fb(lib.compare(X, 'Eq', st, st2)), And(z == z2, *[p == q for p, q in zip(pos, pos2)])))


UNITS = [('Specie(symbol)', names), ('Specie.from_num, to_name', numbers), ('vacancy', vacancy),
         ('Specie.__eq__, __ne__', equality), ('Site', site)]
