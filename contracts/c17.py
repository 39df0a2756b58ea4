"""C17: the random-pop set is a set, over a representation invariant on its two containers."""
from common_c import *
from vals import Cat, Guard, EMPTY

ASSUMPTIONS = ['the operators inherited from collections.abc.MutableSet are built from add, discard, membership, iteration and '
               'length; a history is any sequence of the operations below, so the invariant carries over it',
               'items are hashable with equality consistent with hashing (a dictionary is a map over item equality)']
RPS = 'ababe.mlearn.dsutils.RandomPopSet'
KNOWN = {'__init__', '__len__', '__iter__', '__contains__', 'add', 'push', 'discard', 'get_random', 'random_pop'}
MIXED = {'__ior__', '__iand__', '__ixor__', '__isub__', 'remove', 'pop', 'clear', '__or__', '__and__', '__sub__', '__xor__', '__le__',
         '__lt__', '__ge__', '__gt__', '__eq__', '__ne__', 'isdisjoint', '_from_iterable', '__hash__', '__bool__', '__copy__', '__len__',
         '__reversed__', 'update', 'union', 'difference', 'intersection'}


def prune(X, t):
    if isinstance(t, Guard):
        if X.entails(t.c):
            return prune(X, t.t)
        if X.entails(Not(t.c)):
            return EMPTY
        return t
    if isinstance(t, Cat):
        r = Cat([prune(X, u) for u in t.ts])
        return r.ts[0] if len(r.ts) == 1 else r
    return t


def fields(X, r):
    """the mapping and the list of the set"""
    d = X.data(r)
    ds = [k for k, v in d.items() if isinstance(v, Ref) and X.obj(v).kind == 'dict']
    ls = [k for k, v in d.items() if isinstance(v, Ref) and X.obj(v).kind == 'list']
    if len(ds) != 1 or len(ls) != 1 or len(d) != 2:
        raise Unsupported('another representation')
    return ds[0], ls[0]


def fresh(v, nm='s'):
    """an arbitrary state satisfying the invariant"""
    X = v.X
    cls = v.get(RPS)
    odd = [n.name for n in cls.node.body if hasattr(n, 'name') and n.name not in KNOWN and n.name in MIXED]
    if odd:
        raise Unsupported('%s is overridden' % odd)
    r = v.real_obj(RPS, [])
    md, ml = fields(X, r)
    dom, val = X.func('dom', [Item], B), X.func('val', [Item], I)
    elt = X.func('elt', [I], Item)
    n = X.const('n')
    p = X.const('p', Item)
    k = X.const('k')
    m = X.alloc('dict', MapV(p, dom(p), val(p), n))
    l = X.newlist(For(k, n, Unit(elt(k))))
    X.setfield(r, md, m)
    X.setfield(r, ml, l)
    X.assume(n >= 0)
    X.assume(All([p], Implies(dom(p), And(val(p) >= 0, val(p) < n, elt(val(p)) == p)), [dom(p)]))
    X.assume(All([k], Implies(And(k >= 0, k < n), And(dom(elt(k)), val(elt(k)) == k)), [elt(k)]))
    return r, dom, n, (md, ml)


def state(X, r, names):
    """(membership of p, length, elements, list length) of the current state"""
    m = X.data(X.getfield(r, names[0]))
    t = prune(X, X.data(X.getfield(r, names[1])))
    if isinstance(m, Cat):
        if m.ts:
            raise Unsupported('map state')
        return (lambda x: False), (lambda x: 0), 0, None, X.tlen(t)
    g = lambda f: (lambda x: sub(f, [(m.p, x)]))
    return g(m.dom), g(m.val), m.size, (lambda j: X.at(t, j)), X.tlen(t)


def inv(X, r, names):
    """the invariant of the state reached is an obligation"""
    dom, val, size, elt, n = state(X, r, names)
    p, k = X.const('p', Item), X.const('k')
    X.oblige('the list is as long as the map', eq(X, size, n))
    if elt is None:
        X.oblige('the list is empty', eq(X, n, 0))
        return dom
    X.oblige('every member is listed at its index', All([p], Implies(dom(p), And(zv(val(p)) >= 0, zv(val(p)) < zv(n)))))
    X.push(p, [dom(p)])
    e = elt(val(p))
    X.oblige('the index of a member points at it', eq(X, e, p))
    X.pop()
    X.push(k, [k >= 0, k < zv(n)])
    e = elt(k)
    X.oblige('every listed item is a member with that index', And(fb(dom(e)), eq(X, val(e), k)))
    X.pop()
    return dom


def becomes(X, dom, new):
    q = X.const('q', Item)
    X.oblige('the members are exactly those', All([q], Iff(fb(dom(q)), fb(new(q)))))


def init(v):
    X = v.X
    r = v.real_obj(RPS, [])
    dom = inv(X, r, fields(X, r))
    becomes(X, dom, lambda q: False)


def init_from(v):
    """the constructor adds every element of its argument, one after the other, to the empty set"""
    X = v.X
    n = X.const('n')
    f = X.func('src', [I], Item)
    k = X.const('k')
    src = X.newlist(For(k, n, Unit(f(k))))
    log = []

    def ior(X_, s, it):
        nm = fields(X_, s)
        e = state(X_, s, nm)[3] is None
        log.append((s, it, e))
        return s
    X.hooks[('lib', 'collections.abc.MutableSet.__ior__')] = ior
    adds = []
    X.focus.add(RPS)
    r = X.call(v.get(RPS), [src], {})
    if len(log) != 1:
        raise Unsupported('the constructor fills the set in another way')
    X.oblige('the argument is merged once into the empty set', log[0][2] and same(log[0][0], r) and same(log[0][1], src))


def op(name, member, arg=True, effect=None, ret=None, nonempty=None):
    def run(v):
        X = v.X
        r, dom, n, names = fresh(v)
        x = X.const('x', Item)
        if member is not None:
            X.assume(dom(x) if member else Not(dom(x)))
        if nonempty is not None:
            X.assume(n >= 1 if nonempty else n == 0)
        res = lib.resolve(X, X.call(X.getattr(r, name), [x] if arg else []))
        d2 = inv(X, r, names)
        becomes(X, d2, effect(dom, x, res))
        if ret is not None:
            X.oblige('result', ret(X, dom, n, x, res))
    return run


def contains(v):
    X = v.X
    r, dom, n, names = fresh(v)
    x = X.const('x', Item)
    res = lib.contains(X, r, x)
    X.oblige('membership', Iff(fb(res), dom(x)))
    X.oblige('length', eq(X, lib.call(X, Lib('builtins.len'), [r], {}), n))
    becomes(X, inv(X, r, names), dom)


def iterate(v):
    X = v.X
    r, dom, n, names = fresh(v)
    t = X.iter_tree(r)
    j, j2, q = X.const('j'), X.const('j'), X.const('q', Item)
    X.oblige('iteration reaches every member and only members',
             All([q], Iff(X.member(t, lambda e: eq(X, e, q)), dom(q))))
    L = X.tlen(t)
    X.oblige('as many as the length', eq(X, L, n))
    X.oblige('no member twice', All([j, j2], Implies(And(j >= 0, j < j2, j2 < zv(L)), Not(eq(X, X.at(t, j), X.at(t, j2))))))
    becomes(X, inv(X, r, names), dom)


keep = lambda dom, x, res: dom
UNITS = [
    ('RandomPopSet()', init),
    ('RandomPopSet(iterable)', init_from),
    ('membership and length', contains),
    ('iteration', iterate),
    ('add a member', op('add', True, effect=keep)),
    ('add a new item', op('add', False, effect=lambda dom, x, res: lambda q: Or(dom(q), q == x))),
    ('push a member', op('push', True, effect=keep)),
    ('push a new item', op('push', False, effect=lambda dom, x, res: lambda q: Or(dom(q), q == x))),
    ('discard a member', op('discard', True, effect=lambda dom, x, res: lambda q: And(dom(q), q != x))),
    ('discard another item', op('discard', False, effect=keep)),
    ('get_random', op('get_random', None, arg=False, nonempty=True, effect=keep, ret=lambda X, dom, n, x, res: dom(res))),
    ('get_random on an empty set', op('get_random', None, arg=False, nonempty=False, effect=keep,
                                      ret=lambda X, dom, n, x, res: lib.is_(X, res, None))),
    ('random_pop', op('random_pop', None, arg=False, nonempty=True,
                      effect=lambda dom, x, res: lambda q: And(dom(q), q != res), ret=lambda X, dom, n, x, res: dom(res))),
    ('random_pop on an empty set', op('random_pop', None, arg=False, nonempty=False, effect=keep,
                                      ret=lambda X, dom, n, x, res: lib.is_(X, res, None))),
]
