"""C18: the random-walk arrangement, by an invariant of its loop."""
from fractions import Fraction
import z3
from common_c import *
from vals import Cat, Guard, EMPTY
import core, lib
from lib import eq

ASSUMPTIONS = ['the problem: its goal is a number of positions of at least one, the neighbours of a position are those it lists and '
               'do not include the position itself, positions are hashable with equality consistent with hashing',
               'the neighbour graph around the start has enough positions: any set of fewer positions than requested that holds the '
               'start, all reached from it, has a neighbour outside the set',
               'the random-pop set is a set whose random pop removes and returns some member (C17)',
               'random draws are arbitrary: the invariant holds for every outcome']
ARR = 'ababe.mlearn.arrange'
RPS = 'ababe.mlearn.dsutils.RandomPopSet'
AGENT = 'ababe.mlearn.arrangeAgent'


def frontier_contract(v):
    """RandomPopSet by its contract (C17): a set of items"""
    X = v.X
    cls = v.get(RPS)
    box = lambda s: X.getfield(s, 'content')

    def new(X_, cls_=None, iterable=None, *a):
        s = X_.alloc('set', EMPTY)
        if iterable is not None:
            X_.setdata(s, X_.iter_tree(iterable))
        return X_.alloc('obj', {'content': s}, cls)
    add = lambda X_, s, x: lib.L.set_add(X_, box(s), x)
    isin = lambda X_, s, x: X_.member(X_.data(box(s)), lambda e: fb(eq(X_, e, x)))

    def without(X_, s, x):
        q = X_.const('q', Item)
        X_.push(q, [])
        old = fb(X_.member(X_.data(box(s)), lambda e: zv(e) == q))
        X_.pop()
        X_.setdata(box(s), SetFor([q], And(old, q != zv(x)), Unit(q)))

    def some(X_, s):
        c = X_.fresh('popped', Item)
        q = X_.const('q', Item)
        X_.push(q, [])
        old = fb(X_.member(X_.data(box(s)), lambda e: zv(e) == q))
        X_.pop()
        X_.safety(Ex([q], old), 'the frontier is not empty')
        X_.define(Implies(Ex([q], old), z3.substitute(old, (q, c))))
        return c

    def popped(X_, s):
        c = some(X_, s)
        without(X_, s, c)
        return c
    X.contracts[RPS] = new
    for nm, f in (('add', add), ('push', add), ('__contains__', isin), ('discard', without), ('get_random', some), ('random_pop', popped)):
        X.contracts[RPS + '.' + nm] = f
    X.contracts[RPS + '.__len__'] = lambda X_, s: (_ for _ in ()).throw(Unsupported('size of the frontier'))
    X.contracts[RPS + '.__iter__'] = lambda X_, s: (_ for _ in ()).throw(Unsupported('order of the frontier'))
    return cls, box


class Walk(object):
    def __init__(self, v):
        X = self.X = v.X
        self.v = v
        self.start, self.goal = X.const('start', Item), X.const('goal')
        self.adj, self.deg = X.func('adj', [Item, Item], B), X.func('deg', [Item], I)
        self.nb, self.ix = X.func('nb', [Item, I], Item), X.func('ix', [Item, Item], I)
        p, q, k = z3.Const('p', Item), z3.Const('q', Item), z3.Int('k')
        X.assume(self.goal >= 1)
        X.assume(All([p], And(self.deg(p) >= 0, Not(self.adj(p, p))), [self.deg(p)]))
        X.assume(All([p, q], Implies(self.adj(p, q), And(p != q, self.ix(p, q) >= 0, self.ix(p, q) < self.deg(p), self.nb(p, self.ix(p, q)) == q)), [self.adj(p, q)]))
        X.assume(All([p, k], Implies(And(k >= 0, k < self.deg(p)), self.adj(p, self.nb(p, k))), [self.nb(p, k)]))
        base = v.get(ARR + '.ArrangeProblem')
        self.problem = X.alloc('obj', {}, base)
        self.cls, self.box = frontier_contract(v)

        def neighbours(X_, s, pos):
            k = X_.const('k')
            X_.push(k, [k >= 0, k < self.deg(zv(pos))])
            e = self.nb(zv(pos), k)
            X_.pop()
            return X_.newlist(For(k, self.deg(zv(pos)), Unit(e)))
        X.contracts[ARR + '.ArrangeProblem.get_start_position'] = lambda X_, s: self.start
        X.contracts[ARR + '.ArrangeProblem.is_goal'] = lambda X_, s, n: zv(n) == self.goal
        X.contracts[ARR + '.ArrangeProblem.get_neighbors'] = neighbours

    # -- the invariant -----------------------------------------------------------------
    def parts(self, path, front):
        """[(name, formula)] over the current contents of the path and the frontier"""
        X = self.X
        n = lib_len(X, path)
        at = lambda i: zv(X.lib.getitem(X, path, i))
        i, j, q = X.const('i'), X.const('j'), X.const('q', Item)
        out = [('the path is not longer than requested', And(zv(n) >= 1, zv(n) <= self.goal))]
        out.append(('the path starts at the start position', at(0) == self.start))

        def every(ks, dom, f):
            for a, d in zip(ks, dom):
                X.push(a, [d])
            r = fb(f())
            for a in ks:
                X.pop()
            return All(ks, Implies(And(dom), r))
        ini = And(i >= 0, i < zv(n))
        inj = And(j >= 0, j < zv(n))
        out.append(('no position is repeated', every([i, j], [ini, And(inj, i < j)], lambda: at(i) != at(j))))

        def touches(x, before=None):
            w = X.const('w')
            X.push(w, [w >= 0, w < zv(n if before is None else before)])
            r = self.adj(at(w), x)
            X.pop()
            return Ex([w], And(w >= 0, w < zv(n if before is None else before), r))
        out.append(('every later position is a neighbour of an earlier one', every([j], [And(inj, j > 0)], lambda: touches(at(j), j))))
        X.push(q, [])
        inp = fb(X.member(X.data(path), lambda e: zv(e) == q))
        inf = fb(X.member(X.data(self.box(front)), lambda e: zv(e) == q))
        t = touches(q)
        X.pop()
        if self.front:
            out.append(('a frontier position is a neighbour of the path', All([q], Implies(inf, t))))
            out.append(('a frontier position is not on the path', All([q], Implies(inf, Not(inp)))))
            out.append(('every neighbour of the path is on the path or in the frontier',
                        every([q], [True], lambda: every([i], [ini], lambda: Implies(And(self.adj(at(i), q), Not(inp)), inf)))))
        self.enough = Implies(zv(n) < self.goal, Ex([q], And(t, Not(inp))))
        return out

    front = True

    def loop(self, X, s, fid):
        """while: the invariant on entry, after every iteration, and at the exit"""
        fr = X.st.frames[fid]
        paths = [r for r in fr.values() if isinstance(r, Ref) and X.obj(r).kind == 'list']
        fronts = [r for r in fr.values() if isinstance(r, Ref) and X.obj(r).kind == 'obj' and X.obj(r).cls is self.cls]
        paths = list(dict((r.oid, r) for r in paths).values())
        fronts = list(dict((r.oid, r) for r in fronts).values())
        if len(paths) != 1 or len(fronts) != 1 or s.orelse:
            raise Unsupported('another loop')
        path, front = paths[0], fronts[0]
        for nm, f in self.parts(path, front):
            X.oblige('on entry: ' + nm, f)
        # an arbitrary state satisfying the invariant
        n, P, F = X.fresh('len'), X.func('path', [I], Item), X.func('front', [Item], B)
        k, q = X.const('k'), X.const('q', Item)
        X.setdata(path, For(k, n, Unit(P(k))))
        X.setdata(self.box(front), SetFor([q], F(q), Unit(q)))
        X.define(n >= 1)
        for x in core._assigned(s.body):
            fr[x] = core.Dead('changed by the loop') if x in fr else fr.get(x, core.Dead('unbound'))
        for nm, f in self.parts(path, front):
            X.define(f)
        X.define(self.enough)
        c = fb(X.truth(X.eval(s.test, fid)))
        head = X.st
        X.st = head.clone()
        with X.under(c):
            outs = X.block(s.body, fid)
            res = [('normal', Not(c), None, head)]
            for kind, cc, val, st in outs:
                X.st = st
                if kind in ('normal', 'continue'):
                    with X.under(cc):
                        other = [loc for loc in X.diff(head, st) if not self.expected(X, loc, path, front, s, fid)]
                        if other:
                            raise Unsupported('the loop also changes %s' % (other[0],))
                        for nm, f in self.parts(path, front):
                            X.oblige('after an iteration: ' + nm, f)
                        X.oblige('an iteration adds one position', eq(X, lib_len(X, path), n + 1))
                else:
                    res.append(('normal' if kind == 'break' else kind, And(c, cc), val, st))
        X.st = head
        X.assume(Or([o[1] for o in res]))       # the variant: every iteration adds a position, the path is not longer than requested
        if len(res) == 1:
            res = [(res[0][0], True) + res[0][2:]]
        return X.combine(res)

    def expected(self, X, loc, path, front, s, fid):
        if loc[0] == 'var':
            return loc[2] in core._assigned(s.body)
        return loc[1] in (path.oid, front.oid, self.box(front).oid)


def lib_len(X, r):
    import models
    return models._len(X, r)


def walk(v):
    X = v.X
    w = Walk(v)
    fn = v.get(ARR + '.random_walk_arrange')
    X.hooks[('while', fn.qual)] = w.loop
    r = X.call(fn, [w.problem])
    if not (isinstance(r, Ref) and X.obj(r).kind == 'list'):
        raise Unsupported('the path is not a list')
    w.front = False
    fr = X.call(v.get(RPS), [])
    for nm, f in w.parts(r, fr):
        if 'longer' not in nm:
            X.oblige('the result: ' + nm, f)
    X.oblige('the result: exactly the requested number of positions', eq(X, lib_len(X, r), w.goal))


def problem(cls, grid, dim):
    def run(v):
        X = v.X
        n = X.const('n')
        X.assume(n >= 1)
        asked = []

        def neighbours(X_, s, pos, delta):
            asked.append((s, pos, delta))
            return X_.newlist(EMPTY)
        X.contracts[grid + '.get_neighbors'] = neighbours
        p = v.real_obj(AGENT + '.' + cls, [n])
        st = X.call(X.getattr(p, 'get_start_position'), [])
        ok = isinstance(st, tuple) and len(st) == dim
        X.oblige('the start is a position of the grid', ok and And([And(cmp(X, '>=', c, 0), cmp(X, '<', c, n)) for c in st]))
        X.oblige('the start is the middle', ok and And([And(2 * zv(c) <= n, 2 * zv(c) >= n - 1) for c in st]))
        k = X.const('k')
        X.oblige('the goal is the number of positions requested', Iff(fb(X.truth(X.call(X.getattr(p, 'is_goal'), [k]))), k == n))
        pos = tuple(X.const('q') for _ in range(dim))
        X.call(X.getattr(p, 'get_neighbors'), [pos])
        if len(asked) != 1:
            raise Unsupported('neighbours from elsewhere')
        g, a, d = asked[0]
        X.oblige('the neighbours are those of the grid within 2.1', And(isinstance(a, tuple) and And([eq(X, x, y) for x, y in zip(a, pos)]),
                 eq(X, d, Fraction('2.1'))))
        sizes = ('depth', 'width', 'length')[-dim:]
        X.oblige('the grid has the requested number of positions along each axis', And([eq(X, X.getattr(g, w), n) for w in sizes]))
    return run


UNITS = [('Boron2dArrangeProblem', problem('Boron2dArrangeProblem', 'ababe.stru.scaffold2d.CStru2d', 2)),
         ('FCC3dArrangeProblem', problem('FCC3dArrangeProblem', 'ababe.stru.scaffold.CStru', 3)),
         ('random_walk_arrange', walk)]
