"""Verification-condition generator for a subset of Python.

A function of /repo is executed symbolically, branches are merged, a loop over a symbolic sequence
is executed once for an arbitrary iteration and summarised exactly:
  * collections that only grow get a comprehension tree as their value,
  * membership queries on a collection that the same loop fills become predicates defined by the
    additions of the earlier iterations,
  * element writes are summarised by 'last writer',
  * early exits by 'first exiting iteration',
  * other carried scalars by their recurrence (then an invariant from the contract is needed).
"""
import ast, os, itertools, time
from fractions import Fraction
import z3
from vals import *


class State(object):
    def __init__(self, heap=None, frames=None):
        self.heap, self.frames = heap or {}, frames or {}

    def clone(self):
        return State(dict(self.heap), dict((f, dict(v)) for f, v in self.frames.items()))


class Dead(object):
    """a variable whose value after a loop is not tracked, or unbound"""
    def __init__(self, why):
        self.why = why


class Level(object):
    def __init__(self, k, guards):
        self.k, self.guards, self.facts = k, guards, []


class Obl(object):
    def __init__(self, name, hyps, goal, where, kind='post'):
        self.name, self.hyps, self.goal, self.where, self.kind = name, hyps, goal, where, kind


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, repo, lib, contracts=None):
        self.repo, self.lib = repo, lib
        self.shared = set()
        self.contracts = contracts or {}
        self.st = State()
        self.levels = [Level(None, [])]
        self.pc = []
        self.obls = []
        self.cnt = itertools.count()
        self.oid = itertools.count(1)
        self.fid = itertools.count(1)
        self.mods = {}
        self.depth = 0
        self.cur_mod = self.cur_qual = self.cur_file = None
        self.line = '?'
        self.active = []
        self.focus = set()          # functions whose body is used even if they have a contract
        self.used = set()           # functions of /repo whose body was executed
        self.used_lib = set()       # library models used
        self.used_contracts = set()
        self.try_depth = 0
        self.pending = []
        self.hooks = {}
        self.flatcache = {}
        self.flatshapes = []
        self.muted = 0
        self.opaque = {}            # class qualname -> handler for attribute access on model objects
        self.t_quick = 0.0
        self.effects_oid = None
        self.sortrecs, self.used_lemmas, self.opts = [], set(), {}
        self.combs, self.sorts, self.invs, self.concats, self.pdists = [], [], [], [], []

    # ------------------------------------------------------------------ symbols, facts
    def name(self, base):
        return '%s!%d' % (base, next(self.cnt))

    def const(self, base, sort=I):
        return z3.Const(self.name(base), sort)

    def binders(self):
        return [l.k for l in self.levels if l.k is not None]

    def fresh(self, base, sort=I):
        """fresh symbol, a function of the binders in scope"""
        bs = self.binders()
        if not bs:
            return self.const(base, sort)
        return z3.Function(self.name(base), *([b.sort() for b in bs] + [sort]))(*bs)

    def func(self, base, doms, rng):
        """fresh function, depending on the binders in scope as well"""
        bs = self.binders()
        f = z3.Function(self.name(base), *([b.sort() for b in bs] + list(doms) + [rng]))
        return lambda *a: f(*(bs + [zv(x) for x in a]))

    def push(self, k, guards):
        self.levels.append(Level(k, [g for g in guards if not isT(g)]))

    def pop(self):
        l = self.levels.pop()
        g = And(l.guards)
        for f in l.facts:
            if isT(f):
                continue
            f = fb(f)
            if occurs(l.k, f):
                self.levels[-1].facts.append(All([l.k], Implies(g, f)))
            elif isT(g):
                self.levels[-1].facts.append(f)
            else:
                self.levels[-1].facts.append(Implies(Ex([l.k], g), f))

    def assume(self, f):
        f = Implies(And(self.pc), f)
        if not isT(f):
            self.levels[-1].facts.append(f)

    def define(self, f):
        """a definitional fact (holds on every path)"""
        if not isT(f):
            self.levels[-1].facts.append(fb(f))

    def hyps(self):
        out = []
        for l in self.levels:
            out += [fb(g) for g in l.guards] + [fb(f) for f in l.facts]
        out += [fb(c) for c in self.pc]
        return out

    def oblige(self, name, goal, kind='post'):
        if isT(goal):
            goal = z3.BoolVal(True)
        self.obls.append(Obl(name, self.hyps(), fb(goal), self.line, kind))

    def safety(self, cond, what):
        """the operation raises unless cond"""
        if isT(cond):
            return
        if is_z(cond):
            s = z3.simplify(cond)
            if z3.is_true(s):
                return
        if isF(cond):
            if self.try_depth:
                raise PyRaise(what)
        if self.try_depth:
            self.pending.append((And(list(self.pc[self.pcmark:]) + [Not(cond)]), what))
            self.assume(cond)
            return
        self.obls.append(Obl('no error: ' + what, self.hyps(), fb(cond), self.line, 'safety'))
        self.assume(cond)

    def entails(self, goal, ms=1500):
        """quick entailment test (used only to choose between exact rules)"""
        if isT(goal):
            return True
        if isF(goal):
            return False
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        hy = self.hyps()
        s.add(*hy)
        s.add(*self.lib.theory(hy + [fb(goal)]))
        s.add(z3.Not(goal))
        r = s.check() == z3.unsat
        self.t_quick += time.time() - t0
        return r

    def under(self, c):
        return _Under(self, c)

    # ------------------------------------------------------------------ heap
    def alloc(self, kind, data, cls=None, meta=None, global_=False):
        o = next(self.oid)
        bs = [] if global_ else self.binders()
        self.st.heap[o] = HObj(kind, bs, cls, data, meta)
        return Ref(o, bs)

    def obj(self, r):
        return self.st.heap[r.oid]

    def data(self, r):
        h = self.st.heap[r.oid]
        m = [(b, i) for b, i in zip(h.binders, r.idx) if not b.eq(zv(i))]
        return sub(h.data, m) if m else h.data

    def own(self, r):
        """r addresses the object of the current generic iteration (or a plain object)"""
        h = self.st.heap[r.oid]
        return all(zv(i).eq(b) for b, i in zip(h.binders, r.idx))

    def share(self, v):
        """v outlives the call it is used in: it may be read, not changed"""
        if isinstance(v, Ref) and v.oid not in self.shared:
            self.shared.add(v.oid)
            d = self.st.heap[v.oid].data
            todo = list(d.values()) if isinstance(d, dict) else [x.v for x in (d.ts if isinstance(d, Cat) else ()) if isinstance(x, Unit)]
            for x in todo:
                self.share(x)
        elif isinstance(v, tuple):
            for x in v:
                self.share(x)
        return v

    def setdata(self, r, data):
        h = self.st.heap[r.oid]
        if r.oid in self.shared:
            raise Unsupported('state shared between calls is changed')
        if not self.own(r):
            raise Unsupported('update of a container inside a family')
        self.st.heap[r.oid] = h.with_(data)

    def getfield(self, r, name):
        h = self.st.heap[r.oid]
        v = h.data[name]
        if isinstance(v, FamField):
            return self.lam_get(v.lam, r.idx)
        m = [(b, i) for b, i in zip(h.binders, r.idx) if not b.eq(zv(i))]
        v = sub(v, m) if m else v
        self.check_old(v)
        return v

    def setfield(self, r, name, v):
        h = self.st.heap[r.oid]
        if r.oid in self.shared:
            raise Unsupported('state shared between calls is changed')
        d = dict(h.data)
        cur = d.get(name)
        if isinstance(cur, FamField):
            d[name] = FamField(self.lam_set(cur.lam, r.idx, v))
        elif self.own(r):
            d[name] = v
        else:
            if cur is None and name not in d:
                raise Unsupported('new field in a family')
            c = And([zv(b) == zv(i) for b, i in zip(h.binders, r.idx)])
            d[name] = merge(c, v, cur)
        self.st.heap[r.oid] = h.with_(d)

    def check_old(self, v):
        if isinstance(v, Old):
            raise NeedCarry(v.loc)
        if isinstance(v, IteV):
            self.check_old(v.a)
            self.check_old(v.b)
        if isinstance(v, Dead):
            raise Unsupported('value after loop: ' + v.why)

    # ------------------------------------------------------------------ arrays
    def mk(self, dims, f, dtype=None):
        """array with element f(i, j, ...)"""
        ps = []
        for d in dims:
            p = self.const('i')
            ps.append(p)
            self.push(p, [p >= 0, p < zv(d)])
        try:
            body = f(*ps)
        finally:
            for d in dims:
                self.pop()
        return Lam(dims, ps, body)

    def arr(self, lam, dtype=None):
        return self.alloc('arr', lam, meta=dtype)

    def lam_get(self, lam, idx):
        m = [(p, zv(i)) for p, i in zip(lam.ps, idx)]
        if lam.hist is not None:
            # read inside a loop that writes this array: the value before the loop, provided no earlier
            # iteration wrote there (checked when the loop is summarised)
            lam.hist['reads'].append((tuple(zv(i) for i in idx), list(self.binders()), list(self.pc)))
        v = sub(lam.body, m)
        for w in lam.log:
            c = And([w[0]] + [zv(x) == zv(y) for x, y in zip(w[1], idx)])
            v = merge(c, w[2], v)
        return v

    def lam_set(self, lam, idx, v, cond=True):
        if lam.hist is not None:
            return Lam(lam.dims, lam.ps, lam.body, lam.hist, lam.log + ((cond, tuple(zv(i) for i in idx), v),))
        c = And([cond] + [p == zv(i) for p, i in zip(lam.ps, idx)])
        body = lam.body
        if is_z(body) and is_num(v) and body.sort() == I and not is_bool(v) and zv(v).sort() == R:
            raise Unsupported('real stored in an integer array')
        if isinstance(lam, ConcLam):
            i = zv(idx[0])
            if z3.is_int_value(i) and 0 <= i.as_long() < len(lam.rows):
                rows = list(lam.rows)
                rows[i.as_long()] = self.lam_set(rows[i.as_long()], idx[1:], v, cond)
                return ConcLam(lam.dims, lam.ps, merge(c, v, body), rows)
        return Lam(lam.dims, lam.ps, merge(c, v, body))

    # ------------------------------------------------------------------ sequences
    def tlen(self, t):
        if isinstance(t, Unit):
            return 1
        if isinstance(t, Cat):
            n = 0
            for x in t.ts:
                n = self.lib.add(self, n, self.tlen(x))
            return n
        if isinstance(t, For) and isinstance(t.t, Unit):
            return t.n
        if isinstance(t, Hist):
            return self.hist_len(t, True)
        if isinstance(t, SetFor):
            return self.tlen(self.listed(t))
        return self.flatten(t)[0]

    def listed(self, t):
        """an unordered listing with explicit positions"""
        if not (isinstance(t.t, Unit)):
            raise Unsupported('order of a nested unordered sequence')
        return self.distinct(t)

    def hist_len(self, t, exact):
        """number of elements of a collection growing in a loop, at the start of an iteration"""
        rec = t.rec
        if 'cnt' not in rec:
            lv = self.levels.pop()
            rec['cnt'] = self.func('cnt', [I], I)
            self.levels.append(lv)
            rec['exact'] = exact
        f = rec['cnt']
        self.define(f(zv(t.k)) >= 0)
        return f(zv(t.k))

    def set_len(self, t, eqf):
        """number of different elements of a growing set or dictionary"""
        if isinstance(t, Hist):
            return self.hist_len(t, False)
        if not isinstance(t, Cat):
            t = Cat([t])
        if not t.ts:
            return 0
        last = t.ts[-1]
        pre = Cat(list(t.ts[:-1]))
        if isinstance(last, Unit):
            return self.lib.add(self, self.set_len(pre, eqf), merge(self.member(pre, lambda v: eqf(v, last.v)), 0, 1))
        if isinstance(last, Guard):
            ts = list(last.t.ts) if isinstance(last.t, Cat) else [last.t]
            return merge(last.c, self.set_len(Cat(list(pre.ts) + ts), eqf), self.set_len(pre, eqf))
        if not pre.ts and isinstance(last, Hist):
            return self.hist_len(last, False)
        n = self.fresh('card')
        self.define(n >= 0)
        return n

    def at(self, t, j):
        """element j of the sequence (j in range is the caller's business)"""
        if isinstance(t, Unit):
            return t.v
        if isinstance(t, For) and isinstance(t.t, Unit):
            return sub(t.t.v, [(t.k, zv(j))])
        if isinstance(t, Cat):
            if isinstance(j, int) and all(isinstance(x, Unit) for x in t.ts[:j + 1]) and 0 <= j < len(t.ts):
                return t.ts[j].v
            if not t.ts:
                raise PyRaise('IndexError')
            off, res = 0, []
            for x in t.ts:
                n = self.tlen(x)
                hi = self.lib.add(self, off, n)
                res.append((off, hi, x))
                off = hi
            v = self.at(res[-1][2], self.lib.sub(self, j, res[-1][0]))
            for lo, hi, x in reversed(res[:-1]):
                c = self.lib.cmp(self, '<', j, hi)
                if isF(c):
                    continue
                if is_z(c) and z3.is_false(z3.simplify(c)):
                    continue
                v = merge(c, self.at(x, self.lib.sub(self, j, lo)), v)
            return v
        if isinstance(t, Hist):
            raise NeedCarry(t.loc)
        if isinstance(t, SetFor):
            return self.at(self.listed(t), j)
        return self.flatten(t)[1](j)

    def leaves(self, t, bs=(), g=()):
        """[(binders [(k, n)], guards, value)] in order; fresh binders"""
        if isinstance(t, Unit):
            return [(list(bs), list(g), t.v)]
        if isinstance(t, Guard):
            return self.leaves(t.t, bs, tuple(g) + (t.c,))
        if isinstance(t, For):
            k = self.const('b')
            return self.leaves(sub(t.t, [(t.k, k)]), tuple(bs) + ((k, t.n),), g)
        if isinstance(t, SetFor):
            ks = [self.const('b', k.sort()) for k in t.ks]
            m = list(zip(t.ks, ks))
            return self.leaves(sub(t.t, m), tuple(bs) + tuple((k, None) for k in ks), tuple(g) + (sub(fb(t.p), m),))
        if isinstance(t, Cat):
            return list(itertools.chain(*[self.leaves(x, bs, g) for x in t.ts]))
        raise Unsupported('leaves of a growing list')

    def flatten(self, t):
        """length and element function of a filtered / nested sequence with one leaf:
        an order preserving bijection between [0, L) and the binder tuples in its domain"""
        key = id(t)
        if key in self.flatcache and self.flatcache[key][0] is t:
            return self.flatcache[key][1]
        ls = self.leaves(t)
        if len(ls) != 1:
            raise Unsupported('flattening a sequence with several leaves')
        bs, gs, v = ls[0]
        ks = [k for k, n in bs]
        if any(n is None for k, n in bs):
            raise Unsupported('order of an unordered sequence')
        dom = And([And(k >= 0, k < zv(n)) for k, n in bs] + gs)
        rect = self.rectangle(bs, gs, v)
        if rect is not None:
            self.flatcache[key] = (t, rect)
            self.flatshapes.append((tuple(b.get_id() for b in self.binders()), z3.BoolVal(False), len(ks), (rect[0], rect[2], rect[5], dom, ks)))
            return rect
        # the symbols may depend on the binders in scope; the same domain in the same scope has the same symbols
        scope = tuple(b.get_id() for b in self.binders())
        canon = z3.simplify(sub(dom, [(k, z3.Const('b!%d' % i, k.sort())) for i, k in enumerate(ks)]))
        for sc, cn, nk, (L, rank, g, dm, dks) in self.flatshapes:
            if sc == scope[:len(sc)] and nk == len(ks) and cn.eq(canon):
                res = (L, (lambda g: lambda q: sub(v, [(k, f(zv(q))) for k, f in zip(ks, g)]))(g), rank, ks, dom, g)
                self.flatcache[key] = (t, res)
                return res
        L = self.fresh('len')
        g = [self.func('g', [I], I) for _ in ks]
        rank = self.func('rank', [I] * len(ks), I)
        j, j2 = self.const('j'), self.const('j')
        gj = [f(j) for f in g]
        at_dom = sub(dom, list(zip(ks, gj)))
        self.define(L >= 0)
        self.define(All([j], Implies(And(j >= 0, j < L), And(at_dom, rank(*gj) == j)), [g[0](j)] if False else ()))
        rk = rank(*ks)
        self.define(All(ks, Implies(dom, And(rk >= 0, rk < L, *[f(rk) == k for f, k in zip(g, ks)]))))
        lex = False
        for f in reversed(g):
            lex = Or(f(j) < f(j2), And(f(j) == f(j2), lex))
        self.define(All([j, j2], Implies(And(j >= 0, j < j2, j2 < L), lex)))
        res = (L, lambda q: sub(v, [(k, f(zv(q))) for k, f in zip(ks, g)]), rank, ks, dom, g)
        if len(bs) == 1 and not any(occurs(x, fb(c)) for c in gs for x in ()):
            self.define(L <= z3.If(zv(bs[0][1]) >= 0, zv(bs[0][1]), 0))
        self.flatcache[key] = (t, res)
        self.flatshapes.append((scope, canon, len(ks), (L, rank, g, dom, ks)))
        hook = self.hooks.get('count')
        if hook is not None:
            hook(self, L, rank, g, dom, ks)
        return res

    def rectangle(self, bs, gs, v):
        """several nested loops over independent ranges: row-major order"""
        ks = [k for k, n in bs]
        if len(bs) < 2 or gs or not self.opts.get('rectangles'):
            return None
        if any(occurs(k, zv(n)) for k in ks for _, n in bs):
            return None
        import models
        ns = [models.nonneg(self, n) for _, n in bs]
        L = 1
        for n in ns:
            L = self.lib.mul(self, L, n)
        PQ, PR, MK = self.lib.PQ, self.lib.PR, self.lib.MK

        def part(i):
            def f(j):
                j = zv(j)
                for n in reversed(ns[i + 1:]):
                    j = PQ(j, zv(n))
                return PR(j, zv(ns[i])) if i else j
            return f

        def rank(*xs):
            r = zv(xs[0])
            for x, n in zip(xs[1:], ns[1:]):
                r = MK(r, zv(x), zv(n))
            return r
        g = [part(i) for i in range(len(ks))]
        return (L, (lambda q: sub(v, [(k, f(q)) for k, f in zip(ks, g)])), rank, ks, And([And(k >= 0, k < zv(n)) for k, n in bs]), g)

    def member(self, t, test):
        """formula: some element v of the sequence satisfies test(v)"""
        if isinstance(t, Unit):
            return test(t.v)
        if isinstance(t, Guard):
            with self.under(t.c):
                f = self.member(t.t, test)
            return And(t.c, f)
        if isinstance(t, Cat):
            return Or([self.member(x, test) for x in t.ts])
        if isinstance(t, For):
            k = self.const('m')
            dom = [k >= 0, k < zv(t.n)]
            self.push(k, dom)
            try:
                f = self.member(sub(t.t, [(t.k, k)]), test)
            finally:
                self.pop()
            return Ex([k], And(dom, f))
        if isinstance(t, SetFor):
            ks = [self.const('m', k.sort()) for k in t.ks]
            m = list(zip(t.ks, ks))
            p = sub(fb(t.p), m)
            for i, k in enumerate(ks):
                self.push(k, [p] if i == len(ks) - 1 else [])
            try:
                f = self.member(sub(t.t, m), test)
            finally:
                for k in ks:
                    self.pop()
            return Ex(ks, And(p, f))
        if isinstance(t, Hist):
            q = self.fresh('inhist', B)
            t.rec['queries'].append((q, test, list(self.binders())))
            return q
        raise Unsupported('membership in %r' % t)

    def forall_in(self, t, test):
        return Not(self.member(t, lambda v: Not(test(v))))

    def seq(self, n, f):
        """For tree with element f(k)"""
        if isinstance(n, int):
            return Cat([Unit(f(i)) for i in range(n)])
        k = self.const('k')
        self.push(k, [k >= 0, k < zv(n)])
        try:
            v = f(k)
        finally:
            self.pop()
        return For(k, n, Unit(v))

    def tree_of(self, v):
        """iterate a value: its sequence of elements"""
        if isinstance(v, Tree):
            return v
        if isinstance(v, tuple):
            return Cat([Unit(x) for x in v])
        if isinstance(v, str):
            return Cat([Unit(x) for x in v])
        if isinstance(v, Ref):
            h = self.obj(v)
            d = self.data(v)
            if h.kind in ('list', 'tuple', 'gen'):
                return d
            if h.kind == 'set':
                if isinstance(d, Tree):
                    return self.setlist(d)
            if h.kind == 'dict' and isinstance(d, Tree):
                return self.tmap(d, lambda kv: kv[0])
            if h.kind == 'arr':
                return self.arr_rows(v)
            if h.kind == 'obj':
                m = self.lookup(h.cls, '__iter__') if isinstance(h.cls, ClassV) else None
                if m is not None:
                    return self.tree_of(self.call(m.bind(v), [], {}))
                if h.meta and 'iter' in h.meta:
                    return h.meta['iter'](self, v)
        if isinstance(v, IteV):
            return Cat([guard(v.c, self.tree_of(v.a)), guard(Not(v.c), self.tree_of(v.b))])
        raise Unsupported('iteration over %r' % (v,))

    def iter_tree(self, v):
        """iterate a value to its end: a generator is exhausted by it"""
        t = self.tree_of(v)
        if isinstance(v, Ref) and self.obj(v).kind == 'gen' and not (isinstance(t, Cat) and not t.ts):
            self.setdata(v, EMPTY)
        return t

    def setlist(self, t):
        """iterate a set: every value once, order unspecified"""
        if isinstance(t, Cat) and all(isinstance(x, Unit) and is_conc(x.v) for x in t.ts):
            return self.distinct(t)
        s = t.ts[0] if isinstance(t, Cat) and len(t.ts) == 1 else t
        if isinstance(s, SetFor) and isinstance(s.t, Unit) and (
                (len(s.ks) == 1 and same(s.t.v, s.ks[0])) or same(s.t.v, tuple(s.ks))):
            return s
        ls = self.leaves(t)
        v0 = ls[0][2]
        if is_num(v0) or is_z(v0):
            ks = [self.const('x', zv(v0).sort())]
            val = ks[0]
        elif isinstance(v0, tuple) and all(is_num(x) or is_z(x) for x in v0):
            ks = [self.const('x', zv(x).sort()) for x in v0]
            val = tuple(ks)
        else:
            raise Unsupported('listing a set of %r' % (v0,))
        for k in ks:
            self.push(k, [])
        p = self.member(t, lambda v: self.lib.eq(self, v, val))
        for k in ks:
            self.pop()
        hook = self.hooks.get('setpred')
        if hook is not None:
            p2 = hook(self, ks, p)
            p = p if p2 is None else p2
        return SetFor(ks, p, Unit(val))

    def distinct(self, t):
        """a set listed in some order, each element once"""
        if isinstance(t, Cat) and not t.ts:
            return t
        if getattr(t, '_distinct', False) or (id(t) in self.flatcache and self.flatcache[id(t)][1] == 'distinct'):
            return t
        if isinstance(t, Cat) and all(isinstance(x, Unit) and is_conc(x.v) for x in t.ts):
            out = []
            for x in t.ts:
                if x.v not in [y.v for y in out]:
                    out.append(x)
            return Cat(out)
        key = ('d', id(t))
        if key in self.flatcache and self.flatcache[key][0] is t:
            return self.flatcache[key][1]
        ls = self.leaves(t)
        v0 = ls[0][2]
        sorts = None
        if is_num(v0) or is_z(v0):
            sorts = [zv(v0).sort()]
        elif isinstance(v0, tuple) and all(is_num(x) or is_z(x) for x in v0):
            sorts = [zv(x).sort() for x in v0]
        if sorts is None:
            raise Unsupported('listing a set of %r' % (v0,))
        n = self.fresh('card')
        fs = [self.func('elem', [I], s) for s in sorts]
        mkv = lambda j: fs[0](j) if not isinstance(v0, tuple) else tuple(f(j) for f in fs)
        self.define(n >= 0)
        j, j2 = self.const('j'), self.const('j')
        self.push(j, [j >= 0, j < n])
        self.define(self.member(t, lambda v: self.lib.eq(self, v, mkv(j))))
        self.pop()
        self.define(All([j, j2], Implies(And(j >= 0, j < j2, j2 < n), Not(self.lib.eq(self, mkv(j), mkv(j2))))))
        # every element is listed: with an explicit position
        for bs, gs, v in ls:
            ks = [k for k, _ in bs]
            for k, m in bs:
                self.push(k, [k >= 0, k < zv(m)] if m is not None else [])
            w = self.fresh('pos')
            self.define(Implies(And(gs), And(w >= 0, w < n, self.lib.eq(self, mkv(w), v))))
            for _ in bs:
                self.pop()
        k = self.const('k')
        r = For(k, n, Unit(sub_fn(mkv, k)))
        self.flatcache[key] = (t, r)
        self.flatcache[id(r)] = (r, 'distinct')
        return r

    def tmap(self, t, f):
        """map over a sequence (pure f)"""
        if isinstance(t, Unit):
            return Unit(f(t.v))
        if isinstance(t, Guard):
            with self.under(t.c):
                return guard(t.c, self.tmap(t.t, f))
        if isinstance(t, Cat):
            return Cat([self.tmap(x, f) for x in t.ts])
        if isinstance(t, For):
            k = self.const('k')
            self.push(k, [k >= 0, k < zv(t.n)])
            try:
                b = self.tmap(sub(t.t, [(t.k, k)]), f)
            finally:
                self.pop()
            return For(k, t.n, b)
        if isinstance(t, SetFor):
            ks = [self.const('x', k.sort()) for k in t.ks]
            m = list(zip(t.ks, ks))
            p = sub(fb(t.p), m)
            for i, k in enumerate(ks):
                self.push(k, [p] if i == len(ks) - 1 else [])
            try:
                b = self.tmap(sub(t.t, m), f)
            finally:
                for k in ks:
                    self.pop()
            return SetFor(ks, p, b)
        raise Unsupported('map over a growing list')

    def arr_rows(self, r):
        lam = self.data(r)
        n = lam.dims[0]
        return self.seq(n, lambda k: self.lib.arr_index(self, r, (k,), safe=True))

    def newlist(self, tree=EMPTY, kind='list'):
        return self.alloc(kind, tree if isinstance(tree, Cat) else Cat([tree]))

    # ------------------------------------------------------------------ state merging
    def split(self, c, f1, f2):
        """run f1 under c and f2 under not c, merge states, return merged value"""
        if isT(c):
            return f1()
        if isF(c):
            return f2()
        s0 = self.st
        self.st = s0.clone()
        with self.under(c):
            v1 = f1()
        s1 = self.st
        self.st = s0.clone()
        with self.under(Not(c)):
            v2 = f2()
        s2 = self.st
        self.st = self.merge_states(c, s1, s2)
        return merge(c, v1, v2)

    def merge_states(self, c, s1, s2):
        if s1 is s2:
            return s1
        heap = {}
        for o in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(o), s2.heap.get(o)
            if a is None or b is None or a is b or a.data is b.data:
                heap[o] = a if a is not None else b
            else:
                heap[o] = a.with_(self.merge_data(c, a, b))
        frames = {}
        for f in set(s1.frames) | set(s2.frames):
            a, b = s1.frames.get(f), s2.frames.get(f)
            if a is None or b is None:
                frames[f] = dict(a if a is not None else b)
                continue
            d = {}
            for n in set(a) | set(b):
                if n not in a:
                    d[n] = IteV(c, Dead('unbound ' + n), b[n])
                elif n not in b:
                    d[n] = IteV(c, a[n], Dead('unbound ' + n))
                else:
                    d[n] = a[n] if a[n] is b[n] else merge(c, a[n], b[n])
            frames[f] = d
        return State(heap, frames)

    def merge_data(self, c, a, b):
        x, y = a.data, b.data
        if a.kind == 'obj':
            d = {}
            for n in set(x) | set(y):
                if n not in x or n not in y:
                    p = x.get(n, Dead('unset field')) if n in x else Dead('unset field')
                    q = y.get(n, Dead('unset field')) if n in y else Dead('unset field')
                    d[n] = IteV(c, p, q)
                    continue
                u, v = x[n], y[n]
                if isinstance(u, FamField) and isinstance(v, FamField):
                    d[n] = FamField(self.merge_lam(c, u.lam, v.lam)) if u.lam is not v.lam else u
                else:
                    d[n] = u if u is v else merge(c, u, v)
            return d
        if isinstance(x, Tree) and isinstance(y, Tree):
            xs = x.ts if isinstance(x, Cat) else (x,)
            ys = y.ts if isinstance(y, Cat) else (y,)
            i = 0
            while i < len(xs) and i < len(ys) and xs[i] is ys[i]:
                i += 1
            if a.kind == 'list':
                p, q = xs[i:], ys[i:]
                if p and len(p) == len(q) and all(isinstance(u, Unit) for u in p + q):
                    try:
                        return Cat(list(xs[:i]) + [Unit(merge(c, u.v, w.v)) for u, w in zip(p, q)])
                    except Unsupported:
                        pass
                if len(p) == 1 and len(q) == 1 and isinstance(p[0], For) and isinstance(q[0], For) and \
                        isinstance(p[0].t, Unit) and isinstance(q[0].t, Unit) and \
                        z3.simplify(zv(p[0].n) - zv(q[0].n)).eq(z3.IntVal(0)):
                    k = p[0].k
                    return Cat(list(xs[:i]) + [For(k, p[0].n, Unit(merge(c, p[0].t.v, sub(q[0].t.v, [(q[0].k, k)]))))])
            return Cat(list(xs[:i]) + [guard(c, Cat(xs[i:])), guard(Not(c), Cat(ys[i:]))])
        if isinstance(x, MapV) and isinstance(y, MapV):
            m = [(y.p, x.p)]
            return MapV(x.p, merge(c, x.dom, sub(y.dom, m)), merge(c, x.val, sub(y.val, m)), merge(c, x.size, y.size))
        if isinstance(x, Lam) and isinstance(y, Lam):
            return self.merge_lam(c, x, y)
        raise Unsupported('merge of %s' % a.kind)

    def merge_lam(self, c, x, y):
        if x.hist is not None or y.hist is not None:
            if x.hist is not y.hist or x.body is not y.body:
                raise Unsupported('merge of loop arrays')
            i = 0
            while i < len(x.log) and i < len(y.log) and x.log[i] is y.log[i]:
                i += 1
            log = list(x.log[:i]) + [(And(c, w[0]), w[1], w[2]) for w in x.log[i:]] + \
                [(And(Not(c), w[0]), w[1], w[2]) for w in y.log[i:]]
            return Lam(x.dims, x.ps, x.body, x.hist, log)
        v = merge(c, x, y)
        if not isinstance(v, Lam):
            raise Unsupported('merge of arrays of different rank')
        return v

    # ------------------------------------------------------------------ statements
    # outcomes: list of (kind, cond, value, state), kind in normal return break continue raise
    def block(self, stmts, fid):
        outs = []
        c = True
        for s in stmts:
            with self.under(c):
                os_ = self.stmt(s, fid)
            norm = [o for o in os_ if o[0] == 'normal']
            outs += [(k, And(c, cc), v, st) for k, cc, v, st in os_ if k != 'normal']
            if not norm:
                return self.combine(outs)
            _, cc, _, self.st = norm[0]
            c = And(c, cc)
        outs.append(('normal', c, None, self.st))
        return self.combine(outs)

    def combine(self, outs):
        res = []
        for kind in ('normal', 'return', 'break', 'continue'):
            os_ = [o for o in outs if o[0] == kind and not isF(o[1])]
            if not os_:
                continue
            _, c, v, st = os_[0]
            for _, c2, v2, st2 in os_[1:]:
                st = self.merge_states(c, st, st2)
                v = merge(c, v, v2) if kind == 'return' else None
                c = Or(c, c2)
            if is_z(c):
                c = z3.simplify(c) if z3.is_app(c) and c.num_args() < 3 and not _hasq(c) else c
                if z3.is_true(c):
                    c = True
            res.append((kind, c, v, st))
        res += [o for o in outs if o[0] == 'raise' and not isF(o[1])]
        return res

    def stmt(self, s, fid):
        self.line = '%s:%s' % (self.cur_file, getattr(s, 'lineno', '?'))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        mark = len(self.pending)
        try:
            outs = m(s, fid)
        except PyRaise as e:
            outs = [('raise', True, e.what, self.st)]
        if len(self.pending) > mark:
            rs = self.pending[mark:]
            del self.pending[mark:]
            rc = Or([c for c, w in rs])
            outs = [(k, And(Not(rc), c), v, st) for k, c, v, st in outs] + [('raise', c, w, self.st) for c, w in rs]
        return outs

    def norm(self):
        return [('normal', True, None, self.st)]

    def s_Expr(self, s, fid):
        self.eval(s.value, fid)
        return self.norm()

    def s_Pass(self, s, fid):
        return self.norm()

    def s_Global(self, s, fid):
        raise Unsupported('global')

    def s_Import(self, s, fid):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.st.frames[fid][nm] = self.import_mod(a.name if a.asname else a.name.split('.')[0])
        return self.norm()

    def s_ImportFrom(self, s, fid):
        for a in s.names:
            self.st.frames[fid][a.asname or a.name] = self.import_from(s.module, a.name, s.level)
        return self.norm()

    def s_FunctionDef(self, s, fid):
        f = Func(s, self.cur_mod, self.cur_qual + '.<locals>.' + s.name, frame=fid, cls=None)
        f.defaults = self.eval_defaults(s.args, fid)
        if s.decorator_list:
            raise Unsupported('decorated local function')
        self.st.frames[fid][s.name] = f
        return self.norm()

    def s_Assert(self, s, fid):
        c = self.truth(self.eval(s.test, fid))
        self.safety(c, 'assertion')
        return self.norm()

    def s_Return(self, s, fid):
        v = self.eval(s.value, fid) if s.value is not None else None
        return [('return', True, v, self.st)]

    def s_Break(self, s, fid):
        return [('break', True, None, self.st)]

    def s_Continue(self, s, fid):
        return [('continue', True, None, self.st)]

    def s_Raise(self, s, fid):
        what = ast.unparse(s.exc) if s.exc is not None else 're-raise'
        return [('raise', True, what, self.st)]

    def s_Assign(self, s, fid):
        v = self.eval(s.value, fid)
        for t in s.targets:
            self.assign(t, v, fid)
        return self.norm()

    def s_AnnAssign(self, s, fid):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fid), fid)
        return self.norm()

    def s_AugAssign(self, s, fid):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(id=t.id, ctx=ast.Load()), fid)
            v = self.lib.augop(self, type(s.op).__name__, cur, self.eval(s.value, fid))
            self.assign(t, v, fid)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fid)
            cur = self.getattr(o, t.attr)
            v = self.lib.augop(self, type(s.op).__name__, cur, self.eval(s.value, fid))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fid)
            i = self.eval_index(t.slice, fid)
            cur = self.lib.getitem(self, o, i)
            v = self.lib.augop(self, type(s.op).__name__, cur, self.eval(s.value, fid))
            self.lib.setitem(self, o, i, v)
        else:
            raise Unsupported('augmented assignment')
        return self.norm()

    def s_Delete(self, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value, fid), self.eval_index(t.slice, fid))
            elif isinstance(t, ast.Name):
                self.st.frames[fid].pop(t.id)
            else:
                raise Unsupported('del')
        return self.norm()

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.st.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fid)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self, self.eval(t.value, fid), self.eval_index(t.slice, fid), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise('ValueError: unpack')
            return v
        if isinstance(v, IteV):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return tuple(merge(v.c, x, y) for x, y in zip(a, b))
        t = self.tree_of(v)
        ln = self.tlen(t)
        self.safety(self.lib.eq(self, ln, n), 'unpacking %d values' % n)
        return tuple(self.at(t, i) for i in range(n))

    def s_If(self, s, fid):
        c = self.truth(self.eval(s.test, fid))
        if isT(c):
            return self.block(s.body, fid)
        if isF(c):
            return self.block(s.orelse, fid)
        s0 = self.st
        self.st = s0.clone()
        with self.under(c):
            o1 = self.block(s.body, fid)
        self.st = s0.clone()
        with self.under(Not(c)):
            o2 = self.block(s.orelse, fid)
        return self.combine([(k, And(c, cc), v, st) for k, cc, v, st in o1] +
                            [(k, And(Not(c), cc), v, st) for k, cc, v, st in o2])

    def s_With(self, s, fid):
        for it in s.items:
            v = self.eval(it.context_expr, fid)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fid)
        return self.block(s.body, fid)

    def s_Try(self, s, fid):
        if s.finalbody:
            raise Unsupported('finally')
        self.try_depth += 1
        mark = getattr(self, 'pcmark', 0)
        self.pcmark = len(self.pc)
        s0 = self.st
        self.st = s0.clone()
        try:
            outs = self.block(s.body, fid)
        finally:
            self.try_depth -= 1
            self.pcmark = mark
        raised = [o for o in outs if o[0] == 'raise']
        outs = [o for o in outs if o[0] != 'raise']
        if s.orelse:
            raise Unsupported('try else')
        if len(s.handlers) != 1:
            raise Unsupported('several handlers')
        for _, c, w, st in raised:
            self.st = st.clone()
            with self.under(c):
                outs += [(k, And(c, cc), v, st2) for k, cc, v, st2 in self.block(s.handlers[0].body, fid)]
        return self.combine(outs)

    def s_For(self, s, fid):
        it = self.eval(s.iter, fid)
        tree = self.iter_tree(it)
        key = ('for', id(s))

        def body(v):
            self.assign(s.target, v, fid)
            return self.block(s.body, fid)
        outs = self.run_tree(tree, body, hint=key)
        brk = [o for o in outs if o[0] == 'break']
        outs = [o for o in outs if o[0] != 'break']
        if s.orelse:
            n = [o for o in outs if o[0] == 'normal']
            outs = [o for o in outs if o[0] != 'normal']
            if n:
                self.st = n[0][3]
                with self.under(n[0][1]):
                    outs += [(k, And(n[0][1], c), v, st) for k, c, v, st in self.block(s.orelse, fid)]
        outs += [('normal', c, None, st) for _, c, _, st in brk]
        return self.combine(outs)

    def run_tree(self, tree, body, hint=None):
        """run body for the elements of a sequence; outcomes normal / break / return / raise"""
        if isinstance(tree, Unit):
            outs = body(tree.v)
            return self.combine([('normal' if k == 'continue' else k, c, v, st) for k, c, v, st in outs])
        if isinstance(tree, Guard):
            s0 = self.st
            self.st = s0.clone()
            with self.under(tree.c):
                o1 = self.run_tree(tree.t, body, hint)
            return self.combine([(k, And(tree.c, c), v, st) for k, c, v, st in o1] +
                                [('normal', Not(tree.c), None, s0)])
        if isinstance(tree, Cat):
            outs, c = [], True
            for t in tree.ts:
                with self.under(c):
                    os_ = self.run_tree(t, body, hint)
                norm = [o for o in os_ if o[0] == 'normal']
                outs += [(k, And(c, cc), v, st) for k, cc, v, st in os_ if k != 'normal']
                if not norm:
                    return self.combine(outs)
                self.st = norm[0][3]
                c = And(c, norm[0][1])
            outs.append(('normal', c, None, self.st))
            return self.combine(outs)
        if isinstance(tree, For):
            if isinstance(tree.n, int):
                return self.run_tree(Cat([sub(tree.t, [(tree.k, z3.IntVal(i))]) for i in range(tree.n)]), body, hint)
            return self.for_rule(tree.n, lambda k: self.run_tree(sub(tree.t, [(tree.k, k)]), body, hint), hint)
        if isinstance(tree, SetFor):
            return self.set_rule(tree, body, hint)
        raise Unsupported('loop over a growing list')

    def snapshot(self):
        return (len(self.levels), [len(l.facts) for l in self.levels], len(self.obls), len(self.pending), list(self.pc),
                [len(x) for x in (self.combs, self.sorts, self.invs, self.concats, self.pdists, self.sortrecs)])

    def restore(self, s):
        del self.levels[s[0]:]
        for l, n in zip(self.levels, s[1]):
            del l.facts[n:]
        del self.obls[s[2]:]
        del self.pending[s[3]:]
        self.pc = list(s[4])
        for x, n in zip((self.combs, self.sorts, self.invs, self.concats, self.pdists, self.sortrecs), s[5]):
            del x[n:]

    def diff(self, st0, st1):
        out = set()
        for f, d in st0.frames.items():
            d1 = st1.frames.get(f, {})
            for n in d1:
                if n not in d:
                    out.add(('var', f, n))
                elif d1[n] is not d[n] and not same(d1[n], d[n]):
                    out.add(('var', f, n))
        for o, h in st0.heap.items():
            h1 = st1.heap.get(o)
            if h1 is None or h1 is h or h1.data is h.data:
                continue
            if h.kind == 'obj':
                for n in set(h.data) | set(h1.data):
                    a, b = h.data.get(n, EMPTY), h1.data.get(n, EMPTY)
                    if a is not b and not same(a, b):
                        if isinstance(a, FamField) and isinstance(b, FamField) and a.lam is b.lam:
                            continue
                        out.add(('field', o, n))
            else:
                out.add(('obj', o))
        return out

    def for_rule(self, n, run, hint=None, cond=None):
        """for k in range(n): run(k)"""
        st0 = self.st
        mods, carried = set(), {}
        tries = 0
        while True:
            tries += 1
            if tries > 30:
                raise Unsupported('loop summary does not settle')
            snap = self.snapshot()
            k = self.const('k')
            self.push(k, [k >= 0, k < zv(n)])
            st = st0.clone()
            recs = {}
            for loc in mods:
                self.set_hist(st, st0, loc, k, recs, carried, n)
            start = st.clone()
            self.st = st
            try:
                outs = run(k)
            except NeedCarry as e:
                self.restore(snap)
                if e.loc not in mods or e.loc in carried:
                    raise
                carried[e.loc] = True
                mods = set(l for l in mods if l[0] == 'var' or l in carried)
                continue
            new = set(mods)
            for o in outs:
                new |= set(d for d in self.diff(start, o[3]) if d[0] == 'var' or d[1] in st0.heap)
            if new != mods:
                mods = new
                self.restore(snap)
                continue
            break
        if any(o[0] == 'raise' for o in outs):
            raise Unsupported('raise inside a symbolic loop')
        # merge the outcomes
        norm = [o for o in outs if o[0] in ('normal', 'continue')]
        exits = [o for o in outs if o[0] in ('break', 'return')]
        X = Or([o[1] for o in exits])
        allo = norm + exits
        _, c, _, fin = allo[0]
        for o in allo[1:]:
            fin = self.merge_states(c, fin, o[3])
            c = Or(c, o[1])
        has_exit = bool(exits)
        j = self.const('j')

        def reach(kk):
            if not has_exit:
                return True
            return All([j], Implies(And(j >= 0, j < zv(kk)), Not(sub(fb(X), [(k, j)]))))
        R = reach(k)
        inr = And(k >= 0, k < zv(n))
        # deltas
        post = {}
        for loc in mods:
            post[loc] = self.close(loc, st0, fin, k, n, recs, carried, R, has_exit)
        # define the queries made on histories
        for loc, rec in recs.items():
            if 'queries' not in rec:
                continue
            delta = rec['delta']
            keep = rec.get('keep', True)
            kept = lambda a, b: True
            if not isT(keep):
                h_ = self.const('h')
                kept = lambda a, b: All([h_], Implies(And(h_ >= a, h_ < b), sub(fb(keep), [(k, h_)])))
            done = 0
            while done < len(rec['queries']):
                q, test, bs = rec['queries'][done]
                done += 1
                cur = self.binders()
                inner = [b for b in bs if not any(b.eq(x) for x in cur)]
                for b in inner:
                    self.push(b, [])
                jj = self.const('h')
                basef = self.member(rec['base'], test)
                self.push(jj, [jj >= 0, jj < k])
                f = self.member(sub(delta, [(k, jj)]), test)
                Rj = reach(jj)
                self.pop()
                self.define(Iff(q, Or(And(basef, kept(0, k)), Ex([jj], And(jj >= 0, jj < k, Rj, f, kept(jj + 1, k))))))
                for b in inner:
                    self.pop()
        for loc in carried:
            pass
        self.pop()
        # new state
        res = st0.clone()
        keep = fin.heap
        for o, h in keep.items():
            if o not in res.heap:
                res.heap[o] = h
        for f, d in fin.frames.items():
            if f not in res.frames:
                res.frames[f] = d
        for loc, v in post.items():
            if loc[0] == 'var':
                res.frames[loc[1]][loc[2]] = v
            elif loc[0] == 'field':
                h = res.heap[loc[1]]
                d = dict(h.data)
                d[loc[2]] = v
                res.heap[loc[1]] = h.with_(d)
            else:
                res.heap[loc[1]] = res.heap[loc[1]].with_(v)
        self.st = res
        if not has_exit:
            return [('normal', True, None, res)]
        kk = self.const('e')
        hit = Ex([kk], And(kk >= 0, kk < zv(n), sub(fb(X), [(k, kk)])))
        out = [('normal', Not(hit), None, res)]
        kf = self.fresh('first')
        self.define(Implies(hit, And(kf >= 0, kf < zv(n), sub(fb(X), [(k, kf)]),
                                     All([j], Implies(And(j >= 0, j < kf), Not(sub(fb(X), [(k, j)])))))))
        for kind, cx, v, sx in exits:
            cond_ = And(hit, sub(fb(cx), [(k, kf)]))
            st2 = res.clone()
            for loc in mods:
                if loc[0] == 'var' and loc not in carried:
                    vv = sx.frames[loc[1]].get(loc[2])
                    if not _has_old(vv):
                        st2.frames[loc[1]][loc[2]] = sub(vv, [(k, kf)])
            if len(exits) == 1:
                cond_ = hit
            out.append((kind, cond_, sub(v, [(k, kf)]), st2))
        return out

    def set_rule(self, tree, body, hint=None):
        """loop over an unordered sequence: only additions to collections and an exit whose value does
        not depend on the element"""
        st0 = self.st
        mods = set()
        for tries in range(31):
            snap = self.snapshot()
            ks = [self.const('x', k.sort()) for k in tree.ks]
            m = list(zip(tree.ks, ks))
            p = sub(fb(tree.p), m)
            for i, k in enumerate(ks):
                self.push(k, [p] if i == len(ks) - 1 else [])
            st = st0.clone()
            recs = {}
            for loc in mods:
                self.set_hist(st, st0, loc, None, recs, {}, None)
            start = st.clone()
            self.st = st
            outs = self.run_tree(sub(tree.t, m), body, hint)
            new = set(mods)
            for o in outs:
                new |= self.diff(start, o[3])
            if new == mods:
                break
            mods = new
            self.restore(snap)
        else:
            raise Unsupported('loop summary does not settle')
        norm = [o for o in outs if o[0] in ('normal', 'continue')]
        exits = [o for o in outs if o[0] in ('break', 'return')]
        if any(o[0] == 'raise' for o in outs):
            raise Unsupported('raise inside a symbolic loop')
        allo = norm + exits
        _, c, _, fin = allo[0]
        for o in allo[1:]:
            fin = self.merge_states(c, fin, o[3])
            c = Or(c, o[1])
        post = {}
        for loc in mods:
            if loc[0] == 'var':
                post[loc] = Dead('%s after a loop in no particular order' % (loc[2],))
                continue
            h = fin.heap[loc[1]] if loc[0] == 'obj' else None
            if h is None or not isinstance(h.data, Tree) or exits:
                raise Unsupported('effect of a loop in no particular order')
            rec = recs[loc]
            ts = h.data.ts if isinstance(h.data, Cat) else (h.data,)
            if not ts or not (isinstance(ts[0], Hist) and ts[0].rec is rec):
                raise Unsupported('loop changes a collection otherwise than by adding to it')
            delta = Cat(ts[1:])
            if _has_hist(delta, rec) or rec['queries']:
                raise Unsupported('order dependent loop over a set')
            post[loc] = Cat([rec['base'], SetFor(ks, p, delta if len(delta.ts) != 1 else delta.ts[0])])
        for k in ks:
            self.pop()
        res = st0.clone()
        for o, h in fin.heap.items():
            if o not in res.heap:
                res.heap[o] = h
        for f, d in fin.frames.items():
            if f not in res.frames:
                res.frames[f] = d
        for loc, v in post.items():
            if loc[0] == 'var':
                res.frames[loc[1]][loc[2]] = v
            else:
                res.heap[loc[1]] = res.heap[loc[1]].with_(v)
        self.st = res
        if not exits:
            return [('normal', True, None, res)]
        out = []
        for kind, cx, v, sx in exits:
            if any(_mentions(v, k) for k in ks):
                raise Unsupported('exit value of a loop in no particular order')
        if len(exits) > 1:
            raise Unsupported('several exits of a loop in no particular order')
        kind, cx, v, sx = exits[0]
        q = [self.const('e', k.sort()) for k in ks]
        hit = Ex(q, sub(fb(And(p, cx)), list(zip(ks, q))))
        return [('normal', Not(hit), None, res), (kind, hit, v, res.clone())]

    def set_hist(self, st, st0, loc, k, recs, carried, n):
        if loc[0] == 'var' or (loc[0] == 'field' and not st0.heap[loc[1]].binders_foreign(self)):
            if loc[0] == 'var':
                init = st0.frames[loc[1]].get(loc[2])
                missing = loc[2] not in st0.frames[loc[1]]
            else:
                init = st0.heap[loc[1]].data.get(loc[2])
                missing = loc[2] not in st0.heap[loc[1]].data
            if loc in carried:
                if missing:
                    raise Unsupported('variable used before assignment in a loop')
                v = self.carry_value(loc, init, k, carried, st)
            else:
                v = Old(loc)
            if loc[0] == 'var':
                st.frames[loc[1]][loc[2]] = v
            else:
                h = st.heap[loc[1]]
                d = dict(h.data)
                d[loc[2]] = v
                st.heap[loc[1]] = h.with_(d)
            return
        if loc[0] == 'field':
            h = st.heap[loc[1]]
            d = dict(h.data)
            cur = d[loc[2]]
            rec = recs.setdefault(loc, {'reads': []})
            if isinstance(cur, FamField):
                if cur.lam.hist is not None:
                    raise Unsupported('nested loops writing one family field')
                lam = cur.lam
            else:
                lam = Lam([None] * len(h.binders), h.binders, cur)
            rec['base'] = lam
            d[loc[2]] = FamField(Lam(lam.dims, lam.ps, lam.body, rec, ()))
            st.heap[loc[1]] = h.with_(d)
            return
        h = st.heap[loc[1]]
        if isinstance(h.data, Tree) and loc in carried and h.kind == 'list' and not h.binders_foreign(self):
            # a list whose elements are assigned: a function of the place while the loop runs
            n_ = self.tlen(h.data)
            p_ = self.const('place')
            self.push(p_, [p_ >= 0, p_ < zv(n_)])
            try:
                b_ = self.at(h.data, p_)
            finally:
                self.pop()
            if not is_num(b_):
                raise Unsupported('assigned elements of a list in a loop')
            rec = recs.setdefault(loc, {'reads': []})
            rec['base'] = Lam((n_,), (p_,), zv(b_))
            nh = h.with_(Lam((n_,), (p_,), zv(b_), rec, ()))
            nh.kind = 'larr'
            st.heap[loc[1]] = nh
        elif isinstance(h.data, Tree):
            rec = recs.setdefault(loc, {'queries': [], 'base': h.data})
            st.heap[loc[1]] = h.with_(Cat([Hist(id(rec), loc, h.data, k, rec)]))
        elif isinstance(h.data, Lam):
            rec = recs.setdefault(loc, {'reads': []})
            lam = h.data
            if lam.hist is not None:
                # a nested loop writing the same array: keep the outer log as the base
                rec['outer'] = lam
            rec['base'] = lam
            st.heap[loc[1]] = h.with_(Lam(lam.dims, lam.ps, lam.body, rec, () if lam.hist is None else ()))
        elif loc in carried or ('map', loc) in self.hooks:
            raise Unsupported('carried map')
        else:
            raise Unsupported('loop updates a %s' % h.kind)

    def carry_value(self, loc, init, k, carried, st=None):
        hook = self.hooks.get('carry')
        if hook is not None:
            old, self.st = self.st, st or self.st
            try:
                v = hook(self, loc, init, k)
                if v is not None:
                    carried[loc] = v
                    return v['at'](k)
            finally:
                self.st = old
        if not is_num(init) and not is_z(init):
            raise Unsupported('carried value %r in a loop' % (loc,))
        sort = zv(init).sort()
        if carried[loc] is True or carried[loc].get('sort') is None:
            if carried[loc] is not True:
                sort = carried[loc]['sort2']
            # depends on the enclosing binders only
            lv = self.levels.pop()
            f = self.func('carry', [I], sort)
            self.levels.append(lv)
            carried[loc] = {'f': f, 'sort': sort, 'init': init, 'at': f}
        return carried[loc]['f'](k)

    def close(self, loc, st0, fin, k, n, recs, carried, R, has_exit):
        """value of a location after the loop"""
        if loc[0] == 'var' or (loc[0] == 'field' and loc not in recs):
            if loc[0] == 'var':
                v = fin.frames[loc[1]].get(loc[2], Dead('unbound'))
                init = st0.frames[loc[1]].get(loc[2], Dead('unbound ' + loc[2]))
            else:
                v = fin.heap[loc[1]].data.get(loc[2], Dead('unbound'))
                init = st0.heap[loc[1]].data.get(loc[2], Dead('unbound ' + loc[2]))
            if loc in carried:
                c = carried[loc]
                if 'step' in c:
                    old, self.st = self.st, fin
                    try:
                        c['step'](self, k, v)
                        return c['after'](n)
                    finally:
                        self.st = old
                if has_exit:
                    return Dead('carried %s in a loop with exits' % loc[2])
                if not is_num(v) and not (is_z(v) and v.sort() == c['sort']):
                    raise Unsupported('carried value changes type')
                vv = zv(v)
                if vv.sort() != c['sort']:
                    if c['sort'] == I and vv.sort() == R_:
                        raise Unsupported('carried int becomes real')
                    vv = real(vv)
                self.define(c['f'](k + 1) == vv)
                self.levels_define_outer(c['f'](0) == (real(c['init']) if c['sort'] == R_ else zv(c['init'])))
                nn = zv(n)
                self.levels_define_outer(Implies(nn <= 0, c['f'](nn) == c['f'](0)) if not isinstance(n, int) else True)
                c['n'] = n
                after = self.hooks.get('carried')
                if after is not None:
                    after(self, loc, c, k, n)
                return c['f'](zv(n))
            if isinstance(v, Old):
                return init
            if not _has_old(v):
                if has_exit:
                    return Dead('%s after a loop with exits' % (loc[2],))
                last = sub(v, [(k, zv(n) - 1)])
                if _dead(v):
                    return Dead('loop variable')
                if isinstance(init, Dead):
                    return merge(zv(n) > 0, last, init)
                return merge(zv(n) > 0, last, init)
            # written under a condition: last writer
            if has_exit:
                return Dead('%s after a loop with exits' % (loc[2],))
            cond, val = _split_old(v)
            return self.last_writer(k, n, cond, val, init)
        if loc[0] == 'field':
            rec = recs[loc]
            lam = fin.heap[loc[1]].data[loc[2]].lam
            new = self.close_lam(lam, rec, k, n, R, has_exit)
            return FamField(new)
        h = fin.heap[loc[1]]
        if isinstance(h.data, Tree):
            rec = recs[loc]
            keep, delta = _split_hist(h.data, rec, h.kind == 'list')
            if isF(keep) or not isT(keep) and has_exit:
                raise Unsupported('loop changes a collection otherwise than by adding to it')
            delta = delta if isinstance(delta, Cat) else Cat([delta])
            if _has_hist(delta, rec):
                raise Unsupported('collection added to itself')
            rec['delta'] = delta
            base = rec['base']
            rec['keep'] = keep
            if 'cnt' in rec and rec['exact'] and isT(keep) and not has_exit:
                f = rec['cnt']
                self.define(f(k + 1) == zv(self.lib.add(self, f(k), self.tlen(delta))))
                self.levels_define_outer(f(0) == zv(self.tlen(base)))
            if not isT(keep):
                hh = self.const('h')
                kept = lambda a, b: All([hh], Implies(And(hh >= a, hh < b), sub(fb(keep), [(k, hh)])))
                return Cat([guard(kept(0, zv(n)), base), For(k, n, guard(kept(k + 1, zv(n)), delta))])
            return Cat([base, For(k, n, guard(R, delta) if len(delta.ts) != 1 else guard(R, delta.ts[0]))])
        rec = recs[loc]
        if h.kind == 'larr':
            lam = self.close_lam(h.data, rec, k, n, R, has_exit)
            return Cat([For(lam.ps[0], zv(lam.dims[0]), Unit(lam.body))])
        return self.close_lam(h.data, rec, k, n, R, has_exit)

    def levels_define_outer(self, f):
        if isT(f):
            return
        if len(self.levels) >= 2:
            self.levels[-2].facts.append(fb(f))
        else:
            self.levels[-1].facts.append(fb(f))

    def last_writer(self, k, n, cond, val, init):
        kk = self.const('w')
        hit = Ex([kk], And(kk >= 0, kk < zv(n), sub(fb(cond), [(k, kk)])))
        if not _mentions(val, k):
            return merge(hit, val, init)
        lv = self.levels.pop()
        lw = self.fresh('last')
        j = self.const('j')
        self.define(Implies(hit, And(lw >= 0, lw < zv(n), sub(fb(cond), [(k, lw)]),
                                     All([j], Implies(And(j > lw, j < zv(n)), Not(sub(fb(cond), [(k, j)])))))))
        self.levels.append(lv)
        return merge(hit, sub(val, [(k, lw)]), init)

    def close_lam(self, lam, rec, k, n, R, has_exit):
        if lam.hist is not rec:
            raise Unsupported('array replaced in a loop')
        base = rec['base']
        log = [(And(R, w[0]), w[1], w[2]) for w in lam.log]
        # reads of old contents must not see earlier iterations' writes
        j = self.const('j')
        for idx, bs, pc in rec['reads']:
            cur = self.binders()
            inner = [b for b in bs if not any(b.eq(x) for x in cur)]
            for w in log:
                wj = [sub(x, [(k, j)]) for x in w[1]]
                alias = And(j >= 0, j < k, sub(fb(w[0]), [(k, j)]) if is_z(fb(w[0])) else w[0],
                            *[zv(a) == zv(b) for a, b in zip(wj, idx)])
                with self.under(And(pc)):
                    ok = self.entails(Not(alias), 4000) if is_z(fb(alias)) else isF(alias)
                if not ok:
                    raise Unsupported('loop reads an element that an earlier iteration may have written')
        if base.hist is not None:
            # nested: hand the writes to the enclosing loop's log, quantified
            if len(log) == 1 and not _mentions(log[0][2], k):
                raise Unsupported('nested loops writing one array')
            raise Unsupported('nested loops writing one array')
        body = base.body
        ps = base.ps
        for c, idx, v in log:
            kk = self.const('w')
            e = And(kk >= 0, kk < zv(n), sub(fb(c), [(k, kk)]), *[sub(zv(i), [(k, kk)]) == p for i, p in zip(idx, ps)])
            if len(ps) == 1 and zv(idx[0]).eq(k):
                body = merge(And(ps[0] >= 0, ps[0] < zv(n), sub(fb(c), [(k, ps[0])])), sub(v, [(k, ps[0])]), body)
            elif not _mentions(v, k):
                body = merge(Ex([kk], e), v, body)
            else:
                if len(log) > 1:
                    raise Unsupported('several varying writes in a loop')
                lv = self.levels.pop()
                lw = self.func('last', [p.sort() for p in ps], I)(*ps)
                j2 = self.const('j')
                e2 = lambda t: And(t >= 0, t < zv(n), sub(fb(c), [(k, t)]), *[sub(zv(i), [(k, t)]) == p for i, p in zip(idx, ps)])
                self.define(All(list(ps), Implies(Ex([kk], e), And(e2(lw), All([j2], Implies(j2 > lw, Not(e2(j2))))))))
                self.levels.append(lv)
                body = merge(Ex([kk], e), sub(v, [(k, lw)]), body)
        return Lam(base.dims, ps, body)

    def s_While(self, s, fid):
        hook = self.hooks.get(('while', self.cur_qual))
        if hook is not None:
            return hook(self, s, fid)
        # concrete unrolling while the test stays concrete
        for _ in range(200):
            c = self.truth(self.eval(s.test, fid))
            if isF(c):
                return self.norm()
            if not isT(c):
                break
            st = self.st
            snap = self.snapshot()
            self.st = st.clone()
            outs = self.block(s.body, fid)
            kinds = [o[0] for o in outs if not isF(o[1])]
            if len(kinds) == 1 and isT(outs[0][1]):
                if kinds[0] in ('normal', 'continue'):
                    self.st = outs[0][3]
                    continue
                if kinds[0] == 'break':
                    self.st = outs[0][3]
                    return self.norm()
                return outs
            # exit condition symbolic: allowed if nothing but local temporaries changes
            self.restore(snap)
            self.st = st
            return self.while_stateless(s, fid)
        raise Unsupported('while loop without invariant')

    def while_stateless(self, s, fid):
        """while True: body, where the body carries no state from one iteration to the next (only fresh
        values): on exit one iteration has just run in which the exit was taken (partial correctness)"""
        st0 = self.st
        self.st = st0.clone()
        for n in _assigned(s.body):
            self.st.frames[fid][n] = Old(('var', fid, n))
        start = self.st.clone()
        try:
            outs = self.block(s.body, fid)
        except NeedCarry:
            raise Unsupported('while loop carries state')
        for o in outs:
            for loc in self.diff(start, o[3]):
                if loc[0] != 'var':
                    raise Unsupported('while loop changes state')
        ex = [o for o in outs if o[0] in ('break', 'return')]
        if not ex:
            raise Unsupported('while loop without exit')
        if any(o[0] == 'raise' for o in outs):
            raise Unsupported('raise in while')
        self.assume(Or([o[1] for o in ex]))
        if len(ex) == 1:
            kind, c, v, st = ex[0]
            self.st = st
            return [('normal' if kind == 'break' else kind, True, v, st)]
        return self.combine([('normal' if k == 'break' else k, c, v, st) for k, c, v, st in ex])

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        return self.lib.truth(self, v)

    def eval(self, e, fid):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fid)

    def e_Constant(self, e, fid):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if v is Ellipsis:
            raise Unsupported('...')
        return v

    def e_Name(self, e, fid):
        return self.load(e.id, fid)

    def load(self, name, fid):
        f = fid
        while f is not None:
            fr = self.st.frames[f]
            if name in fr:
                v = fr[name]
                self.check_old(v)
                return v
            f = fr.get('$parent')
        return self.mod_get(self.cur_mod, name)

    def e_Attribute(self, e, fid):
        return self.getattr(self.eval(e.value, fid), e.attr)

    def e_Subscript(self, e, fid):
        return self.lib.getitem(self, self.eval(e.value, fid), self.eval_index(e.slice, fid))

    def eval_index(self, s, fid):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fid) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return tuple(self.eval_index(x, fid) for x in s.elts)
        return self.eval(s, fid)

    def e_Slice(self, e, fid):
        return self.eval_index(e, fid)

    def e_Tuple(self, e, fid):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            t = Cat([self.tree_of(self.eval(x.value, fid)) if isinstance(x, ast.Starred) else Unit(self.eval(x, fid))
                     for x in e.elts])
            if all(isinstance(x, Unit) for x in t.ts):
                return tuple(x.v for x in t.ts)
            return self.newlist(t, 'tuple')
        return tuple(self.eval(x, fid) for x in e.elts)

    def e_List(self, e, fid):
        ts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ts.append(self.tree_of(self.eval(x.value, fid)))
            else:
                ts.append(Unit(self.eval(x, fid)))
        return self.newlist(Cat(ts))

    def e_Set(self, e, fid):
        r = self.alloc('set', EMPTY)
        for x in e.elts:
            self.lib.set_add(self, r, self.eval(x, fid))
        return r

    def e_Dict(self, e, fid):
        r = self.alloc('dict', EMPTY)
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            kk = self.eval(k, fid)
            self.lib.setitem(self, r, kk, self.eval(v, fid))
        return r

    def e_BinOp(self, e, fid):
        a = self.eval(e.left, fid)
        b = self.eval(e.right, fid)
        return self.lib.binop(self, type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fid):
        v = self.eval(e.operand, fid)
        op = type(e.op).__name__
        if op == 'Not':
            return Not(self.truth(v))
        return self.lib.unop(self, op, v)

    def e_BoolOp(self, e, fid):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], fid)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.bool_merge(c, lambda: go(i + 1), lambda: v, True, v)
            return self.bool_merge(c, lambda: v, lambda: go(i + 1), False, v)
        return go(0)

    def bool_merge(self, c, f1, f2, isand, v):
        if isT(c):
            return f1()
        if isF(c):
            return f2()
        if is_bool(v):
            if isand:
                return self.split(c, f1, lambda: False)
            return self.split(c, lambda: True, f2)
        return self.split(c, f1, f2)

    def e_IfExp(self, e, fid):
        c = self.truth(self.eval(e.test, fid))
        return self.split(c, lambda: self.eval(e.body, fid), lambda: self.eval(e.orelse, fid))

    def e_Compare(self, e, fid):
        res = True
        a = self.eval(e.left, fid)
        for op, x in zip(e.ops, e.comparators):
            b = self.eval(x, fid)
            r = self.lib.compare(self, type(op).__name__, a, b)
            if len(e.ops) == 1:
                return r
            res = And(res, self.truth(r))
            a = b
        return res

    def e_Lambda(self, e, fid):
        f = Func(e, self.cur_mod, self.cur_qual + '.<lambda>', frame=fid)
        f.defaults = self.eval_defaults(e.args, fid)
        return f

    def e_JoinedStr(self, e, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(x.value for x in v.format_spec.values)
                parts.append(self.lib.format1(self, self.eval(v.value, fid), spec))
        return self.lib.strcat(self, parts)

    def e_Yield(self, e, fid):
        v = self.eval(e.value, fid) if e.value is not None else None
        r = self.st.frames[fid]['$yield']
        d = self.data(r)
        self.setdata(r, Cat([d, Unit(v)]))
        return None

    def e_YieldFrom(self, e, fid):
        t = self.iter_tree(self.eval(e.value, fid))
        r = self.st.frames[fid]['$yield']
        self.setdata(r, Cat([self.data(r), t]))
        return None

    def comp(self, gens, fid, leaf):
        """run the generators of a comprehension, leaf(frame) at the innermost level"""
        f2 = next(self.fid)
        self.st.frames[f2] = {'$parent': fid}

        def level(i):
            if i == len(gens):
                leaf(f2)
                return self.norm()
            g = gens[i]
            tree = self.iter_tree(self.eval(g.iter, f2 if i else fid))

            def body(v):
                self.assign(g.target, v, f2)
                c = True
                outs = []
                cs = []
                for t in g.ifs:
                    with self.under(And(cs)):
                        cs.append(self.truth(self.eval(t, f2)))
                c = And(cs)
                if isT(c):
                    return level(i + 1)
                if isF(c):
                    return self.norm()
                s0 = self.st
                self.st = s0.clone()
                with self.under(c):
                    o = level(i + 1)
                return self.combine([(k, And(c, cc), v_, st) for k, cc, v_, st in o] + [('normal', Not(c), None, s0)])
            outs = self.run_tree(tree, body)
            self.st = [o for o in outs if o[0] == 'normal'][0][3]
            return self.norm()
        level(0)
        self.st.frames[f2] = {'$parent': fid}

    def e_ListComp(self, e, fid):
        r = self.newlist()
        def leaf(f2):
            v = self.eval(e.elt, f2)
            self.setdata(r, Cat([self.data(r), Unit(v)]))
        self.comp(e.generators, fid, leaf)
        return r

    def e_GeneratorExp(self, e, fid):
        r = self.e_ListComp(e, fid)
        return self.alloc('gen', self.data(r))

    def e_SetComp(self, e, fid):
        r = self.alloc('set', EMPTY)
        def leaf(f2):
            v = self.eval(e.elt, f2)
            self.setdata(r, Cat([self.data(r), Unit(v)]))
        self.comp(e.generators, fid, leaf)
        return r

    def e_DictComp(self, e, fid):
        r = self.alloc('dict', EMPTY)
        def leaf(f2):
            k = self.eval(e.key, f2)
            v = self.eval(e.value, f2)
            self.setdata(r, Cat([self.data(r), Unit((k, v))]))
        self.comp(e.generators, fid, leaf)
        return r

    def e_Call(self, e, fid):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            raise Unsupported('super')
        f = self.eval(e.func, fid)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fid)
                if isinstance(v, tuple):
                    args += list(v)
                else:
                    t = self.tree_of(v)
                    if isinstance(t, Cat) and all(isinstance(x, Unit) for x in t.ts):
                        args += [x.v for x in t.ts]
                    else:
                        raise Unsupported('symbolic *args')
            else:
                args.append(self.eval(a, fid))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kw[k.arg] = self.eval(k.value, fid)
        line = self.line
        v = self.call(f, args, kw)
        self.line = line
        return v

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, IteV):
            return self.split(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, PyFn):
            return f.fn(self, *args, **kw)
        if isinstance(f, Lib):
            return self.lib.call(self, f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Ref):
            h = self.obj(f)
            if h.kind == 'obj' and isinstance(h.cls, ClassV):
                m = self.lookup(h.cls, '__call__')
                if m is not None:
                    return self.call(m.bind(f), args, kw)
            if h.meta and 'call' in h.meta:
                return h.meta['call'](self, f, *args, **kw)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        c = self.contracts.get(cls.qual)
        if c is not None and cls.qual not in self.focus:
            self.used_contracts.add(cls.qual)
            return c(self, cls, *args, **kw)
        for b in cls.mro():
            if isinstance(b, Lib) and b.name in ('Enum',):
                raise Unsupported('Enum')
        r = self.alloc('obj', {}, cls)
        init = self.lookup(cls, '__init__')
        if init is not None:
            self.call(init.bind(r), args, kw)
        elif args or kw:
            raise Unsupported('constructor arguments without __init__')
        return r

    def call_func(self, f, args, kw):
        if f.self_ is not None:
            args = [f.self_] + list(args)
        c = self.contracts.get(f.qual)
        if c is not None and f.qual not in self.focus:
            self.used_contracts.add(f.qual)
            return c(self, *args, **kw)
        return self.inline(f, args, kw)

    def inline(self, f, args, kw):
        rec = self.opts.get('recursion')
        if rec is not None and any(n is f.node for n in self.active):
            return rec(self, f, args)
        if self.depth > self.MAXDEPTH:
            raise Unsupported('recursion without contract: ' + f.qual)
        outs = self.run_body(f, args, kw)
        rs = [o for o in outs if o[0] == 'raise']
        ok = [(k, c, v if k == 'return' else None, st) for k, c, v, st in outs if k in ('normal', 'return')]
        if not ok:
            raise PyRaise(rs[0][2] if rs else 'no outcome')
        for _, c, w, st in rs:
            if self.try_depth:
                self.pending.append((c, w))
                self.assume(Not(c))
            else:
                self.safety(Not(c), 'raises ' + str(w))
        _, c, v, st = ok[0]
        for _, c2, v2, st2 in ok[1:]:
            st = self.merge_states(c, st, st2)
            v = merge(c, v, v2)
            c = Or(c, c2)
        self.st = st
        return v

    def run_body(self, f, args, kw):
        fid = next(self.fid)
        frame = {}
        if f.frame is not None:
            frame['$parent'] = f.frame
        self.bind_args(f, args, kw, frame)
        self.st.frames[fid] = frame
        save = (getattr(self, 'cur_mod', None), getattr(self, 'cur_qual', None), getattr(self, 'cur_file', None))
        self.cur_mod, self.cur_qual, self.cur_file = f.mod, f.qual, f.mod
        self.used.add(f.qual)
        self.depth += 1
        self.active.append(f.node)
        line = self.line
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, fid)
                outs = [('return', True, v, self.st)]
            elif _is_gen(f.node):
                y = self.newlist()
                self.st.frames[fid]['$yield'] = y
                outs = self.block(f.node.body, fid)
                res = []
                for k, c, v, st in outs:
                    if k in ('normal', 'return'):
                        self.st = st
                        g = self.alloc('gen', self.data(y))
                        res.append(('return', c, g, self.st))
                    else:
                        res.append((k, c, v, st))
                if len(res) > 1 and sum(1 for o in res if o[0] == 'return') > 1:
                    # several exits: merge the yields first
                    rr = [o for o in outs if o[0] in ('normal', 'return')]
                    _, c, _, st = rr[0]
                    for _, c2, _, st2 in rr[1:]:
                        st = self.merge_states(c, st, st2)
                        c = Or(c, c2)
                    self.st = st
                    g = self.alloc('gen', self.data(y))
                    res = [('return', c, g, self.st)] + [o for o in outs if o[0] == 'raise']
                outs = res
            else:
                outs = self.block(f.node.body, fid)
        finally:
            self.depth -= 1
            self.active.pop()
            self.cur_mod, self.cur_qual, self.cur_file = save
            self.line = line
        return outs

    def bind_args(self, f, args, kw, frame):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for n in names:
            if args:
                frame[n] = args.pop(0)
                if n in kw:
                    raise PyRaise('TypeError: duplicate argument')
            elif n in kw:
                frame[n] = kw.pop(n)
            elif n in self.fdefaults(f):
                frame[n] = self.fdefaults(f)[n]
            else:
                raise PyRaise('TypeError: missing argument ' + n)
        for x in a.kwonlyargs:
            if x.arg in kw:
                frame[x.arg] = kw.pop(x.arg)
            elif x.arg in self.fdefaults(f):
                frame[x.arg] = self.fdefaults(f)[x.arg]
            else:
                raise PyRaise('TypeError: missing keyword ' + x.arg)
        if a.vararg is not None:
            frame[a.vararg.arg] = tuple(args)
        elif args:
            raise PyRaise('TypeError: too many arguments')
        if kw:
            raise PyRaise('TypeError: unexpected keyword %s' % list(kw))

    def fdefaults(self, f):
        """default values; those of module-level functions are evaluated at the call (they are
        never mutated by the callers in scope)"""
        if f.frame is not None or isinstance(f.node, ast.Lambda):
            return f.defaults
        save = (self.cur_mod, self.cur_qual, self.cur_file)
        self.cur_mod, self.cur_qual, self.cur_file = f.mod, f.qual, f.mod
        fid = next(self.fid)
        self.st.frames[fid] = {}
        try:
            d = self.eval_defaults(f.node.args, fid)
            for x in d.values():
                self.share(x)
            return d
        finally:
            self.cur_mod, self.cur_qual, self.cur_file = save

    def eval_defaults(self, a, fid):
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            out[n] = self.eval(d, fid)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = self.eval(d, fid)
        return out

    # ------------------------------------------------------------------ attributes
    def lookup(self, cls, name):
        for c in cls.mro():
            if isinstance(c, ClassV):
                m = self.class_member(c, name)
                if m is not None:
                    return m
        return None

    def class_member(self, c, name):
        if name in c.members:
            return c.members[name]
        got = None
        setter = None
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                decs = [ast.unparse(d) for d in s.decorator_list]
                f = Func(s, c.mod, c.qual + '.' + name, cls=c)
                if any(d.endswith('.setter') for d in decs):
                    f.kind = 'setter'
                    f.qual += '.setter'
                    setter = f
                    continue
                if 'property' in decs:
                    f.kind = 'property'
                elif 'staticmethod' in decs:
                    f.kind = 'static'
                elif 'classmethod' in decs:
                    f.kind = 'class'
                elif decs:
                    raise Unsupported('decorator %s' % decs)
                else:
                    f.kind = 'method'
                got = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        save = getattr(self, 'cur_mod', None), getattr(self, 'cur_qual', None), getattr(self, 'cur_file', None)
                        self.cur_mod, self.cur_qual, self.cur_file = c.mod, c.qual, c.mod
                        fid = next(self.fid)
                        self.st.frames[fid] = {}
                        if isinstance(s.value, ast.Name):
                            got = self.class_member(c, s.value.id)
                        else:
                            got = self.share(self.eval(s.value, fid))
                        self.cur_mod, self.cur_qual, self.cur_file = save
        if got is not None:
            if isinstance(got, Func):
                got.setter = setter
            c.members[name] = got
        return got

    def getattr(self, v, name):
        if isinstance(v, IteV):
            return self.split(v.c, lambda: self.getattr(v.a, name), lambda: self.getattr(v.b, name))
        if isinstance(v, ModV):
            return self.mod_attr(v, name)
        if isinstance(v, ClassV):
            m = self.lookup(v, name)
            if m is None:
                if name == '__name__':
                    return v.name
                raise PyRaise('AttributeError: %s.%s' % (v.name, name))
            if isinstance(m, Func) and m.kind == 'class':
                return m.bind(v)
            return m
        if isinstance(v, Ref):
            h = self.obj(v)
            if h.kind == 'obj':
                if name == '__class__':
                    return h.cls
                if h.meta and 'views' in h.meta and name in h.meta['views']:
                    return h.meta['views'][name](self, v)
                if isinstance(h.cls, ClassV):
                    m = self.lookup(h.cls, name)
                    if isinstance(m, Func) and m.kind == 'property':
                        return self.call(m.bind(v), [], {})
                else:
                    m = None
                if name in h.data:
                    return self.getfield(v, name)
                if m is not None:
                    if isinstance(m, Func):
                        if m.kind == 'class':
                            return m.bind(h.cls)
                        if m.kind == 'static':
                            return m
                        return m.bind(v)
                    return m
                if isinstance(h.cls, ClassV):
                    for b in h.cls.mro():
                        if isinstance(b, Lib) and self.lib.has_mixin(b.name, name):
                            return Lib(b.name + '.' + name, v)
                if isinstance(h.cls, Lib):
                    return Lib(h.cls.name + '.' + name, v)
                if h.meta and 'views' in h.meta:
                    raise Unsupported('no contract for attribute %s of %s' % (name, h.cls))
                raise PyRaise('AttributeError: %s' % name)
        return self.lib.getattr(self, v, name)

    def setattr(self, v, name, x):
        if isinstance(v, IteV):
            self.split(v.c, lambda: self.setattr(v.a, name, x), lambda: self.setattr(v.b, name, x))
            return
        if isinstance(v, Ref) and self.obj(v).kind == 'obj':
            h = self.obj(v)
            if isinstance(h.cls, ClassV):
                m = self.lookup(h.cls, name)
                if isinstance(m, Func) and m.kind == 'property':
                    if getattr(m, 'setter', None) is None:
                        raise PyRaise('AttributeError: cannot set ' + name)
                    self.call(m.setter.bind(v), [x], {})
                    return
            if h.meta and 'views' in h.meta:
                raise Unsupported('assignment to a field of a model object')
            self.setfield(v, name, x)
            return
        raise Unsupported('setattr on %r' % (v,))

    # ------------------------------------------------------------------ modules
    def module(self, name):
        """(ast, file) of a repo module"""
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.repo, *name.split('.'))
        fn = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(fn):
            self.mods[name] = None
            return None
        src = open(fn, encoding='utf8').read()
        tree = ast.parse(src)
        self.mods[name] = {'name': name, 'file': fn, 'tree': tree, 'cache': {}, 'src': src}
        return self.mods[name]

    def import_mod(self, name):
        if name.split('.')[0] == 'ababe':
            return ModV(name)
        return ModV(name)

    def import_from(self, module, name, level=0):
        if level:
            base = self.cur_mod.split('.')[:-level]
            module = '.'.join(base + ([module] if module else []))
        if module.split('.')[0] == 'ababe':
            m = self.module(module + '.' + name)
            if m is not None and self.module(module) is not None and not self.mod_has(module, name):
                return ModV(module + '.' + name)
            return self.mod_get(module, name)
        return self.lib.libname(module + '.' + name)

    def mod_has(self, mod, name):
        m = self.module(mod)
        for s in m['tree'].body:
            if getattr(s, 'name', None) == name:
                return True
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return True
            if isinstance(s, ast.ImportFrom) and any((a.asname or a.name) == name for a in s.names):
                return True
        return False

    def mod_attr(self, mv, name):
        if mv.name.split('.')[0] == 'ababe':
            if self.mod_has(mv.name, name):
                return self.mod_get(mv.name, name)
            if self.module(mv.name + '.' + name) is not None:
                return ModV(mv.name + '.' + name)
            return self.mod_get(mv.name, name)
        return self.lib.libname(mv.name + '.' + name)

    def mod_get(self, mod, name):
        m = self.module(mod)
        if m is None:
            raise Unsupported('module %s' % mod)
        if name in m['cache']:
            return m['cache'][name]
        save = (getattr(self, 'cur_mod', None), getattr(self, 'cur_qual', None), getattr(self, 'cur_file', None))
        self.cur_mod, self.cur_qual, self.cur_file = mod, mod, mod
        levels = self.levels
        try:
            v = self.mod_lookup(m, mod, name)
        finally:
            self.cur_mod, self.cur_qual, self.cur_file = save
        if not isinstance(v, Ref):
            m['cache'][name] = v
        return self.share(v)

    def mod_lookup(self, m, mod, name):
        ov = self.hooks.get(('global', mod, name))
        if ov is not None:
            return ov(self)
        got = None
        found = False
        withs = dict((id(x), w) for w in m['tree'].body if isinstance(w, ast.With) for x in w.body)
        for s in _flat(m['tree'].body):
            if isinstance(s, ast.FunctionDef) and s.name == name:
                got = Func(s, mod, mod + '.' + name)
                if s.decorator_list:
                    raise Unsupported('decorated function ' + name)
                found = True
            elif isinstance(s, ast.ClassDef) and s.name == name:
                fid = next(self.fid)
                self.st.frames[fid] = {}
                bases = []
                for b in s.bases:
                    bv = self.eval(b, fid)
                    if isinstance(bv, (ClassV, Lib)) and not (isinstance(bv, Lib) and bv.name == 'builtins.object'):
                        bases.append(bv)
                got = ClassV(s, mod, mod + '.' + name, bases)
                found = True
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        got = self.import_mod(a.name if a.asname else a.name.split('.')[0])
                        found = True
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == name:
                        got = self.import_from(s.module, a.name, s.level)
                        found = True
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        fid = next(self.fid)
                        self.st.frames[fid] = {}
                        if id(s) in withs:
                            for it in withs[id(s)].items:
                                if it.optional_vars is not None:
                                    self.assign(it.optional_vars, self.eval(it.context_expr, fid), fid)
                        got = self.eval(s.value, fid)
                        found = True
        if found:
            return got
        if name == '__file__':
            return m['file']
        if name == '__name__':
            return mod
        if self.lib.has_builtin(name):
            return Lib('builtins.' + name)
        raise PyRaise('NameError: ' + name)


class FamField(object):
    """field of a family of objects, written at several members"""
    __slots__ = ('lam',)

    def __init__(self, lam):
        self.lam = lam


def _bf(self, X):
    # objects allocated under binders that are not all in scope now are foreign families
    cur = X.binders()
    return bool(self.binders) and not all(any(b.eq(c) for c in cur) for b in self.binders)


HObj.binders_foreign = _bf
R_ = z3.RealSort()


class _Under(object):
    def __init__(self, X, c):
        self.X, self.c = X, c

    def __enter__(self):
        self.n = len(self.X.pc)
        if not isT(self.c):
            self.X.pc.append(fb(self.c))

    def __exit__(self, *a):
        del self.X.pc[self.n:]


def sub_fn(f, k):
    return f(k)


_HASQ = {}


def _hasq(c):
    """does a quantifier occur in the formula"""
    todo, seen = [c], set()
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        w = _HASQ.get(i)
        if w is not None and w[0].eq(e):
            if w[1]:
                return True
            continue
        if z3.is_quantifier(e):
            _HASQ[c.get_id()] = (c, True)
            return True
        todo.extend(e.children())
    _HASQ[c.get_id()] = (c, False)
    return False


def _flat(body):
    for s in body:
        if isinstance(s, (ast.If, ast.With, ast.Try)):
            for x in _flat(s.body):
                yield x
        else:
            yield s


def _is_gen(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
                todo.append(c)
    return False


def _assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def _has_old(v):
    if isinstance(v, Old):
        return True
    if isinstance(v, IteV):
        return _has_old(v.a) or _has_old(v.b)
    if isinstance(v, tuple):
        return any(_has_old(x) for x in v)
    return False


def _dead(v):
    if isinstance(v, Dead):
        return True
    if isinstance(v, IteV):
        return _dead(v.a) or _dead(v.b)
    return False


def _split_old(v):
    """(cond written, value)"""
    if isinstance(v, Old):
        return False, None
    if isinstance(v, IteV):
        ca, va = _split_old(v.a)
        cb, vb = _split_old(v.b)
        c = Or(And(v.c, ca), And(Not(v.c), cb))
        if isF(ca):
            return c, vb
        if isF(cb):
            return c, va
        return c, merge(v.c, va, vb)
    return True, v


def _mentions(v, k):
    if is_z(v):
        return occurs(k, v)
    if is_conc(v):
        return False
    if isinstance(v, tuple):
        return any(_mentions(x, k) for x in v)
    if isinstance(v, Ref):
        return any(_mentions(zv(x), k) for x in v.idx)
    if isinstance(v, IteV):
        return _mentions(v.c, k) or _mentions(v.a, k) or _mentions(v.b, k)
    return True


def _split_hist(t, rec, ordered):
    """(condition under which the earlier contents are kept, what is added)"""
    if isinstance(t, Hist) and t.rec is rec:
        return True, EMPTY
    if isinstance(t, Guard):
        k, d = _split_hist(t.t, rec, ordered)
        return (False if isF(k) else And(t.c, k)), guard(t.c, d)
    if isinstance(t, Cat):
        keep, out = False, []
        for i, x in enumerate(t.ts):
            if not _has_hist(x, rec):
                out.append(x)
                continue
            if ordered and out and any(not isinstance(o, Guard) or not _has_hist(t.ts[j], rec) for j, o in enumerate(t.ts[:i])):
                raise Unsupported('collection grows at its front')
            k, d = _split_hist(x, rec, ordered)
            keep = Or(keep, k)
            if not (isinstance(d, Cat) and not d.ts):
                out.append(d)
        return keep, Cat(out)
    if _has_hist(t, rec):
        raise Unsupported('collection added to itself')
    return False, t


def _has_hist(t, rec):
    if isinstance(t, Hist):
        return t.rec is rec
    if isinstance(t, Cat):
        return any(_has_hist(x, rec) for x in t.ts)
    if isinstance(t, (Guard, For, SetFor)):
        return _has_hist(t.t, rec)
    return False


def _any_hist(t):
    if isinstance(t, Hist):
        return True
    if isinstance(t, Cat):
        return any(_any_hist(x) for x in t.ts)
    if isinstance(t, (Guard, For, SetFor)):
        return _any_hist(t.t)
    return False
