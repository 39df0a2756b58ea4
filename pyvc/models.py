"""Models of library functions (trusted contracts on dependencies; the ones used by a proof are
listed in its evidence)."""
import itertools, math
from fractions import Fraction
import z3
from vals import *
import core
from core import FamField, Dead
import lib
from lib import (model, add, sub_ as minus, mul, truediv, cmp, eq, truth, to_lam, lget, mkarr, mklam, is_arr,
                 arr_bin, arr_map, around, binop, contains, tfilter, MODELS, BUILTINS, norm_index)

# ------------------------------------------------------------------ helpers


def bindtree(X, t, f):
    """replace every Unit(v) by the tree f(v)"""
    if isinstance(t, Unit):
        return f(t.v)
    if isinstance(t, Guard):
        with X.under(t.c):
            return guard(t.c, bindtree(X, t.t, f))
    if isinstance(t, Cat):
        return Cat([bindtree(X, x, f) for x in t.ts])
    if isinstance(t, For):
        k = X.const('k')
        X.push(k, [k >= 0, k < zv(t.n)])
        try:
            b = bindtree(X, sub(t.t, [(t.k, k)]), f)
        finally:
            X.pop()
        return For(k, t.n, b)
    if isinstance(t, SetFor):
        ks = [X.const('x', k.sort()) for k in t.ks]
        m = list(zip(t.ks, ks))
        p = sub(fb(t.p), m)
        for i, k in enumerate(ks):
            X.push(k, [p] if i == len(ks) - 1 else [])
        try:
            b = bindtree(X, sub(t.t, m), f)
        finally:
            for k in ks:
                X.pop()
        return SetFor(ks, p, b)
    raise Unsupported('nested iteration over a growing list')


def units(t):
    """values of a sequence of known length, else None"""
    if isinstance(t, Unit):
        return [t.v]
    if isinstance(t, Cat) and all(isinstance(x, Unit) for x in t.ts):
        return [x.v for x in t.ts]
    if isinstance(t, Cat) and len(t.ts) == 1:
        return units(t.ts[0])
    if isinstance(t, For) and isinstance(t.n, int):
        b = [units(sub(t.t, [(t.k, z3.IntVal(i))])) for i in range(t.n)]
        if all(x is not None for x in b):
            return list(itertools.chain(*b))
    return None


def strip(t):
    while isinstance(t, Cat) and len(t.ts) == 1:
        t = t.ts[0]
    return t


def seqmap(X, t, f):
    """[f(v) for v in t], f may have effects"""
    r = X.newlist()

    def body(v):
        w = f(v)
        X.setdata(r, Cat([X.data(r), Unit(w)]))
        return X.norm()
    outs = X.run_tree(t, body)
    X.st = [o for o in outs if o[0] == 'normal'][0][3]
    return X.data(r)


def nonneg(X, n):
    if isinstance(n, int):
        return max(0, n)
    n = zv(n)
    if X.entails(n >= 0, 600):
        return n
    return z3.If(n > 0, n, z3.IntVal(0))


# ------------------------------------------------------------------ builtins
@model('builtins.range')
def _range(X, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    for v in (a, b):
        if isinstance(v, Fraction) or (is_z(v) and v.sort() != I):
            raise PyRaise('TypeError: range of a float')
    if isinstance(a, int) and isinstance(b, int) and isinstance(step, int):
        if b - a <= 400:
            return X.newlist(Cat([Unit(i) for i in range(a, b, step)]), 'tuple')
        if step == 1:
            return X.newlist(Cat([For(X.const('k'), b - a, Unit(0))]), 'tuple') if False else \
                _symrange(X, a, z3.IntVal(b))
    if step == -1:
        n = nonneg(X, minus(X, a, b))
        k = X.const('k')
        return X.newlist(Cat([For(k, n, Unit(zv(a) - k))]), 'tuple')
    if step != 1:
        raise Unsupported('range step')
    return _symrange(X, a, b)


def _symrange(X, a, b):
    n = nonneg(X, minus(X, b, a))
    k = X.const('k')
    return X.newlist(Cat([For(k, n, Unit(add(X, a, k)))]), 'tuple')


@model('builtins.len')
def _len(X, v):
    if isinstance(v, IteV):
        return X.split(v.c, lambda: _len(X, v.a), lambda: _len(X, v.b))
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Ref):
        h = X.obj(v)
        d = X.data(v)
        if h.kind in ('list', 'tuple'):
            return X.tlen(d)
        if h.kind in ('arr', 'larr'):
            return d.dims[0]
        if h.kind == 'dict':
            if isinstance(d, MapV):
                return d.size
            if core._any_hist(d):
                return X.set_len(d, lambda a, b: eq(X, a[0], b[0]))
            return X.tlen(dict_distinct(X, d))
        if h.kind == 'set':
            if core._any_hist(d):
                return X.set_len(d, lambda a, b: eq(X, a, b))
            return X.tlen(X.distinct(d))
        if h.kind == 'gen':
            raise PyRaise('TypeError: len of a generator')
        if h.kind == 'obj':
            if h.meta and 'len' in h.meta:
                return h.meta['len'](X, v)
            m = X.lookup(h.cls, '__len__') if isinstance(h.cls, ClassV) else None
            if m is not None:
                return X.call(m.bind(v), [])
    raise Unsupported('len of %r' % (v,))


def dict_distinct(X, d):
    """the entries of a dictionary when every key was stored once"""
    u = units(d)
    if u is not None and all(is_conc(kv[0]) for kv in u):
        return d
    ls = X.leaves(d)
    if len(ls) == 1:
        bs, gs, kv = ls[0]
        ks = [k for k, _ in bs]
        ks2 = [X.const('q') for _ in ks]
        kv2 = sub(kv, list(zip(ks, ks2)))
        same_key = eq(X, kv[0], kv2[0])
        dom = And([And(k >= 0, k < zv(n)) for k, n in bs] + gs)
        dom2 = sub(fb(dom), list(zip(ks, ks2)))
        if X.entails(Implies(And(dom, dom2, same_key), And([a == b for a, b in zip(ks, ks2)])), 3000):
            return d
    raise Unsupported('dictionary with repeated keys')


@model('builtins.list')
def _list(X, v=None):
    if v is None:
        return X.newlist()
    return X.newlist(X.iter_tree(v))


@model('builtins.tuple')
def _tuple(X, v=None):
    if v is None:
        return ()
    if isinstance(v, tuple):
        return v
    t = X.iter_tree(v)
    u = units(t)
    if u is not None:
        return tuple(u)
    return X.newlist(t, 'tuple')


@model('builtins.set')
def _set(X, v=None):
    if v is None:
        return X.alloc('set', EMPTY)
    t = X.iter_tree(v)
    return X.alloc('set', t if isinstance(t, Cat) else Cat([t]))


MODELS['builtins.frozenset'] = _set


@model('builtins.dict')
def _dict(X, v=None, **kw):
    if v is None:
        return X.alloc('dict', Cat([Unit((k, x)) for k, x in kw.items()]))
    if isinstance(v, Ref) and X.obj(v).kind == 'dict':
        return X.alloc('dict', X.data(v))
    t = X.tmap(X.iter_tree(v), lambda p: X.unpack(p, 2))
    return X.alloc('dict', t if isinstance(t, Cat) else Cat([t]))


@model('builtins.enumerate')
def _enumerate(X, v, start=0):
    t = strip(X.iter_tree(v))
    return X.alloc('gen', Cat([numbered(X, t, start)]))


def numbered(X, t, start=0):
    u = units(t)
    if u is not None:
        return Cat([Unit((add(X, start, i), v)) for i, v in enumerate(u)])
    if isinstance(t, For) and isinstance(t.t, Unit):
        return For(t.k, t.n, Unit((add(X, start, t.k), t.t.v)))
    if isinstance(t, Cat):
        off, out = start, []
        for x in t.ts:
            out.append(numbered(X, x, off))
            off = add(X, off, X.tlen(x))
        return Cat(out)
    L, at, rank, ks, dom, g = X.flatten(t)
    k = X.const('k')
    X.push(k, [k >= 0, k < L])
    v = at(k)
    X.pop()
    return For(k, L, Unit((add(X, start, k), v)))


@model('builtins.zip')
def _zip(X, *its):
    ts = [strip(X.iter_tree(v)) for v in its]
    us = [units(t) for t in ts]
    if any(u is not None for u in us):
        n = min(len(u) for u in us if u is not None)
        if all(u is not None for u in us):
            return X.alloc('gen', Cat([Unit(tuple(x)) for x in zip(*us)]))
    ns = [X.tlen(t) for t in ts]
    n = ns[0]
    for m in ns[1:]:
        if same(zv(m), zv(n)) or X.entails(zv(m) == zv(n), 1000) or X.entails(zv(m) >= zv(n), 1000):
            continue
        n = z3.If(zv(m) < zv(n), zv(m), zv(n))
    return X.alloc('gen', Cat([X.seq(n, lambda k: tuple(X.at(t, k) for t in ts))]))


@model('itertools.zip_longest')
def _zipl(X, *its, fillvalue=None):
    ts = [strip(X.iter_tree(v)) for v in its]
    ns = [X.tlen(t) for t in ts]
    n = ns[0]
    for m in ns[1:]:
        if isinstance(n, int) and isinstance(m, int):
            n = max(n, m)
        else:
            n = z3.If(zv(m) > zv(n), zv(m), zv(n))

    def el(k):
        out = []
        for t, m in zip(ts, ns):
            c = cmp(X, '<', k, m)
            if isF(c):
                out.append(fillvalue)
                continue
            with X.under(c):
                v = X.at(t, k)
            out.append(merge(c, v, fillvalue))
        return tuple(out)
    return X.alloc('gen', Cat([X.seq(n, el)]))


@model('builtins.map')
def _map(X, f, *its):
    if len(its) == 1:
        t = X.iter_tree(its[0])
        return X.alloc('gen', seqmap(X, t, lambda v: X.call(f, [v])))
    z = X.data(_zip(X, *its))
    return X.alloc('gen', seqmap(X, z, lambda v: X.call(f, list(v))))


@model('builtins.filter')
def _filter(X, f, it):
    t = tfilter(X, X.iter_tree(it), lambda v: truth(X, X.call(f, [v]) if f is not None else v))
    return X.alloc('gen', Cat([t]))


@model('builtins.reversed')
def _reversed(X, v):
    t = strip(X.iter_tree(v))
    u = units(t)
    if u is not None:
        return X.alloc('gen', Cat([Unit(x) for x in reversed(u)]))
    n = X.tlen(t)
    return X.alloc('gen', Cat([X.seq(n, lambda k: X.at(t, zv(n) - 1 - k))]))


def lexless(X, a, b):
    """strict lexicographic order of equal-length key tuples"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = Or(cmp(X, '<', x, y), And(cmp(X, '==', x, y), r))
    return r


def sort_perm(X, n, key):
    """stable sort: permutation p of [0, n) with keys in order; key(i) -> tuple of numbers.
    Keys that are those of an earlier sort, rearranged by its permutation, are in order already, and
    the stable sort of a sequence in order is the identity (lemma 'stable sort of a sorted sequence',
    proved with the contract of GeneralCell.__init__)"""
    n = zv(n)
    a = z3.Const('i!sort', I)
    X.push(a, [a >= 0, a < n])
    k0 = [z3.simplify(zv(num(x))) for x in key(a)]
    X.pop()
    for n2, p2, key2 in X.sortrecs:
        if not n2.eq(n):
            continue
        X.push(a, [a >= 0, a < n])
        k2 = [z3.simplify(zv(num(x))) for x in key2(p2(a))]
        X.pop()
        if len(k2) == len(k0) and all(x.eq(y) for x, y in zip(k0, k2)):
            X.used_lemmas.add('stable sort of a sorted sequence is the identity')
            return (lambda i: i), (lambda i: i)
    p = X.func('perm', [I], I)
    q = X.func('place', [I], I)
    n = zv(n)
    j, j2 = X.const('j'), X.const('j')
    X.define(All([j], Implies(And(j >= 0, j < n), And(p(j) >= 0, p(j) < n, q(p(j)) == j)), [p(j)]))
    X.define(All([j], Implies(And(j >= 0, j < n), And(q(j) >= 0, q(j) < n, p(q(j)) == j)), [q(j)]))
    if not X.binders():
        X.sortrecs.append((n, p, key))
    if X.opts.get('nosortfacts'):
        return p, q
    X.push(j, [j >= 0, j < n])
    X.push(j2, [j2 > j, j2 < n])
    ka, kb = key(p(j)), key(p(j2))
    f = Or(lexless(X, ka, kb), And([cmp(X, '==', x, y) for x, y in zip(ka, kb)] + [p(j) < p(j2)]))
    X.pop()
    X.pop()
    X.define(All([j, j2], Implies(And(j >= 0, j < j2, j2 < n), f), [z3.MultiPattern(p(j), p(j2))]))
    return p, q


def as_key(v):
    return v if isinstance(v, tuple) else (v,)


@model('builtins.sorted')
def _sorted(X, v, key=None, reverse=False):
    t = strip(X.iter_tree(v))
    u = units(t)
    if u is not None and key is None and all(isinstance(x, (int, Fraction)) for x in u) or \
            u is not None and key is None and all(isinstance(x, str) for x in u):
        return X.newlist(Cat([Unit(x) for x in sorted(u, reverse=bool(reverse))]))
    if u is not None and key is not None:
        ks = [X.call(key, [x]) for x in u]
        if all(is_conc(k) for k in ks):
            o = sorted(range(len(u)), key=lambda i: ks[i], reverse=bool(reverse))
            return X.newlist(Cat([Unit(u[i]) for i in o]))
    if reverse is not False:
        raise Unsupported('reverse sort')
    n = X.tlen(t)
    p, q = sort_perm(X, n, lambda i: as_key(X.call(key, [X.at(t, i)]) if key is not None else X.at(t, i)))
    k = X.const('k')
    return X.newlist(Cat([For(k, zv(n), Unit(X.at(t, p(k))))]))


def extremum(X, t, key, op):
    """first element with the greatest / smallest key"""
    t = strip(t)
    u = units(t)
    if u is not None:
        if not u:
            raise PyRaise('ValueError: empty sequence')
        best, bk = u[0], key(u[0])
        for x in u[1:]:
            k = key(x)
            c = cmp(X, op, k, bk) if not isinstance(k, tuple) else (lexless(X, bk, k) if op == '>' else lexless(X, k, bk))
            best, bk = merge(c, x, best), merge(c, k, bk)
        return best
    n = X.tlen(t)
    X.safety(cmp(X, '>', n, 0), 'nonempty sequence')
    m = X.fresh('arg')
    X.define(Implies(zv(n) > 0, And(m >= 0, m < zv(n))))
    j = X.const('j')
    X.push(j, [j >= 0, j < zv(n)])
    kj, km = key(X.at(t, j)), key(X.at(t, m))
    if isinstance(kj, tuple):
        raise Unsupported('extremum by tuple')
    f = And(Not(cmp(X, op, kj, km)), Implies(j < m, cmp(X, op, km, kj)))
    X.pop()
    X.define(All([j], Implies(And(j >= 0, j < zv(n)), f)))
    return X.at(t, m)


def _mm(op):
    def f(X, *a, key=None, **kw):
        if kw:
            raise Unsupported('max/min keyword')
        kf = (lambda v: X.call(key, [v])) if key is not None else (lambda v: v)
        if len(a) == 1:
            return extremum(X, X.iter_tree(a[0]), kf, op)
        best = a[0]
        for x in a[1:]:
            c = cmp(X, op, kf(x), kf(best))
            best = merge(c, x, best)
        return best
    return f


MODELS['builtins.max'] = _mm('>')
MODELS['builtins.min'] = _mm('<')


@model('builtins.sum')
def _sum(X, v, start=0):
    t = strip(X.iter_tree(v))
    u = units(t)
    if u is not None:
        s = start
        for x in u:
            s = binop(X, 'Add', s, x)
        return s
    raise Unsupported('sum over a symbolic sequence')


@model('builtins.abs')
def _abs(X, v):
    if is_arr(X, v):
        return arr_map(X, lambda x: _abs(X, x), v)
    if isinstance(v, (int, Fraction)):
        return abs(v)
    v = num(v)
    return z3.If(v >= 0, v, -v)


MODELS['numpy.abs'] = MODELS['numpy.absolute'] = MODELS['numpy.fabs'] = _abs


@model('builtins.int')
def _int(X, v=0):
    if isinstance(v, IteV):
        return merge(v.c, _int(X, v.a), _int(X, v.b))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise('ValueError: int()')
    if isinstance(v, StrV):
        return lib.parse_int(X, v)
    return lib.trunc(X, v)


@model('builtins.float')
def _float(X, v=0):
    if isinstance(v, IteV):
        return merge(v.c, _float(X, v.a), _float(X, v.b))
    if isinstance(v, str):
        try:
            return Fraction(v.strip())
        except ValueError:
            raise PyRaise('ValueError: float()')
    if isinstance(v, StrV):
        return lib.parse_float(X, v)
    v = num(v)
    return Fraction(v) if isinstance(v, int) else real(v)


@model('builtins.bool')
def _bool(X, v=False):
    return truth(X, v)


@model('builtins.str')
def _str(X, v=''):
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    if is_arr(X, v) or isinstance(v, Ref) and X.obj(v).kind in ('list', 'tuple'):
        # the printed form determines the contents (short arrays: numpy prints every element)
        return HashV('str', to_lam(X, v))
    if is_z(v) and v.sort() == I:
        return StrV([('int', v)])
    return StrV([('str', v)])


@model('builtins.round')
def _round(X, v, nd=None):
    if isinstance(v, IteV):
        return merge(v.c, _round(X, v.a, nd), _round(X, v.b, nd))
    if nd is None:
        r = around(X, v, 0)
        return lib.trunc(X, r)
    return around(X, v, nd)


@model('builtins.isinstance')
def _isinstance(X, v, c):
    if isinstance(c, tuple):
        return Or([_isinstance(X, v, x) for x in c])
    if isinstance(v, IteV):
        return merge(v.c, _isinstance(X, v.a, c), _isinstance(X, v.b, c))
    if isinstance(c, ClassV):
        if isinstance(v, Ref) and X.obj(v).kind == 'obj':
            k = X.obj(v).cls
            return isinstance(k, ClassV) and c in k.mro()
        if is_z(v) and v.sort() == Item:
            raise Unsupported('isinstance of an opaque item')
        return False
    nm = c.name.split('.')[-1]
    if nm == 'int':
        return is_num(v) and (not is_z(v) and isinstance(v, int) or is_z(v) and v.sort() in (I, B))
    if nm == 'float':
        return isinstance(v, Fraction) or is_z(v) and v.sort() == R
    if nm == 'str':
        return isinstance(v, (str, StrV))
    if nm == 'bool':
        return is_bool(v)
    if nm in ('list', 'dict', 'set'):
        return isinstance(v, Ref) and X.obj(v).kind == nm
    if nm == 'tuple':
        return isinstance(v, tuple) or isinstance(v, Ref) and X.obj(v).kind == 'tuple'
    if nm == 'ndarray':
        return is_arr(X, v)
    raise Unsupported('isinstance %s' % nm)


@model('builtins.print')
def _print(X, *a, **k):
    return None


@model('builtins.any')
def _any(X, v):
    return X.member(X.iter_tree(v), lambda x: truth(X, x))


@model('builtins.all')
def _all(X, v):
    return X.forall_in(X.iter_tree(v), lambda x: truth(X, x))


@model('builtins.iter')
def _iter(X, v):
    return X.alloc('gen', X.iter_tree(v))


@model('builtins.next')
def _next(X, v, *d):
    t = X.data(v)
    u = units(t)
    if u:
        X.setdata(v, Cat([Unit(x) for x in u[1:]]))
        return u[0]
    has = X.member(t, lambda x: True)
    if d:
        if isF(has):
            return d[0]
        with X.under(has):
            w = lib.first_of(X, strip(t))
        X.setdata(v, Cat([Drop(X)])) if False else None
        return merge(has, w, d[0])
    X.safety(has, 'next of an exhausted iterator')
    return lib.first_of(X, strip(t))


@model('builtins.type')
def _type(X, v):
    if isinstance(v, Ref) and X.obj(v).kind == 'obj':
        return X.obj(v).cls
    raise Unsupported('type()')


@model('builtins.hasattr')
def _hasattr(X, v, name):
    try:
        X.getattr(v, name)
        return True
    except PyRaise:
        return False


@model('builtins.getattr')
def _getattr(X, v, name, *d):
    return X.getattr(v, name)


@model('builtins.divmod')
def _divmod(X, a, b):
    return (lib.floordiv(X, a, b), lib.mod(X, a, b))


@model('functools.reduce')
def _reduce(X, f, it, *init):
    t = X.iter_tree(it)
    if isinstance(f, Lib) and f.name in ('builtins.list.__add__', 'operator.add', 'builtins.list.__iadd__') and not units(t):
        X.safety(X.member(t, lambda v: True) if not init else True, 'reduce of an empty sequence')
        return X.newlist(bindtree(X, t, lambda v: X.data(v)))
    u = units(t)
    if u is None:
        raise Unsupported('reduce')
    if init:
        acc = init[0]
    elif u:
        acc, u = u[0], u[1:]
    else:
        raise PyRaise('TypeError: reduce of empty sequence')
    for x in u:
        acc = X.call(f, [acc, x])
    return acc


@model('builtins.list.__add__')
def _ladd(X, a, b):
    return binop(X, 'Add', a, b)


for _n, _o in (('add', 'Add'), ('mul', 'Mult'), ('sub', 'Sub'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod')):
    MODELS['operator.' + _n] = (lambda o: lambda X, a, b: binop(X, o, a, b))(_o)


@model('operator.itemgetter')
def _itemgetter(X, *ks):
    if len(ks) == 1:
        return PyFn(lambda X_, v: lib.getitem(X_, v, ks[0]), 'itemgetter')
    return PyFn(lambda X_, v: tuple(lib.getitem(X_, v, k) for k in ks), 'itemgetter')


# ------------------------------------------------------------------ itertools
@model('itertools.product')
def _product(X, *its, repeat=1):
    if not isinstance(repeat, int):
        raise Unsupported('symbolic repeat')
    ts = [X.iter_tree(v) for v in its] * repeat
    us = [units(t) for t in ts]
    if all(u is not None for u in us):
        n = 1
        for u in us:
            n *= len(u)
        if n <= 256:
            return X.alloc('gen', Cat([Unit(tuple(x)) for x in itertools.product(*us)]))

    def nest(i, acc):
        if i == len(ts):
            return Unit(acc)
        return bindtree(X, ts[i], lambda v: nest(i + 1, acc + (v,)))
    t = nest(0, ())
    return X.alloc('gen', t if isinstance(t, Cat) else Cat([t]))


class Comb(object):
    """record of a call of itertools.combinations"""
    def __init__(self, n, pool, plen, count, idx):
        self.n, self.pool, self.plen, self.count, self.idx = n, pool, plen, count, idx


@model('itertools.combinations')
def _combinations(X, it, n):
    t = strip(X.iter_tree(it))
    u = units(t)
    if isinstance(n, int) and u is not None and math.comb(len(u), n) <= 64:
        return X.alloc('gen', Cat([Unit(tuple(x)) for x in itertools.combinations(u, n)]))
    L = X.tlen(t)
    if isinstance(n, int) and n == 2 and X.opts.get('flatpairs'):
        # every pair of places p < q once, in one sequence
        cnt, rk = X.fresh('npairs'), X.func('pairno', [I, I], I)
        fp, fq = X.func('pairp', [I], I), X.func('pairq', [I], I)
        c, a, b = X.const('c'), X.const('a'), X.const('b')
        X.define(cnt >= 0)
        X.define(All([c], Implies(And(c >= 0, c < cnt), And(fp(c) >= 0, fp(c) < fq(c), fq(c) < zv(L), rk(fp(c), fq(c)) == c)), [fp(c)]))
        X.define(All([a, b], Implies(And(a >= 0, a < b, b < zv(L)), And(rk(a, b) >= 0, rk(a, b) < cnt, fp(rk(a, b)) == a, fq(rk(a, b)) == b)), [rk(a, b)]))
        X.flatpairs = (cnt, rk, fp, fq)
        k = X.const('k')
        X.push(k, [k >= 0, k < cnt])
        v = (X.at(t, fp(k)), X.at(t, fq(k)))
        X.pop()
        return X.alloc('gen', Cat([For(k, cnt, Unit(v))]))
    if isinstance(n, int) and n <= 3:
        def nest(i, lo, acc):
            if i == n:
                return Unit(tuple(acc))
            k = X.const('k')
            # positions lo <= p < L
            cnt = zv(L) - zv(lo)
            X.push(k, [k >= 0, k < cnt])
            p = add(X, lo, k)
            try:
                b = nest(i + 1, add(X, p, 1), acc + [X.at(t, p)])
            finally:
                X.pop()
            return For(k, cnt, b)
        tr = nest(0, 0, [])
        return X.alloc('gen', tr if isinstance(tr, Cat) else Cat([tr]))
    # the n-element subsets of the positions of the pool, each exactly once, as increasing tuples
    if isinstance(n, Fraction) or is_z(n) and n.sort() != I:
        raise PyRaise('TypeError: combinations')
    n = zv(n)
    X.safety(n >= 0, 'combinations of a negative size')
    cnt = X.fresh('ncomb')
    idx = X.func('comb', [I, I], I)
    c, j, j2 = X.const('c'), X.const('j'), X.const('j')
    X.define(cnt >= 0)
    X.define(All([c, j], Implies(And(c >= 0, c < cnt, j >= 0, j < n), And(idx(c, j) >= 0, idx(c, j) < zv(L)))))
    X.define(All([c, j, j2], Implies(And(c >= 0, c < cnt, j >= 0, j < j2, j2 < n), idx(c, j) < idx(c, j2))))
    rec = Comb(n, t, L, cnt, idx)
    rec.binders = X.binders()
    X.combs.append(rec)
    k = X.const('k')
    X.push(k, [k >= 0, k < cnt])
    jj = X.const('j')
    X.push(jj, [jj >= 0, jj < n])
    v = X.at(t, idx(k, jj))
    X.pop()
    el = X.alloc('tuple', Cat([For(jj, n, Unit(v))]))
    X.pop()
    return X.alloc('gen', Cat([For(k, cnt, Unit(el))]))


@model('itertools.tee')
def _tee(X, it, n=2):
    t = X.iter_tree(it)
    return tuple(X.alloc('gen', t) for _ in range(n))


@model('itertools.chain')
def _chain(X, *its):
    return X.alloc('gen', Cat([X.iter_tree(i) for i in its]))


@model('itertools.chain.from_iterable')
def _chainf(X, it):
    t = bindtree(X, X.iter_tree(it), lambda v: X.tree_of(v))
    return X.alloc('gen', t if isinstance(t, Cat) else Cat([t]))


@model('itertools.repeat')
def _repeat(X, v, n):
    k = X.const('k')
    return X.alloc('gen', Cat([For(k, nonneg(X, n), Unit(v))]) if not isinstance(n, int) else Cat([Unit(v)] * n))


# ------------------------------------------------------------------ list, dict, set methods
@model('list.append')
def _append(X, l, v):
    X.setdata(l, Cat([X.data(l), Unit(v)]))


@model('list.extend')
def _extend(X, l, it):
    X.setdata(l, Cat([X.data(l), X.iter_tree(it)]))


@model('list.insert')
def _insert(X, l, i, v):
    t = lib.list_insert(X, X.data(l), i, v)
    X.setdata(l, t if isinstance(t, Cat) else Cat([t]))


@model('list.pop')
def _pop(X, l, i=-1):
    t = X.data(l)
    n = X.tlen(t)
    k = norm_index(X, i, n, 'pop index')
    v = X.at(t, k)
    r = lib.list_del(X, t, n, k)
    X.setdata(l, r if isinstance(r, Cat) else Cat([r]))
    return v


@model('list.remove')
def _remove(X, l, v):
    raise Unsupported('list.remove')


@model('list.copy')
def _lcopy(X, l):
    return X.newlist(X.data(l))


@model('list.clear')
def _lclear(X, l):
    X.setdata(l, EMPTY)


@model('list.count')
def _lcount(X, l, v):
    return count(X, X.data(l), v)


@model('list.index')
def _lindex(X, l, v):
    t = strip(X.data(l))
    X.safety(X.member(t, lambda x: eq(X, x, v)), 'value in list')
    n = X.tlen(t)
    i = X.fresh('index')
    X.assume(And(i >= 0, i < zv(n), eq(X, X.at(t, i), v)))
    j = X.const('j')
    X.push(j, [j >= 0, j < i])
    f = Not(eq(X, X.at(t, j), v))
    X.pop()
    X.assume(All([j], Implies(And(j >= 0, j < i), f)))
    return i


@model('list.sort')
def _lsort(X, l, key=None, reverse=False):
    r = _sorted(X, X.newlist(X.data(l)), key, reverse)
    X.setdata(l, X.data(r))


for _n in ('__iter__', '__len__', '__getitem__', '__setitem__', '__delitem__', '__contains__'):
    pass
MODELS['list.__iter__'] = lambda X, l: X.alloc('gen', X.data(l))
MODELS['list.__len__'] = lambda X, l: X.tlen(X.data(l))
MODELS['list.__getitem__'] = lambda X, l, i: lib.getitem(X, l, i)
MODELS['list.__setitem__'] = lambda X, l, i, v: lib.setitem(X, l, i, v)
MODELS['list.__delitem__'] = lambda X, l, i: lib.delitem(X, l, i)
MODELS['list.__contains__'] = lambda X, l, v: contains(X, l, v)
MODELS['list.__add__'] = lambda X, l, v: binop(X, 'Add', l, v)
MODELS['tuple.index'] = _lindex
MODELS['tuple.count'] = lambda X, l, v: count(X, X.tree_of(l), v)


def count(X, t, v):
    """number of elements equal to v: a function of the contents (compared by the caller's lemma)"""
    u = units(t)
    if u is not None:
        s = 0
        for x in u:
            c = eq(X, x, v)
            s = add(X, s, 1 if isT(c) else 0 if isF(c) else z3.If(c, z3.IntVal(1), z3.IntVal(0)))
        return s
    g = tfilter(X, t, lambda x: eq(X, x, v))
    return X.flatten(strip(g))[0]


@model('dict.keys')
def _keys(X, d):
    dd = X.data(d)
    if isinstance(dd, MapV):
        raise Unsupported('keys of a symbolic map')
    return X.alloc('gen', Cat([X.tmap(dict_distinct(X, dd), lambda kv: kv[0])]))


@model('dict.values')
def _values(X, d):
    return X.alloc('gen', Cat([X.tmap(dict_distinct(X, X.data(d)), lambda kv: kv[1])]))


@model('dict.items')
def _items(X, d):
    h = X.obj(d)
    dd = X.data(d)
    if isinstance(dd, MapV):
        raise Unsupported('items of a symbolic map')
    return X.alloc('gen', dict_distinct(X, dd))


@model('dict.get')
def _get(X, d, k, default=None):
    c = contains(X, d, k)
    return X.split(c, lambda: lib.dict_get(X, d, k), lambda: default)


@model('dict.pop')
def _dpop(X, d, k, *default):
    if default:
        c = contains(X, d, k)

        def yes():
            v = lib.dict_get(X, d, k)
            lib.delitem(X, d, k)
            return v
        return X.split(c, yes, lambda: default[0])
    v = lib.dict_get(X, d, k)
    lib.delitem(X, d, k)
    return v


@model('dict.setdefault')
def _setdefault(X, d, k, v=None):
    c = contains(X, d, k)

    def no():
        lib.setitem(X, d, k, v)
        return v
    return X.split(c, lambda: lib.dict_get(X, d, k), no)


@model('dict.update')
def _update(X, d, o):
    if isinstance(o, Ref) and X.obj(o).kind == 'dict':
        X.setdata(d, Cat([X.data(d), X.data(o)]))
        return
    raise Unsupported('dict.update')


MODELS['dict.clear'] = lambda X, d: X.setdata(d, EMPTY)
MODELS['dict.copy'] = lambda X, d: X.alloc('dict', X.data(d))
MODELS['dict.__contains__'] = lambda X, d, v: contains(X, d, v)
MODELS['dict.__len__'] = lambda X, d: _len(X, d)


@model('set.add')
def _sadd(X, s, v):
    X.setdata(s, Cat([X.data(s), Unit(v)]))


@model('set.update')
def _supdate(X, s, *its):
    for it in its:
        X.setdata(s, Cat([X.data(s), X.iter_tree(it)]))


@model('set.discard')
def _sdiscard(X, s, v):
    X.setdata(s, Cat([tfilter(X, X.data(s), lambda x: Not(eq(X, x, v)))]))


@model('set.remove')
def _sremove(X, s, v):
    X.safety(contains(X, s, v), 'removed element present')
    _sdiscard(X, s, v)


MODELS['set.copy'] = lambda X, s: X.alloc('set', X.data(s))
MODELS['set.union'] = lambda X, s, *o: X.alloc('set', Cat([X.data(s)] + [X.iter_tree(x) for x in o]))
MODELS['set.difference'] = lambda X, s, o: lib.set_op(X, 'Sub', s, _set(X, o))
MODELS['set.intersection'] = lambda X, s, o: lib.set_op(X, 'BitAnd', s, _set(X, o))
MODELS['set.__contains__'] = lambda X, d, v: contains(X, d, v)


# ------------------------------------------------------------------ collections
@model('collections.Counter')
def _counter(X, it=None):
    if it is None:
        t = EMPTY
    else:
        t = X.iter_tree(it)
    return X.alloc('counter', t)


def counter_get(X, c, k):
    return count(X, X.data(c), k)


MODELS['$counter_get'] = counter_get


@model('collections.OrderedDict')
def _od(X, it=None):
    return _dict(X, it)


# ------------------------------------------------------------------ progress bars
@model('progressbar.ProgressBar')
def _pbar(X, *a, **k):
    return PyFn(lambda X_, it: it, 'progressbar')


# ------------------------------------------------------------------ digests
@model('xxhash.xxh64')
def _xxh64(X, v, *a, **k):
    return X.alloc('obj', {'content': v}, Lib('xxh64obj'), meta={'frozen': to_lam(X, v)})


@model('xxh64obj.intdigest')
def _xxhint(X, o):
    return HashV('xxh64', X.obj(o).meta['frozen'])


MODELS['xxh64obj.hexdigest'] = MODELS['xxh64obj.digest'] = _xxhint


@model('xxhash.xxh32')
def _xxh32(X, v, *a, **k):
    return X.alloc('obj', {'content': v}, Lib('xxh32obj'), meta={'frozen': to_lam(X, v)})


@model('xxh32obj.intdigest')
def _xxh32int(X, o):
    return HashV('xxh32', X.obj(o).meta['frozen'])


# ------------------------------------------------------------------ numpy
def newarr(X, lam):
    return X.arr(lam)


def dtype_name(d):
    if d is None:
        return None
    if isinstance(d, Lib):
        return d.name.split('.')[-1].rstrip('0123456789')
    if isinstance(d, str):
        return d.rstrip('0123456789')
    raise Unsupported('dtype')


@model('numpy.array')
def _array(X, v, dtype=None, **k):
    if any(k.get(x) for x in ('order', 'subok', 'ndmin')):
        raise Unsupported('numpy.array option')
    lam = to_lam(X, v if not (isinstance(v, Ref) and X.obj(v).kind == 'gen') else None)
    return cast(X, lam, dtype)


def cast(X, lam, dtype):
    dt = dtype_name(dtype)
    if dt == 'float':
        return mkarr(X, lam.dims, lambda *i: _float(X, lget(X, lam, i))) if lam.dims else _float(X, lam.body)
    if dt in ('int', 'intp'):
        return mkarr(X, lam.dims, lambda *i: _int(X, lget(X, lam, i))) if lam.dims else _int(X, lam.body)
    if dt == 'bool':
        return mkarr(X, lam.dims, lambda *i: truth(X, lget(X, lam, i)))
    if dt not in (None, 'object'):
        raise Unsupported('dtype ' + str(dt))
    if not lam.dims:
        return X.arr(lam) if False else lam.body
    # a copy
    return X.arr(lam)


@model('ndarray.astype')
def _astype(X, a, dtype, **k):
    return cast(X, X.data(a), dtype)


@model('numpy.asarray')
def _asarray(X, v, dtype=None):
    if is_arr(X, v) and dtype is None:
        return v
    return _array(X, v, dtype)


MODELS['numpy.ascontiguousarray'] = MODELS['numpy.asanyarray'] = _asarray
lib.ALIAS.pop('numpy.asarray', None)


@model('numpy.copy')
def _ncopy(X, v):
    return X.arr(to_lam(X, v))


@model('ndarray.copy')
def _copy(X, a, *o):
    return X.arr(X.data(a))


@model('ndarray.tolist')
def _tolist(X, a):
    def rows(lam, dims, pre):
        if not dims:
            return lget(X, lam, pre)
        return X.newlist(Cat([X.seq(dims[0], lambda k: rows(lam, dims[1:], pre + (k,)))])) if not isinstance(dims[0], int) else \
            X.newlist(Cat([Unit(rows(lam, dims[1:], pre + (i,))) for i in range(dims[0])]))
    lam = X.data(a)
    return rows(lam, lam.dims, ())


@model('numpy.around')
def _around(X, v, decimals=0, out=None):
    if is_arr(X, v) or isinstance(v, Ref):
        return arr_map(X, lambda x: around(X, x, decimals), v)
    return around(X, v, decimals)


MODELS['ndarray.round'] = _around


@model('numpy.floor')
def _floor(X, v):
    if is_arr(X, v) or isinstance(v, Ref):
        return arr_map(X, lambda x: _floor(X, x), v)
    if isinstance(v, (int, Fraction)):
        return Fraction(math.floor(v))
    return z3.ToReal(z3.ToInt(real(v)))


@model('numpy.ceil')
def _ceil(X, v):
    return -_floor(X, -v)


@model('numpy.mod')
def _mod(X, a, b):
    return arr_bin(X, lambda x, y: lib.mod(X, x, y), a, b)


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('power', 'Pow')):
    MODELS['numpy.' + _n] = (lambda o: lambda X, a, b: binop(X, o, a, b))(_o)


@model('numpy.vectorize')
def _vectorize(X, f, otypes=None, **k):
    def run(X_, v, *more):
        lam = to_lam(X_, v)
        others = [to_lam(X_, m) for m in more]
        if not lam.dims:
            return X_.call(f, [lam.body])
        # numpy calls the function for every element; an empty array raises
        n = 1
        for d in lam.dims:
            n = mul(X_, n, d)
        X_.safety(cmp(X_, '!=', n, 0), 'vectorize on an empty array')
        return mkarr(X_, lam.dims, lambda *i: X_.call(f, [lget(X_, lam, i)] + [lget(X_, o, i) for o in others]))
    return PyFn(run, 'vectorized')


@model('numpy.lexsort')
def _lexsort(X, keys, **k):
    ks = [to_lam(X, v) for v in (keys if isinstance(keys, tuple) else units(X.tree_of(keys)))]
    n = ks[0].dims[0]
    for l in ks[1:]:
        X.safety(eq(X, l.dims[0], n), 'keys of equal length')
    if isinstance(n, int) and X.opts.get('rows', 0) >= n:
        # concrete keys: the order itself
        from fractions import Fraction
        def value(x):
            x = z3.simplify(zv(x))
            return Fraction(str(x)) if z3.is_rational_value(x) or z3.is_int_value(x) else None
        kv = [[value(lget(X, l, (i,))) for l in reversed(ks)] for i in range(n)]
        if all(x is not None for r in kv for x in r):
            return mkarr(X, (n,), lambda i: sorted(range(n), key=lambda j: (kv[j], j))[i])
    p, q = sort_perm(X, n, lambda i: tuple(lget(X, l, (i,)) for l in reversed(ks)))
    X.sorts.append((n, p, q, ks))
    X.sortbinders = X.binders()
    i = X.const('i')
    return X.arr(Lam((n,), (i,), p(i)))


@model('numpy.argsort')
def _argsort(X, v, axis=-1, kind=None):
    raise Unsupported('argsort (unstable)')


@model('numpy.transpose')
def _transpose(X, a, axes=None):
    lam = to_lam(X, a)
    if axes is None:
        ax = tuple(reversed(range(len(lam.dims))))
    else:
        ax = axes if isinstance(axes, tuple) else tuple(units(X.tree_of(axes)))
    dims = [lam.dims[i] for i in ax]

    def el(*i):
        src = [None] * len(ax)
        for o, s in enumerate(ax):
            src[s] = i[o]
        return lget(X, lam, src)
    return mkarr(X, dims, el)


@model('ndarray.transpose')
def _mtrans(X, a, *axes):
    return _transpose(X, a, (axes[0] if len(axes) == 1 and isinstance(axes[0], tuple) else axes) if axes else None)


@model('numpy.matmul')
def _matmul(X, a, b):
    return lib.matmul(X, a, b)


MODELS['ndarray.dot'] = lambda X, a, b: lib.matmul(X, a, b)


@model('numpy.linalg.inv')
def _inv(X, a):
    lam = to_lam(X, a)
    n = lam.dims[0]
    if not (isinstance(n, int) and n in (2, 3)):
        raise Unsupported('inverse of a matrix of symbolic size')
    m = lambda i, j: lget(X, lam, (i, j))
    if n == 3 and all(is_conc(m(i, j)) for i in range(3) for j in range(3)):
        d = lib.det3(X, lam)
        if d == 0:
            raise PyRaise('LinAlgError: singular matrix')
        d = Fraction(d)
        cof = lambda i, j: (m((j + 1) % 3, (i + 1) % 3) * m((j + 2) % 3, (i + 2) % 3) -
                            m((j + 1) % 3, (i + 2) % 3) * m((j + 2) % 3, (i + 1) % 3))
        return mkarr(X, (3, 3), lambda i, j: Fraction(cof(i, j)) / d)
    # upper triangular: explicit inverse (divisions by the diagonal only)
    tri = all(isinstance(m(i, j), (int, Fraction)) and m(i, j) == 0 for i in range(n) for j in range(i))
    if n == 3 and tri:
        a_, b_, d_, c_, e_, f_ = m(0, 0), m(0, 1), m(0, 2), m(1, 1), m(1, 2), m(2, 2)
        X.safety(And(cmp(X, '!=', a_, 0), cmp(X, '!=', c_, 0), cmp(X, '!=', f_, 0)), 'matrix is invertible')
        hook = X.hooks.get('trinv')
        if hook is not None:
            return hook(X, lam, a_, b_, d_, c_, e_, f_)
    if n == 3:
        X.safety(cmp(X, '!=', lib.det3(X, lam), 0), 'matrix is invertible')
    # fresh matrix with M Inv = Inv M = 1
    key = ('inv', tuple(str(m(i, j)) for i in range(n) for j in range(n)))
    got = X.flatcache.get(key)
    if got is None:
        w = [[X.fresh('inv', R) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                one = z3.RealVal(1 if i == j else 0)
                X.define(sum([real(m(i, q)) * w[q][j] for q in range(n)], z3.RealVal(0)) == one)
                X.define(sum([w[i][q] * real(m(q, j)) for q in range(n)], z3.RealVal(0)) == one)
        X.flatcache[key] = got = w
        X.invs.append((lam, w))
    w = got
    return mkarr(X, (n, n), lambda i, j: w[i][j] if isinstance(i, int) and isinstance(j, int) else _sel(X, w, i, j))


def _sel(X, w, i, j):
    raise Unsupported('symbolic index into an inverse')


@model('numpy.linalg.det')
def _det(X, a):
    lam = to_lam(X, a)
    if lam.dims[0] == 3:
        return lib.det3(X, lam)
    raise Unsupported('det')


@model('numpy.linalg.norm')
def _norm(X, v, axis=None):
    lam = to_lam(X, v)
    if axis is None and len(lam.dims) == 1 and isinstance(lam.dims[0], int):
        s = 0
        for q in range(lam.dims[0]):
            x = lget(X, lam, (q,))
            s = add(X, s, mul(X, x, x))
        return lib.sqrtR(real(s))
    if axis is not None and len(lam.dims) == 2 and isinstance(lam.dims[1], int) and axis in (1, -1):
        def el(i):
            s = 0
            for q in range(lam.dims[1]):
                x = lget(X, lam, (i, q))
                s = add(X, s, mul(X, x, x))
            return lib.sqrtR(real(s))
        return mkarr(X, (lam.dims[0],), el)
    raise Unsupported('norm')


@model('numpy.sqrt')
def _sqrt(X, v):
    if is_arr(X, v):
        return arr_map(X, lambda x: lib.sqrt(X, x), v)
    return lib.sqrt(X, v)


def axis_reduce(X, lam, axis, f):
    """reduce over one axis of concrete length"""
    if axis < 0:
        axis += len(lam.dims)
    d = lam.dims[axis]
    if not isinstance(d, int):
        return None
    dims = lam.dims[:axis] + lam.dims[axis + 1:]

    def el(*i):
        vs = [lget(X, lam, tuple(i[:axis]) + (q,) + tuple(i[axis:])) for q in range(d)]
        return f(vs)
    return mkarr(X, dims, el) if dims else el()


def allel(X, lam, f, conj):
    """quantify f over all elements"""
    if all(isinstance(d, int) for d in lam.dims):
        n = 1
        for d in lam.dims:
            n *= d
        if n <= 64:
            r = [f(lget(X, lam, i)) for i in itertools.product(*[range(d) for d in lam.dims])]
            return And(r) if conj else Or(r)
    ps = [X.const('a') for _ in lam.dims]
    for p, d in zip(ps, lam.dims):
        X.push(p, [p >= 0, p < zv(d)])
    try:
        e = f(X.lam_get(lam, ps))
    finally:
        for p in ps:
            X.pop()
    dom = And([And(p >= 0, p < zv(d)) for p, d in zip(ps, lam.dims)])
    return All(ps, Implies(dom, e)) if conj else Ex(ps, And(dom, e))


@model('numpy.all')
def _npall(X, v, axis=None):
    lam = to_lam(X, v)
    if axis is None:
        return allel(X, lam, lambda x: truth(X, x), True) if lam.dims else truth(X, lam.body)
    r = axis_reduce(X, lam, axis, lambda vs: And([truth(X, x) for x in vs]))
    if r is None:
        raise Unsupported('all over a symbolic axis')
    return r


@model('numpy.any')
def _npany(X, v, axis=None):
    lam = to_lam(X, v)
    if axis is None:
        return allel(X, lam, lambda x: truth(X, x), False) if lam.dims else truth(X, lam.body)
    r = axis_reduce(X, lam, axis, lambda vs: Or([truth(X, x) for x in vs]))
    if r is None:
        raise Unsupported('any over a symbolic axis')
    return r


MODELS['ndarray.all'], MODELS['ndarray.any'] = _npall, _npany


@model('numpy.sum')
def _npsum(X, v, axis=None):
    lam = to_lam(X, v)
    if axis is None:
        if all(isinstance(d, int) for d in lam.dims):
            s = 0
            for i in itertools.product(*[range(d) for d in lam.dims]):
                s = add(X, s, num(lget(X, lam, i)))
            return s
        raise Unsupported('sum over a symbolic array')

    def f(vs):
        s = 0
        for x in vs:
            s = add(X, s, num(x))
        return s
    r = axis_reduce(X, lam, axis, f)
    if r is None:
        raise Unsupported('sum over a symbolic axis')
    return r


MODELS['ndarray.sum'] = _npsum


@model('ndarray.prod')
def _prod(X, a, axis=None):
    lam = to_lam(X, a)
    if len(lam.dims) == 1 and isinstance(lam.dims[0], int):
        p = 1
        for q in range(lam.dims[0]):
            p = mul(X, p, lget(X, lam, (q,)))
        return p
    raise Unsupported('prod')


MODELS['numpy.prod'] = MODELS['numpy.product'] = _prod


@model('ndarray.diagonal')
def _diag(X, a):
    lam = to_lam(X, a)
    return mkarr(X, (lam.dims[0],), lambda i: lget(X, lam, (i, i)))


@model('numpy.diag')
def _ndiag(X, a):
    lam = to_lam(X, a)
    if len(lam.dims) == 2:
        return _diag(X, a)
    n = lam.dims[0]
    return mkarr(X, (n, n), lambda i, j: lget(X, lam, (i,)) if i == j else 0)


MODELS['numpy.diagonal'] = _diag


def _amax_(op):
    def f(X, v, axis=None):
        lam = to_lam(X, v)
        if axis is not None:
            raise Unsupported('amax axis')
        if all(isinstance(d, int) for d in lam.dims):
            vs = [lget(X, lam, i) for i in itertools.product(*[range(d) for d in lam.dims])]
            if not vs:
                raise PyRaise('ValueError: zero-size array')
            b = vs[0]
            for x in vs[1:]:
                b = merge(cmp(X, op, x, b), x, b)
            return b
        if len(lam.dims) == 1:
            n = zv(lam.dims[0])
            X.safety(n > 0, 'extremum of an empty array')
            m = X.fresh('argx')
            X.define(Implies(n > 0, And(m >= 0, m < n)))
            j = X.const('j')
            X.push(j, [j >= 0, j < n])
            f_ = Not(cmp(X, op, lget(X, lam, (j,)), lget(X, lam, (m,))))
            X.pop()
            X.define(All([j], Implies(And(j >= 0, j < n), f_)))
            return lget(X, lam, (m,))
        raise Unsupported('extremum')
    return f


MODELS['numpy.amax'] = MODELS['ndarray.max'] = _amax_('>')
MODELS['numpy.amin'] = MODELS['ndarray.min'] = _amax_('<')


@model('numpy.argmin')
def _argmin(X, v, axis=None, op='<'):
    lam = to_lam(X, v)

    def arg(n, get):
        m = X.fresh('argm')
        j = X.const('j')
        X.safety(cmp(X, '>', n, 0), 'argmin of an empty sequence')
        X.define(Implies(zv(n) > 0, And(m >= 0, m < zv(n))))
        X.push(j, [j >= 0, j < zv(n)])
        x, y = get(j), get(m)
        f = And(Not(cmp(X, op, x, y)), Implies(j < m, cmp(X, op, y, x)))
        X.pop()
        X.define(All([j], Implies(And(j >= 0, j < zv(n)), f)))
        return m
    if len(lam.dims) == 1 and axis in (None, 0, -1):
        return arg(lam.dims[0], lambda j: lget(X, lam, (j,)))
    if len(lam.dims) == 2 and axis in (1, -1):
        return mkarr(X, (lam.dims[0],), lambda i: arg(lam.dims[1], lambda j: lget(X, lam, (i, j))))
    if len(lam.dims) == 2 and axis == 0:
        return mkarr(X, (lam.dims[1],), lambda i: arg(lam.dims[0], lambda j: lget(X, lam, (j, i))))
    raise Unsupported('argmin')


MODELS['numpy.argmax'] = lambda X, v, axis=None: _argmin(X, v, axis, '>')
MODELS['ndarray.argmin'] = _argmin
MODELS['ndarray.argmax'] = MODELS['numpy.argmax']


def _pick(vals, i):
    v = vals[-1]
    for q in reversed(range(len(vals) - 1)):
        v = merge(zv(i) == q, vals[q], v)
    return v


@model('numpy.where')
def _where(X, c, a=None, b=None):
    lam = to_lam(X, c)
    if a is not None:
        t = arr_bin(X, lambda x, y: (x, y), a, b) if False else None
        la, lb = to_lam(X, a), to_lam(X, b)
        return mkarr(X, lam.dims, lambda *i: merge(truth(X, lget(X, lam, i)), lget(X, la, i[len(i) - len(la.dims):]),
                                                  lget(X, lb, i[len(i) - len(lb.dims):])))
    if len(lam.dims) != 1:
        raise Unsupported('where on a matrix')
    if isinstance(lam.dims[0], int) and lam.dims[0] <= 256:
        cs = [z3.simplify(fb(truth(X, lget(X, lam, (i,))))) for i in range(lam.dims[0])]
        if all(isT(c) or isF(c) for c in cs):
            hit = [i for i, c in enumerate(cs) if isT(c)]
            return (mkarr(X, (len(hit),), lambda i: hit[i] if isinstance(i, int) else _pick(hit, i)),)
    bl = Lam(lam.dims, lam.ps, truth(X, lam.body)) if not is_bool(lam.body) else lam
    t = lib.mask_tree(X, bl)
    L, at = X.flatten(t)[:2]
    i = X.const('i')
    return (X.arr(Lam((L,), (i,), at(i))),)


MODELS['numpy.nonzero'] = MODELS['ndarray.nonzero'] = _where


@model('numpy.flatnonzero')
def _fnz(X, c):
    return _where(X, c)[0]


@model('numpy.argwhere')
def _argwhere(X, c):
    lam = to_lam(X, c)
    t = X.seq(lam.dims[0], lambda k: k)

    def nest(i, acc):
        if i == len(lam.dims):
            return guard(truth(X, lget(X, lam, acc)), Unit(tuple(acc)))
        k = X.const('k')
        X.push(k, [k >= 0, k < zv(lam.dims[i])])
        b = nest(i + 1, acc + [k])
        X.pop()
        return For(k, zv(lam.dims[i]), b)
    tr = nest(0, [])
    L, at = X.flatten(tr)[:2]
    k = X.const('i')
    X.push(k, [k >= 0, k < L])
    v = at(k)
    X.pop()
    return mkarr(X, (L, len(lam.dims)), lambda r, q: sub(v[q], [(k, zv(r))]))


@model('numpy.repeat')
def _nprepeat(X, a, n, axis=None):
    lam = to_lam(X, a)
    if len(lam.dims) != 1:
        raise Unsupported('repeat of a matrix')
    if isinstance(n, int) and isinstance(lam.dims[0], int):
        return mkarr(X, (lam.dims[0] * n,), lambda r: lget(X, lam, (r // n,)) if isinstance(r, int)
                     else X.lam_get(lam, (r / n,)))
    nz = zv(n)
    return mkarr(X, (mul(X, lam.dims[0], n),), lambda r: lget(X, lam, (lib.PQ(zv(r), nz),)))


@model('numpy.concatenate')
def _concat(X, seq, axis=0):
    u = list(seq) if isinstance(seq, tuple) else None
    t = strip(X.iter_tree(seq)) if u is None else None
    if u is None:
        u = units(t)
    if u is not None:
        ls = [to_lam(X, v) for v in u]
        if not isinstance(axis, int):
            raise Unsupported('concatenate axis')
        if axis < 0:
            axis += len(ls[0].dims)
        for l in ls[1:]:
            for q, (a, b) in enumerate(zip(l.dims, ls[0].dims)):
                if q != axis:
                    X.safety(eq(X, a, b), 'shapes agree')
        tot = 0
        offs = []
        for l in ls:
            offs.append(tot)
            tot = add(X, tot, l.dims[axis])
        dims = ls[0].dims[:axis] + (tot,) + ls[0].dims[axis + 1:]

        def el(*i):
            v = None
            for l, o in reversed(list(zip(ls, offs))):
                j = tuple(i[:axis]) + (minus(X, i[axis], o),) + tuple(i[axis + 1:])
                if v is None:
                    v = lget(X, l, j)
                else:
                    c = cmp(X, '<', i[axis], add(X, o, l.dims[axis]))
                    v = merge(c, lget(X, l, j), v)
            return v
        return mkarr(X, dims, el)
    if axis != 0:
        raise Unsupported('concatenate of a symbolic list')
    # equal-height blocks: row r of the result is row PR(r) of block PQ(r)
    n = X.tlen(t)
    k = X.const('k')
    X.push(k, [k >= 0, k < zv(n)])
    e = to_lam(X, X.at(t, k))
    X.pop()
    if any(is_z(d) and occurs(k, d) for d in e.dims):
        raise Unsupported('blocks of different height')
    X.safety(cmp(X, '>', n, 0), 'concatenate needs an array')
    h = e.dims[0]
    hz = zv(h)
    rows = mul(X, n, h)
    X.concats.append((n, h, rows))

    def el(r, *rest):
        m = [(k, lib.PQ(zv(r), hz)), (e.ps[0], lib.PR(zv(r), hz))] + list(zip(e.ps[1:], [zv(x) for x in rest]))
        return sub(e.body, m)
    return mkarr(X, (rows,) + e.dims[1:], el)


MODELS['numpy.vstack'] = lambda X, s: _concat(X, s, 0)


@model('numpy.array_equal')
def _array_equal(X, a, b):
    la, lb = to_lam(X, a), to_lam(X, b)
    return lib.content_eq(X, la, lb)


def isclose(X, x, y, rtol, atol):
    d = minus(X, x, y)
    ad = _abs(X, real(d))
    ay = _abs(X, real(y))
    return cmp(X, '<=', ad, add(X, atol, mul(X, rtol, ay)))


@model('numpy.allclose')
def _allclose(X, a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), **k):
    r = arr_bin(X, lambda x, y: isclose(X, x, y, rtol, atol), a, b)
    return _npall(X, r) if is_arr(X, r) else truth(X, r)


def shape_arg(s):
    if isinstance(s, tuple):
        return s
    return (s,)


def to_shape(X, s):
    if isinstance(s, tuple):
        return s
    if isinstance(s, Ref):
        return tuple(units(X.tree_of(s)))
    return (s,)


@model('numpy.zeros')
def _zeros(X, s, dtype=None):
    z = 0 if dtype_name(dtype) == 'int' else Fraction(0)
    return mkarr(X, to_shape(X, s), lambda *i: z)


@model('numpy.ones')
def _ones(X, s, dtype=None):
    z = 1 if dtype_name(dtype) == 'int' else Fraction(1)
    return mkarr(X, to_shape(X, s), lambda *i: z)


@model('numpy.full')
def _full(X, s, v, dtype=None):
    return mkarr(X, to_shape(X, s), lambda *i: v)


MODELS['numpy.zeros_like'] = lambda X, a: mkarr(X, to_lam(X, a).dims, lambda *i: 0)


@model('numpy.eye')
def _eye(X, n, dtype=None):
    o, z = (1, 0) if dtype_name(dtype) == 'int' else (Fraction(1), Fraction(0))
    return mkarr(X, (n, n), lambda i, j: o if i == j else z)


MODELS['numpy.identity'] = _eye


@model('numpy.arange')
def _arange(X, n, b=None):
    if b is not None:
        raise Unsupported('arange')
    i = X.const('i')
    if isinstance(n, int):
        return mkarr(X, (n,), lambda i: i)
    return X.arr(Lam((n,), (i,), i))


@model('numpy.shape')
def _shape(X, a):
    return tuple(to_lam(X, a).dims)


def ravel(X, lam):
    if len(lam.dims) == 1:
        return lam
    if all(isinstance(d, int) for d in lam.dims):
        idx = list(itertools.product(*[range(d) for d in lam.dims]))
        return mklam(X, (len(idx),), lambda q: lget(X, lam, idx[q])) if len(idx) <= 12 else _ravel_sym(X, lam)
    return _ravel_sym(X, lam)


def _ravel_sym(X, lam):
    n = 1
    for d in lam.dims:
        n = mul(X, n, d)
    p = X.const('i')
    idx = unravel(X, p, lam.dims)
    return Lam((n,), (p,), X.lam_get(lam, idx))


def unravel(X, p, dims):
    """multi-index of flat index p (row-major)"""
    if len(dims) == 1:
        return [p]
    last = zv(dims[-1])
    return unravel(X, lib.PQ(zv(p), last), dims[:-1]) + [lib.PR(zv(p), last)]


lib.ravel = ravel
MODELS['numpy.ravel'] = MODELS['ndarray.ravel'] = MODELS['ndarray.flatten'] = lambda X, a, *o: X.arr(ravel(X, to_lam(X, a)))


@model('ndarray.reshape')
def _reshape(X, a, *shape):
    if len(shape) == 1 and not is_num(shape[0]):
        shape = to_shape(X, shape[0])
    lam = to_lam(X, a)
    # adding / removing axes of length one
    if [d for d in shape if not (isinstance(d, int) and d == 1)] and \
            all(same(zv(x), zv(y)) for x, y in zip([d for d in shape if not (isinstance(d, int) and d == 1)],
                                                   [d for d in lam.dims if not (isinstance(d, int) and d == 1)])) and \
            len([d for d in shape if not (isinstance(d, int) and d == 1)]) == len([d for d in lam.dims if not (isinstance(d, int) and d == 1)]):
        def el(*i):
            big = [x for x, d in zip(i, shape) if not (isinstance(d, int) and d == 1)]
            out = []
            for d in lam.dims:
                out.append(0 if isinstance(d, int) and d == 1 else big.pop(0))
            return lget(X, lam, out)
        return mkarr(X, shape, el)
    if any(isinstance(d, int) and d < 0 for d in shape):
        raise Unsupported('reshape -1')
    fl = ravel(X, lam)
    n = 1
    for d in shape:
        n = mul(X, n, d)
    X.safety(eq(X, n, fl.dims[0]), 'reshape keeps the number of elements')

    def el(*i):
        if all(isinstance(x, int) for x in i) and all(isinstance(d, int) for d in shape):
            p = 0
            for x, d in zip(i, shape):
                p = p * d + x
            return lget(X, fl, (p,))
        p = i[0]
        for x, d in zip(i[1:], shape[1:]):
            p = lib.MK(zv(p), zv(x), zv(d))
        return X.lam_get(fl, (p,))
    return mkarr(X, shape, el)


MODELS['numpy.reshape'] = lambda X, a, s: _reshape(X, a, s)


@model('ndarray.tostring')
def _tostring(X, a):
    return HashV('tobytes', X.data(a))


MODELS['ndarray.tobytes'] = _tostring


@model('numpy.stack')
def _stack(X, s, axis=0):
    if axis != 0:
        raise Unsupported('stack axis')
    return X.arr(to_lam(X, s))


@model('numpy.tile')
def _tile(X, a, n):
    lam = to_lam(X, a)
    if len(lam.dims) != 1 or isinstance(n, tuple):
        raise Unsupported('tile')
    h = lam.dims[0]
    if isinstance(h, int) and isinstance(n, int):
        return mkarr(X, (h * n,), lambda r: lget(X, lam, (r % h,)) if isinstance(r, int) else X.lam_get(lam, (r % h,)))
    return mkarr(X, (mul(X, n, h),), lambda r: lget(X, lam, (lib.PR(zv(r), zv(h)),)))


@model('numpy.unique')
def _unique(X, *a, **k):
    raise Unsupported('unique')


# ------------------------------------------------------------------ scipy
def sqdist(X, p, q):
    lp, lq = to_lam(X, p), to_lam(X, q)
    s = 0
    for i in range(lp.dims[0]):
        d = minus(X, lget(X, lp, (i,)), lget(X, lq, (i,)))
        s = add(X, s, mul(X, d, d))
    return s


@model('scipy.spatial.distance.euclidean')
def _euclid(X, p, q):
    lp = to_lam(X, p)
    if not isinstance(lp.dims[0], int):
        raise Unsupported('euclidean in unknown dimension')
    return lib.sqrtR(real(sqdist(X, p, q)))


@model('scipy.spatial.distance.pdist')
def _pdist(X, a, metric=None):
    """distances of all pairs i < j"""
    if metric not in (None, 'euclidean'):
        raise Unsupported('pdist metric')
    lam = to_lam(X, a)
    n, d = lam.dims
    if not isinstance(d, int):
        raise Unsupported('pdist dimension')
    i, j = X.const('i'), X.const('j')
    nz = zv(n)
    X.push(i, [i >= 0, i < nz])
    X.push(j, [j > i, j < nz])
    s = 0
    for q in range(d):
        w = minus(X, lget(X, lam, (i, q)), lget(X, lam, (j, q)))
        s = add(X, s, mul(X, w, w))
    dist = lib.sqrtR(real(s))
    X.pop()
    X.pop()
    k = X.const('k')
    tr = For(i, nz, For(k, nz - i - 1, Unit(sub(dist, [(j, i + 1 + k)]))))
    L, at = X.flatten(tr)[:2]
    r = X.const('r')
    X.pdists.append((lam, i, j, dist, L))
    return X.arr(Lam((L,), (r,), at(r)))


@model('scipy.spatial.cKDTree')
def _kdtree(X, pts, leafsize=None):
    lam = to_lam(X, pts)
    if len(lam.dims) != 2 or not isinstance(lam.dims[1], int):
        raise Unsupported('a tree of points in unknown dimension')
    X.safety(cmp(X, '>=', lam.dims[0], 1), 'a tree of at least one point')
    return X.alloc('obj', {'data': X.arr(lam)}, lib.Lib('cKDTree'))


MODELS['scipy.spatial.KDTree'] = _kdtree


@model('cKDTree.query_ball_point')
def _ball(X, t, x, r):
    lam = to_lam(X, X.getfield(t, 'data'))
    c = to_lam(X, x)
    if len(c.dims) != 1:
        raise Unsupported('ball query for many points')
    X.safety(eq(X, c.dims[0], lam.dims[1]), 'dimension of the query')
    i = X.const('i')
    n = zv(lam.dims[0])
    X.push(i, [i >= 0, i < n])
    s = 0
    for q in range(lam.dims[1]):
        d = minus(X, lget(X, lam, (i, q)), lget(X, c, (q,)))
        s = add(X, s, mul(X, d, d))
    X.pop()
    r = real(r)
    return X.newlist(For(i, n, Guard(And(r >= 0, real(s) <= r * r), Unit(i))))


# ------------------------------------------------------------------ random
@model('random.randint')
def _randint(X, a, b):
    r = X.fresh('randint')
    X.safety(cmp(X, '<=', a, b), 'randint of an empty range')
    X.define(Implies(zv(a) <= zv(b), And(r >= zv(a), r <= zv(b))))
    return r


@model('random.randrange')
def _randrange(X, a, b=None):
    if b is None:
        a, b = 0, a
    r = X.fresh('randrange')
    X.safety(cmp(X, '<', a, b), 'randrange of an empty range')
    X.define(Implies(zv(a) < zv(b), And(r >= zv(a), r < zv(b))))
    return r


@model('random.choice')
def _choice(X, s):
    t = strip(X.tree_of(s))
    n = X.tlen(t)
    X.safety(cmp(X, '>', n, 0), 'choice from an empty sequence')
    r = X.fresh('choice')
    X.define(Implies(zv(n) > 0, And(r >= 0, r < zv(n))))
    return X.at(t, r)


@model('numpy.random.randn')
def _randn(X, *dims):
    return mkarr(X, dims, lambda *i: X.fresh('randn', R))


@model('copy.copy')
def _shallow(X, v):
    if is_conc(v) or is_z(v) or isinstance(v, (Func, ClassV, Lib, PyFn, HashV, StrV, tuple)):
        return v
    if isinstance(v, IteV):
        return merge(v.c, _shallow(X, v.a), _shallow(X, v.b))
    if isinstance(v, Ref):
        h = X.obj(v)
        if h.kind == 'arr':
            return X.arr(X.data(v))
        if h.kind in ('list', 'set'):
            return X.newlist(X.data(v), h.kind)
        if h.kind == 'obj' and not (h.meta and 'views' in h.meta):
            return X.alloc('obj', dict((n, X.getfield(v, n)) for n in h.data), h.cls)
    raise Unsupported('copy of %r' % (v,))


@model('copy.deepcopy')
def _deepcopy(X, v):
    return deepcopy(X, v, {})


def deepcopy(X, v, memo):
    if is_conc(v) or is_z(v) or isinstance(v, (Func, ClassV, Lib, PyFn, HashV, StrV)):
        return v
    if isinstance(v, tuple):
        return tuple(deepcopy(X, x, memo) for x in v)
    if isinstance(v, IteV):
        return merge(v.c, deepcopy(X, v.a, memo), deepcopy(X, v.b, memo))
    if isinstance(v, Ref):
        if not v.idx and v.oid in memo:
            return memo[v.oid]
        h = X.obj(v)
        if h.kind == 'arr':
            return X.arr(X.data(v))
        if h.kind == 'list':
            return X.newlist(X.tmap(X.data(v), lambda x: deepcopy(X, x, memo)))
        if h.kind == 'obj':
            if h.meta and 'views' in h.meta:
                raise Unsupported('deepcopy of a model object')
            names = list(h.data)
            vals = dict((n, X.getfield(v, n)) for n in names)
            r = X.alloc('obj', {}, h.cls)
            memo[v.oid] = r
            X.setdata(r, dict((n, deepcopy(X, vals[n], memo)) for n in names))
            return r
    raise Unsupported('deepcopy of %r' % (v,))


# ------------------------------------------------------------------ mixins of the collection ABCs
@model('collections.MutableSet.__ior__')
def _ior(X, s, it):
    def body(v):
        X.call(X.getattr(s, 'add'), [v])
        return X.norm()
    outs = X.run_tree(X.iter_tree(it), body)
    X.st = [o for o in outs if o[0] == 'normal'][0][3]
    return s


MODELS['collections.abc.MutableSet.__ior__'] = _ior
