"""Values of the verifier.

Concrete Python values (None, bool, int, str, Fraction) stand for themselves (a float literal is the
exact decimal it spells), tuples are Python tuples of values, symbolic scalars are z3 terms
(Int, Real, Bool, uninterpreted sorts); everything mutable is a Ref into the heap.
"""
import itertools
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Item = z3.DeclareSort('Item')


class Unsupported(Exception):
    """the code left the subset the verifier understands"""


class PyRaise(Exception):
    """the code raises here for certain"""
    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


class Ref(object):
    """reference to heap object oid; idx instantiates the binders it was allocated under"""
    __slots__ = ('oid', 'idx')

    def __init__(self, oid, idx=()):
        self.oid, self.idx = oid, tuple(idx)

    def __repr__(self):
        return 'Ref(%s%s)' % (self.oid, list(self.idx) if self.idx else '')


class IteV(object):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'IteV(%s,%s,%s)' % (self.c, self.a, self.b)


class HashV(object):
    """an integer digest, known through the content it digests"""
    __slots__ = ('kind', 'content')

    def __init__(self, kind, content):
        self.kind, self.content = kind, content


class Old(object):
    """value of a location before the current loop iteration (not yet read)"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Old%s' % (self.loc,)


class NeedCarry(Exception):
    def __init__(self, loc):
        Exception.__init__(self, 'carried %s' % (loc,))
        self.loc = loc


class Func(object):
    """a function of the code under verification"""
    def __init__(self, node, mod, qual, frame=None, cls=None, self_=None, defaults=None, kind=None):
        self.node, self.mod, self.qual, self.frame, self.cls, self.self_ = node, mod, qual, frame, cls, self_
        self.defaults = defaults or {}
        self.kind = kind

    def bind(self, s):
        f = Func(self.node, self.mod, self.qual, self.frame, self.cls, s, self.defaults, self.kind)
        return f

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Lib(object):
    """a library name (trusted model), possibly bound to a receiver"""
    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Lib(%s)' % self.name


class PyFn(object):
    """a function given by the verifier itself (model, contract stub)"""
    def __init__(self, fn, name='<model>'):
        self.fn, self.name = fn, name


class ClassV(object):
    def __init__(self, node, mod, qual, bases):
        self.node, self.mod, self.qual, self.bases = node, mod, qual, bases
        self.name = node.name
        self.members = {}

    def __repr__(self):
        return 'Class(%s)' % self.qual

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += [c for c in b.mro() if c not in out]
            else:
                out.append(b)
        return out


class ModV(object):
    def __init__(self, name):
        self.name = name


class Lam(object):
    """array contents: dims, bound index constants, element"""
    __slots__ = ('dims', 'ps', 'body', 'hist', 'log')

    def __init__(self, dims, ps, body, hist=None, log=()):
        self.dims, self.ps, self.body, self.hist, self.log = tuple(dims), tuple(ps), body, hist, tuple(log)


class ConcLam(Lam):
    """a Lam with concrete first dimension that remembers its rows (only for exact element access)"""
    __slots__ = ('rows',)

    def __init__(self, dims, ps, body, rows):
        Lam.__init__(self, dims, ps, body)
        self.rows = rows


# --- sequences as comprehension trees
class Tree(object):
    pass


class Unit(Tree):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Guard(Tree):
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t


class For(Tree):
    """t for k in range(n) (k a bound constant)"""
    __slots__ = ('k', 'n', 't')

    def __init__(self, k, n, t):
        self.k, self.n, self.t = k, n, t


class SetFor(Tree):
    """t for every k with p (finitely many, each once, in no particular order)"""
    __slots__ = ('ks', 'p', 't')

    def __init__(self, ks, p, t):
        self.ks, self.p, self.t = tuple(ks), p, t


class Cat(Tree):
    __slots__ = ('ts',)

    def __init__(self, ts):
        out = []
        for t in ts:
            if isinstance(t, Cat):
                out.extend(t.ts)
            else:
                out.append(t)
        self.ts = tuple(out)


class Hist(Tree):
    """what a collection held when the current iteration of loop `lid` began"""
    __slots__ = ('lid', 'loc', 'base', 'k', 'rec')

    def __init__(self, lid, loc, base, k, rec):
        self.lid, self.loc, self.base, self.k, self.rec = lid, loc, base, k, rec


EMPTY = Cat(())


class MapV(object):
    """dictionary with scalar keys as a function: dom(x), val(x), number of keys"""
    __slots__ = ('p', 'dom', 'val', 'size')

    def __init__(self, p, dom, val, size):
        self.p, self.dom, self.val, self.size = p, dom, val, size


class StrV(object):
    """symbolic string: a tuple of parts, see strs.py"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)


class HObj(object):
    """heap object: kind in obj list tuple set dict arr; binders it was allocated under"""
    __slots__ = ('kind', 'binders', 'cls', 'data', 'meta')

    def __init__(self, kind, binders, cls, data, meta=None):
        self.kind, self.binders, self.cls, self.data, self.meta = kind, tuple(binders), cls, data, meta

    def with_(self, data):
        return HObj(self.kind, self.binders, self.cls, data, self.meta)


def is_z(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    if isinstance(v, bool):
        return True
    if isinstance(v, (int, Fraction)):
        return True
    return is_z(v) and (v.sort() == I or v.sort() == R or v.sort() == B)


def is_bool(v):
    return isinstance(v, bool) or (is_z(v) and v.sort() == B)


def is_conc(v):
    return isinstance(v, (bool, int, Fraction, str, bytes)) or v is None


def zv(v):
    """scalar -> z3 term"""
    if is_z(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported('not a scalar: %r' % (v,))


def num(v):
    """bool -> int where used as a number"""
    if isinstance(v, bool):
        return int(v)
    if is_z(v) and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def real(v):
    v = zv(num(v))
    if v.sort() == I:
        return z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
    return v


def pair(a, b):
    """two numbers with a common sort"""
    a, b = zv(num(a)), zv(num(b))
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a, b


def isT(f):
    return f is True or (is_z(f) and z3.is_true(f))


def isF(f):
    return f is False or (is_z(f) and z3.is_false(f))


def fb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def And(*fs):
    fs = list(itertools.chain(*[f if isinstance(f, (list, tuple)) else [f] for f in fs]))
    if any(isF(f) for f in fs):
        return False
    fs = [fb(f) for f in fs if not isT(f)]
    if not fs:
        return True
    return fs[0] if len(fs) == 1 else z3.And(*fs)


def Or(*fs):
    fs = list(itertools.chain(*[f if isinstance(f, (list, tuple)) else [f] for f in fs]))
    if any(isT(f) for f in fs):
        return True
    fs = [fb(f) for f in fs if not isF(f)]
    if not fs:
        return False
    return fs[0] if len(fs) == 1 else z3.Or(*fs)


def Not(f):
    if isT(f):
        return False
    if isF(f):
        return True
    if z3.is_not(f):
        return f.arg(0)
    return z3.Not(f)


def Implies(a, b):
    if isT(a):
        return b
    if isF(a) or isT(b):
        return True
    if isF(b):
        return Not(a)
    return z3.Implies(a, fb(b))


def Iff(a, b):
    if is_conc(a) and is_conc(b):
        return bool(a) == bool(b)
    if isT(a):
        return b
    if isT(b):
        return a
    return fb(a) == fb(b)


def Ex(ks, f):
    if isinstance(f, bool) or isT(f) or isF(f):
        # all our domains are guarded inside f
        return f
    ks = [k for k in ks if occurs(k, f)]
    # one-point rule
    done = False
    while ks and not done:
        done = True
        cs = []
        _conj(f, cs)
        for c in cs:
            if not z3.is_eq(c):
                continue
            l, r = c.arg(0), c.arg(1)
            for a, b in ((l, r), (r, l)):
                hit = [k for k in ks if k.eq(a)]
                if hit and not occurs(a, b):
                    f = And([z3.substitute(x, (a, b)) for x in cs if x is not c])
                    if isinstance(f, bool):
                        return f
                    ks = [k for k in ks if occurs(k, f)]
                    done = False
                    break
            if not done:
                break
    if not ks:
        return f
    return z3.Exists(ks, f)


def _conj(f, out):
    if z3.is_and(f):
        for c in f.children():
            _conj(c, out)
    else:
        out.append(f)


def All(ks, f, patterns=()):
    if isinstance(f, bool):
        return f
    ks = [k for k in ks if occurs(k, f)]
    if not ks:
        return f
    return z3.ForAll(ks, f, patterns=list(patterns)) if patterns else z3.ForAll(ks, f)


_occ_cache = {}


def consts_of(f):
    """ids of the uninterpreted constants of a term"""
    key = f.get_id()
    if key in _occ_cache and _occ_cache[key][0].eq(f):
        return _occ_cache[key][1]
    out, seen, todo = set(), set(), [f]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            todo.append(e.body())
        elif z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
            else:
                todo.extend(e.children())
    _occ_cache[key] = (f, out)
    return out


def occurs(k, f):
    return is_z(f) and k.decl().name() in consts_of(f)


def sub(v, m):
    """substitute constants in a value; m: list of (const, term)"""
    if not m or is_conc(v):
        return v
    if is_z(v):
        m2 = [(a, zv(b)) for a, b in m]
        return z3.substitute(v, *m2)
    if isinstance(v, tuple):
        return tuple(sub(x, m) for x in v)
    if isinstance(v, Ref):
        return Ref(v.oid, [sub(i, m) for i in v.idx]) if v.idx else v
    if isinstance(v, IteV):
        c = sub(v.c, m)
        return merge(c, sub(v.a, m), sub(v.b, m))
    if isinstance(v, HashV):
        return HashV(v.kind, sub(v.content, m))
    if isinstance(v, ConcLam):
        return ConcLam([sub(d, m) for d in v.dims], v.ps, sub(v.body, m), [sub(r, m) for r in v.rows])
    if isinstance(v, Lam):
        return Lam([sub(d, m) for d in v.dims], v.ps, sub(v.body, m), v.hist,
                   [tuple(sub(x, m) for x in w) for w in v.log])
    if isinstance(v, Unit):
        return Unit(sub(v.v, m))
    if isinstance(v, Guard):
        return guard(sub(v.c, m), sub(v.t, m))
    if isinstance(v, For):
        return For(v.k, sub(v.n, m), sub(v.t, m))
    if isinstance(v, SetFor):
        return SetFor(v.ks, sub(v.p, m), sub(v.t, m))
    if isinstance(v, Cat):
        return Cat([sub(t, m) for t in v.ts])
    if isinstance(v, Hist):
        return Hist(v.lid, v.loc, sub(v.base, m), sub(v.k, m), v.rec)
    if isinstance(v, MapV):
        return MapV(v.p, sub(v.dom, m), sub(v.val, m), sub(v.size, m))
    if isinstance(v, StrV):
        return StrV([sub(p, m) for p in v.parts])
    if isinstance(v, dict):
        return dict((k, sub(x, m)) for k, x in v.items())
    if hasattr(v, 'subst'):
        return v.subst(m)
    return v


def guard(c, t):
    if isT(c):
        return t
    if isF(c):
        return EMPTY
    if isinstance(t, Cat) and not t.ts:
        return EMPTY
    if isinstance(t, Guard):
        return Guard(And(c, t.c), t.t)
    return Guard(c, t)


def same(a, b):
    """syntactic identity of values"""
    if a is b:
        return True
    if is_conc(a) and is_conc(b):
        return type(a) == type(b) and a == b
    if is_z(a) and is_z(b):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid and len(a.idx) == len(b.idx) and all(same(zv(x), zv(y)) for x, y in zip(a.idx, b.idx))
    if isinstance(a, Lib) and isinstance(b, Lib):
        return a.name == b.name and a.self_ is b.self_
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.frame == b.frame and same(a.self_, b.self_)
    if isinstance(a, Old) and isinstance(b, Old):
        return a.loc == b.loc
    return False


def merge(c, a, b):
    """c ? a : b"""
    if isT(c):
        return a
    if isF(c):
        return b
    if same(a, b):
        return a
    if is_num(a) and is_num(b):
        if is_bool(a) and is_bool(b):
            if isT(a) and isF(b):
                return c
            if isF(a) and isT(b):
                return Not(c)
            return z3.If(c, fb(a), fb(b))
        x, y = pair(a, b)
        return z3.If(c, x, y)
    if is_z(a) and is_z(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
        return Ref(a.oid, [merge(c, x, y) for x, y in zip(a.idx, b.idx)])
    if isinstance(a, Lam) and isinstance(b, Lam) and len(a.dims) == len(b.dims) and a.hist is None and b.hist is None:
        ps = a.ps
        bb = sub(b.body, list(zip(b.ps, ps)))
        if isinstance(a, ConcLam) and isinstance(b, ConcLam) and len(a.rows) == len(b.rows) and not a.log and not b.log:
            return ConcLam([merge(c, x, y) for x, y in zip(a.dims, b.dims)], ps, merge(c, a.body, bb),
                           [merge(c, x, y) for x, y in zip(a.rows, b.rows)])
        return Lam([merge(c, x, y) for x, y in zip(a.dims, b.dims)], ps, merge(c, a.body, bb))
    return IteV(c, a, b)
