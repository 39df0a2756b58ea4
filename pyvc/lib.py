"""Trusted models of Python built-ins and libraries (every entry is listed in the evidence when used)."""
import ast, itertools, re as _re
from fractions import Fraction
import z3
from vals import *
from core import FamField, Dead

MODELS = {}
BUILTINS = set('''range len list tuple set dict enumerate zip map filter sorted max min sum abs int float str round
isinstance print reversed any all bool open iter next type divmod object frozenset repr getattr hasattr
ValueError KeyError IndexError TypeError Exception NotImplementedError StopIteration AttributeError super
complex bytes id hash property staticmethod classmethod'''.split())

# ---------------------------------------------------------------- theory symbols with axioms
sqrtR = z3.Function('sqrt', R, R)
cbrtR = z3.Function('cbrt', R, R)
PQ = z3.Function('PQ', I, I, I)       # row of a flattened pair index
PR = z3.Function('PR', I, I, I)       # column
MK = z3.Function('MK', I, I, I, I)    # flat index of (row, column) with row length


def ground_apps(fs, names):
    """(ground argument tuples per function name, names that occur with bound variables)"""
    out, bound, seen = {}, set(), {}

    def has_var(e):
        i = e.get_id()
        if i in seen:
            return seen[i]
        if z3.is_var(e):
            r = True
        elif z3.is_quantifier(e):
            has_var(e.body())
            r = False
            # variables of this quantifier occur below; treat as bound for the applications inside
        else:
            r = False
            for c in e.children():
                if has_var(c):
                    r = True
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in names and e.num_args():
                if r:
                    bound.add(e.decl().name())
                else:
                    out.setdefault(e.decl().name(), {})[e.get_id()] = e
        seen[i] = r
        return r
    for f in fs:
        has_var(f)
    return out, bound


def sqrt_facts(t):
    s = sqrtR(t)
    fs = [z3.Implies(t >= 0, z3.And(s >= 0, s * s == t))]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        n, r = t.arg(0), z3.ToInt(s)
        fs.append(z3.Implies(n >= 0, z3.And(r >= 0, r * r <= n, n < (r + 1) * (r + 1))))
    return fs


def theory(fs):
    """axioms of the theory symbols that occur in some formulas"""
    out = []
    x = z3.Real('x!ax')
    r, p, t, L, P = z3.Ints('r!ax p!ax t!ax L!ax P!ax')
    apps, bound = ground_apps(fs, {'sqrt', 'cbrt', 'PQ', 'PR', 'MK'})
    for e in apps.get('sqrt', {}).values():
        out += sqrt_facts(e.arg(0))
    if 'sqrt' in bound:
        out.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(sqrtR(x) >= 0, sqrtR(x) * sqrtR(x) == x)),
                             patterns=[sqrtR(x)]))
    for e in apps.get('cbrt', {}).values():
        a = e.arg(0)
        out.append(z3.Implies(a >= 0, z3.And(e >= 0, e * e * e == a)))
    if 'cbrt' in bound:
        out.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(cbrtR(x) >= 0, cbrtR(x) * cbrtR(x) * cbrtR(x) == x)),
                             patterns=[cbrtR(x)]))
    if set(apps) & {'PQ', 'PR', 'MK'} or bound & {'PQ', 'PR', 'MK'}:
        out.append(z3.ForAll([p, t, L], z3.Implies(z3.And(p >= 0, 0 <= t, t < L),
                                                   z3.And(PQ(MK(p, t, L), L) == p, PR(MK(p, t, L), L) == t,
                                                          MK(p, t, L) == p * L + t, MK(p, t, L) >= 0)),
                             patterns=[MK(p, t, L)]))
        out.append(z3.ForAll([r, L], z3.Implies(z3.And(r >= 0, L > 0),
                                                z3.And(MK(PQ(r, L), PR(r, L), L) == r, PR(r, L) >= 0, PR(r, L) < L,
                                                       PQ(r, L) >= 0)),
                             patterns=[PQ(r, L)]))
        out.append(z3.ForAll([r, L], z3.Implies(z3.And(r >= 0, L > 0),
                                                z3.And(MK(PQ(r, L), PR(r, L), L) == r, PR(r, L) >= 0, PR(r, L) < L,
                                                       PQ(r, L) >= 0)),
                             patterns=[PR(r, L)]))
        # r < P*L  <=>  row < P
        out.append(z3.ForAll([r, L, P], z3.Implies(z3.And(r >= 0, L > 0, P >= 0, r < P * L), PQ(r, L) < P),
                             patterns=[z3.MultiPattern(PQ(r, L), P * L)]))
        out.append(z3.ForAll([p, t, L, P], z3.Implies(z3.And(p >= 0, 0 <= t, t < L, p < P), MK(p, t, L) < P * L),
                             patterns=[z3.MultiPattern(MK(p, t, L), P * L)]))
    return out


def model(name):
    def deco(f):
        MODELS[name] = f
        return f
    return deco


# ---------------------------------------------------------------- arithmetic
def _conc2(a, b):
    return isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction))


def norm_frac(v):
    return v


def add(X, a, b):
    if _conc2(a, b):
        return a + b
    if isinstance(a, int) and a == 0 and not isinstance(a, bool):
        return num(b)
    if isinstance(b, int) and b == 0 and not isinstance(b, bool):
        return num(a)
    x, y = pair(a, b)
    return x + y


def sub_(X, a, b):
    if _conc2(a, b):
        return a - b
    if isinstance(b, int) and b == 0:
        return num(a)
    x, y = pair(a, b)
    return x - y


def mul(X, a, b):
    if _conc2(a, b):
        return a * b
    for u, v in ((a, b), (b, a)):
        if isinstance(u, int) and not isinstance(u, bool):
            if u == 1:
                return num(v)
            if u == 0:
                return 0 if zv(num(v)).sort() == I else Fraction(0)
        if isinstance(u, Fraction):
            if u == 1:
                return real(v)
            if u == 0:
                return Fraction(0)
    x, y = pair(a, b)
    return x * y


def truediv(X, a, b):
    if _conc2(a, b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return Fraction(a) / Fraction(b)
    X.safety(cmp(X, '!=', b, 0), 'division by zero')
    x, y = real(a), real(b)
    return x / y


def floordiv(X, a, b):
    if _conc2(a, b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return a // b
    X.safety(cmp(X, '!=', b, 0), 'division by zero')
    x, y = pair(a, b)
    if x.sort() == R:
        return z3.ToReal(z3.ToInt(x / y))
    if z3.is_int_value(y) and y.as_long() > 0:
        return x / y
    if X.entails(y > 0, 800):
        return x / y
    return z3.If(y > 0, x / y, (-x) / (-y))


def mod(X, a, b):
    if _conc2(a, b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return a % b
    X.safety(cmp(X, '!=', b, 0), 'modulo by zero')
    x, y = pair(a, b)
    if x.sort() == R:
        if z3.is_rational_value(y) and y.as_fraction() == 1:
            return x - z3.ToReal(z3.ToInt(x))
        return x - y * z3.ToReal(z3.ToInt(x / y))
    if z3.is_int_value(y) and y.as_long() > 0:
        return x % y
    if X.entails(y > 0, 800):
        return x % y
    return x - y * z3.If(y > 0, x / y, (-x) / (-y))


def sqrt(X, a):
    a = num(a)
    if isinstance(a, int):
        import math
        s = math.isqrt(a)
        if s * s == a:
            return Fraction(s)
    X.safety(cmp(X, '>=', a, 0), 'square root of a negative number')
    return sqrtR(real(a))


def power(X, a, b):
    if isinstance(b, (int, Fraction)) and _conc2(a, b) and (isinstance(b, int) or b.denominator == 1):
        if isinstance(b, Fraction):
            b = int(b)
        return Fraction(a) ** b if b < 0 or isinstance(a, Fraction) else a ** b
    if isinstance(b, Fraction) and b == Fraction(1, 2):
        return sqrt(X, a)
    if isinstance(b, Fraction) and b == Fraction(1, 3):
        X.safety(cmp(X, '>=', a, 0), 'cube root of a negative number')
        return cbrtR(real(a))
    if isinstance(b, int) and 0 <= b <= 6:
        r = 1
        for _ in range(b):
            r = mul(X, r, a)
        return r
    raise Unsupported('power')


ARITH = {'Add': add, 'Sub': sub_, 'Mult': mul, 'Div': truediv, 'FloorDiv': floordiv, 'Mod': mod, 'Pow': power}


def cmp(X, op, a, b):
    if _conc2(a, b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    x, y = pair(a, b)
    if op == '==':
        return True if x.eq(y) else x == y
    if op == '!=':
        return False if x.eq(y) else x != y
    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]


def trunc(X, v):
    """int(v)"""
    v = num(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if v.sort() == I:
        return v
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


rhe_decl = None


def round_half_even(x):
    """nearest integer, ties to even (real term -> int term)"""
    f = z3.ToInt(x + z3.RealVal(Fraction(1, 2)))
    tie = z3.ToReal(f) == x + z3.RealVal(Fraction(1, 2))
    return z3.If(z3.And(tie, f % 2 != 0), f - 1, f)


def around(X, v, dec=0):
    v = num(v)
    if not isinstance(dec, int):
        raise Unsupported('symbolic number of decimals')
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return round(v, dec) if dec else Fraction(round(v))
    if v.sort() == I:
        return v
    s = 10 ** dec
    return z3.ToReal(round_half_even(v * s)) / s if dec else z3.ToReal(round_half_even(v))


def lift(f):
    """distribute a scalar operation over conditional values"""
    def g(X, *a):
        for i, x in enumerate(a):
            if isinstance(x, IteV):
                return merge(x.c, g(X, *(a[:i] + (x.a,) + a[i + 1:])), g(X, *(a[:i] + (x.b,) + a[i + 1:])))
        return f(X, *a)
    return g


def is_arr(X, v):
    return isinstance(v, Ref) and X.obj(v).kind == 'arr'


def binop(X, op, a, b):
    if isinstance(a, IteV):
        return X.split(a.c, lambda: binop(X, op, a.a, b), lambda: binop(X, op, a.b, b))
    if isinstance(b, IteV):
        return X.split(b.c, lambda: binop(X, op, a, b.a), lambda: binop(X, op, a, b.b))
    if is_arr(X, a) or is_arr(X, b):
        if op == 'MatMult':
            return matmul(X, a, b)
        return arr_bin(X, lambda x, y: binop(X, op, x, y), a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor') and is_bool(a) and is_bool(b):
        if op == 'BitAnd':
            return And(a, b)
        if op == 'BitOr':
            return Or(a, b)
        return Not(Iff(a, b))
    if is_num(a) and is_num(b):
        if op not in ARITH:
            raise Unsupported('operator ' + op)
        return ARITH[op](X, a, b)
    if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
        if op == 'Add':
            return strcat(X, [a, b])
        if op == 'Mod' and isinstance(a, str):
            return percent(X, a, b)
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise Unsupported('string operator')
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
        return a * b
    if isinstance(a, Ref) or isinstance(b, Ref):
        ka = X.obj(a).kind if isinstance(a, Ref) else None
        kb = X.obj(b).kind if isinstance(b, Ref) else None
        if op == 'Add' and ka == 'list' and kb == 'list':
            return X.newlist(Cat([X.data(a), X.data(b)]))
        if op == 'Mult' and 'list' in (ka, kb):
            l, n = (a, b) if ka == 'list' else (b, a)
            t = X.data(l)
            if isinstance(n, int) and not isinstance(n, bool):
                return X.newlist(Cat([t] * n))
            if isinstance(t, Cat) and len(t.ts) == 1 and isinstance(t.ts[0], Unit):
                n2 = z3.If(zv(n) > 0, zv(n), z3.IntVal(0)) if not X.entails(zv(n) >= 0, 800) else zv(n)
                return X.newlist(Cat([For(X.const('k'), n2, t.ts[0])]))
            raise Unsupported('list repetition')
        if ka == 'set' and kb == 'set':
            return set_op(X, op, a, b)
        if ka == 'obj':
            nm = {'Add': '__add__', 'BitOr': '__or__', 'BitAnd': '__and__', 'Sub': '__sub__'}.get(op)
            if nm:
                return X.call(X.getattr(a, nm), [b])
    raise Unsupported('operator %s on %r, %r' % (op, a, b))


def set_op(X, op, a, b):
    ta, tb = X.data(a), X.data(b)
    if op == 'BitOr':
        return X.alloc('set', Cat([ta, tb]))
    keep = (lambda v: X.member(tb, lambda w: eq(X, v, w)))
    if op == 'BitAnd':
        return X.alloc('set', Cat([tfilter(X, ta, keep)]))
    if op == 'Sub':
        return X.alloc('set', Cat([tfilter(X, ta, lambda v: Not(keep(v)))]))
    raise Unsupported('set operator')


def tfilter(X, t, f):
    if isinstance(t, Unit):
        return guard(f(t.v), t)
    if isinstance(t, Guard):
        with X.under(t.c):
            return guard(t.c, tfilter(X, t.t, f))
    if isinstance(t, Cat):
        return Cat([tfilter(X, x, f) for x in t.ts])
    if isinstance(t, For):
        k = X.const('k')
        X.push(k, [k >= 0, k < zv(t.n)])
        try:
            b = tfilter(X, sub(t.t, [(t.k, k)]), f)
        finally:
            X.pop()
        return For(k, t.n, b)
    if isinstance(t, SetFor):
        ks = [X.const('x', k.sort()) for k in t.ks]
        m = list(zip(t.ks, ks))
        p = sub(fb(t.p), m)
        for i, k in enumerate(ks):
            X.push(k, [p] if i == len(ks) - 1 else [])
        try:
            b = tfilter(X, sub(t.t, m), f)
        finally:
            for k in ks:
                X.pop()
        return SetFor(ks, p, b)
    raise Unsupported('filter of a growing list')


def augop(X, op, a, b):
    if isinstance(a, Ref):
        k = X.obj(a).kind
        if k == 'list' and op == 'Add':
            X.setdata(a, Cat([X.data(a), X.tree_of(b)]))
            return a
        if k == 'set' and op == 'BitOr':
            X.setdata(a, Cat([X.data(a), X.tree_of(b)]))
            return a
        if k == 'set':
            X.setdata(a, X.data(set_op(X, op, a, b)))
            return a
        if k == 'arr':
            r = binop(X, op, a, b)
            lam = X.data(r)
            old = X.data(a)
            if is_z(old.body) and is_z(lam.body) and old.body.sort() == I and lam.body.sort() == R:
                raise PyRaise('TypeError: cannot cast float to int in place')
            X.setdata(a, lam)
            return a
        if k == 'obj' and op == 'BitOr':
            m = X.getattr(a, '__ior__')
            return X.call(m, [b])
    return binop(X, op, a, b)


def unop(X, op, v):
    if isinstance(v, IteV):
        return merge(v.c, unop(X, op, v.a), unop(X, op, v.b))
    if is_arr(X, v):
        lam = X.data(v)
        return X.arr(X.mk(lam.dims, lambda *i: unop(X, op, X.lam_get(lam, i))))
    if op == 'USub':
        v = num(v)
        return -v
    if op == 'UAdd':
        return num(v)
    if op == 'Invert' and is_bool(v):
        return Not(v)
    raise Unsupported('unary ' + op)


# ---------------------------------------------------------------- truth and equality
def truth(X, v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if is_z(v):
        if v.sort() == B:
            return v
        if v.sort() in (I, R):
            return v != 0
        raise Unsupported('truth of an opaque value')
    if isinstance(v, (int, Fraction)):
        return v != 0
    if isinstance(v, (str, tuple)):
        return len(v) > 0
    if isinstance(v, IteV):
        return merge(v.c, truth(X, v.a), truth(X, v.b))
    if isinstance(v, StrV):
        return str_nonempty(X, v)
    if isinstance(v, Ref):
        h = X.obj(v)
        if h.kind == 'arr':
            lam = X.data(v)
            if all(isinstance(d, int) and d == 1 for d in lam.dims):
                return truth(X, X.lam_get(lam, [0] * len(lam.dims)))
            raise Unsupported('truth of an array')
        if h.kind in ('list', 'tuple', 'set', 'dict'):
            d = X.data(v)
            if isinstance(d, MapV):
                return d.size > 0
            u = d.ts[0] if isinstance(d, Cat) and len(d.ts) == 1 else d
            if isinstance(u, For) and isinstance(u.t, Unit):
                return cmp(X, '>', u.n, 0)
            return X.member(d, lambda x: True)
        if h.kind == 'obj':
            if isinstance(h.cls, ClassV):
                m = X.lookup(h.cls, '__bool__')
                if m is not None:
                    return truth(X, X.call(m.bind(v), []))
                m = X.lookup(h.cls, '__len__')
                if m is not None:
                    return truth(X, X.call(m.bind(v), []))
            return True
        return True
    if isinstance(v, (Func, ClassV, Lib, PyFn, ModV)):
        return True
    raise Unsupported('truth of %r' % (v,))


def content_eq(X, a, b):
    if isinstance(a, Lam) and isinstance(b, Lam):
        if len(a.dims) != len(b.dims):
            return False
        dims = And([eq(X, x, y) for x, y in zip(a.dims, b.dims)])
        ps = [X.const('c') for _ in a.dims]
        rng = And([And(p >= 0, p < zv(d)) for p, d in zip(ps, a.dims)])
        for p, d in zip(ps, a.dims):
            X.push(p, [p >= 0, p < zv(d)])
        try:
            e = eq(X, X.lam_get(a, ps), X.lam_get(b, ps))
        finally:
            for p in ps:
                X.pop()
        return And(dims, All(ps, Implies(rng, e)))
    return eq(X, a, b)


def eq(X, a, b):
    if a is b:
        return True
    if isinstance(a, IteV):
        return X.split(a.c, lambda: eq(X, a.a, b), lambda: eq(X, a.b, b))
    if isinstance(b, IteV):
        return X.split(b.c, lambda: eq(X, a, b.a), lambda: eq(X, a, b.b))
    if is_num(a) and is_num(b):
        if is_bool(a) and is_bool(b):
            return Iff(a, b)
        return cmp(X, '==', a, b)
    if is_z(a) and is_z(b):
        if a.sort() != b.sort():
            return False
        return True if a.eq(b) else a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
        return str_eq(X, a, b)
    if a is None or b is None:
        x = b if a is None else a
        if isinstance(x, Ref) and X.obj(x).kind == 'obj' and isinstance(X.obj(x).cls, ClassV):
            m = X.lookup(X.obj(x).cls, '__eq__')
            if m is not None:
                r = X.call(m.bind(x), [None])
                return False if r is NotImplemented else truth(X, r)
        return a is None and b is None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and And([eq(X, x, y) for x, y in zip(a, b)])
    if isinstance(a, HashV) and isinstance(b, HashV):
        if a.kind != b.kind:
            return False
        f = content_eq(X, a.content, b.content)
        if a.kind in INJECTIVE:
            return f
        return Or(f, X.fresh('collision', B))
    if isinstance(a, HashV) or isinstance(b, HashV):
        raise Unsupported('hash compared with a number')
    if isinstance(a, Ref) and isinstance(b, Ref):
        ha, hb = X.obj(a), X.obj(b)
        if ha.kind in ('list', 'tuple') and hb.kind == ha.kind:
            return tree_eq(X, X.data(a), X.data(b))
        if ha.kind == 'arr' or hb.kind == 'arr':
            raise Unsupported('truth of an array comparison')
        if ha.kind == 'dict' and hb.kind == 'dict':
            ta, tb = X.data(a), X.data(b)
            if isinstance(tb, Cat) and not tb.ts:
                return Not(truth(X, a))
            if isinstance(ta, Cat) and not ta.ts:
                return Not(truth(X, b))
            raise Unsupported('dict equality')
        if ha.kind == 'set' and hb.kind == 'set':
            ta, tb = X.data(a), X.data(b)
            return And(X.forall_in(ta, lambda v: X.member(tb, lambda w: eq(X, v, w))),
                       X.forall_in(tb, lambda v: X.member(ta, lambda w: eq(X, v, w))))
        if ha.kind == 'obj' and isinstance(ha.cls, ClassV):
            m = X.lookup(ha.cls, '__eq__')
            if m is not None:
                return truth(X, X.call(m.bind(a), [b]))
        if ha.kind == 'obj' and hb.kind == 'obj':
            if ha.meta and 'eq' in ha.meta:
                return ha.meta['eq'](X, a, b)
            return ident(X, a, b)
        return False
    if isinstance(a, Ref) and X.obj(a).kind == 'obj' and isinstance(X.obj(a).cls, ClassV):
        m = X.lookup(X.obj(a).cls, '__eq__')
        if m is not None:
            return truth(X, X.call(m.bind(a), [b]))
        return False
    if isinstance(a, (ClassV, Func, Lib)) and isinstance(b, (ClassV, Func, Lib)):
        return same(a, b)
    if isinstance(a, tuple) and isinstance(b, Ref) and X.obj(b).kind == 'tuple':
        return tree_eq(X, X.tree_of(a), X.data(b))
    if isinstance(b, tuple) and isinstance(a, Ref) and X.obj(a).kind == 'tuple':
        return tree_eq(X, X.data(a), X.tree_of(b))
    if type(a) != type(b):
        return False
    raise Unsupported('equality of %r and %r' % (a, b))


def ident(X, a, b):
    if a.oid != b.oid:
        return False
    return And([zv(x) == zv(y) for x, y in zip(a.idx, b.idx)])


def tree_eq(X, a, b):
    na, nb = X.tlen(a), X.tlen(b)
    if isinstance(na, int) and isinstance(nb, int):
        return na == nb and And([eq(X, X.at(a, i), X.at(b, i)) for i in range(na)])
    j = X.const('j')
    X.push(j, [j >= 0, j < zv(na), j < zv(nb)])
    try:
        e = eq(X, X.at(a, j), X.at(b, j))
    finally:
        X.pop()
    return And(eq(X, na, nb), All([j], Implies(And(j >= 0, j < zv(na)), e)))


INJECTIVE = {'xxh64', 'tobytes', 'str'}


def compare(X, op, a, b):
    if op in ('Is', 'IsNot'):
        r = is_(X, a, b)
        return r if op == 'Is' else Not(r)
    if op in ('In', 'NotIn'):
        r = contains(X, b, a)
        return r if op == 'In' else Not(r)
    sym = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
    if is_arr(X, a) or is_arr(X, b):
        if a is None or b is None:
            return op == 'NotEq'
        if op == 'Eq':
            return arr_bin(X, lambda x, y: eq(X, x, y), a, b)
        if op == 'NotEq':
            return arr_bin(X, lambda x, y: Not(eq(X, x, y)), a, b)
        return arr_bin(X, lambda x, y: cmp(X, sym, x, y), a, b)
    if op == 'Eq':
        return eq(X, a, b)
    if op == 'NotEq':
        if isinstance(a, Ref) and X.obj(a).kind == 'obj' and isinstance(X.obj(a).cls, ClassV):
            m = X.lookup(X.obj(a).cls, '__ne__')
            if m is not None:
                return truth(X, X.call(m.bind(a), [b]))
        return Not(eq(X, a, b))
    if isinstance(a, IteV) or isinstance(b, IteV):
        return lift(lambda X_, x, y: compare(X, op, x, y))(X, a, b)
    if is_num(a) and is_num(b):
        return cmp(X, sym, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[sym]
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tup_cmp(X, sym, a, b)
    raise Unsupported('comparison %s' % op)


def tup_cmp(X, sym, a, b):
    strict = sym[0]
    r = len(a) < len(b) if strict == '<' else len(a) > len(b)
    if '=' in sym:
        r = len(a) <= len(b) if strict == '<' else len(a) >= len(b)
    for x, y in reversed(list(zip(a, b))):
        r = Or(cmp(X, strict, x, y), And(cmp(X, '==', x, y), r))
    return r


def is_(X, a, b):
    if isinstance(a, IteV):
        return merge(a.c, is_(X, a.a, b), is_(X, a.b, b))
    if isinstance(b, IteV):
        return merge(b.c, is_(X, a, b.a), is_(X, a, b.b))
    if a is None or b is None:
        if is_z(a) and a.sort() == Item or is_z(b) and b.sort() == Item:
            return False
        return a is None and b is None
    if isinstance(a, Ref) and isinstance(b, Ref):
        return ident(X, a, b)
    if is_bool(a) and is_bool(b):
        return Iff(a, b)
    if is_z(a) or is_z(b) or isinstance(a, (str, StrV)):
        return eq(X, a, b)     # interned letters and opaque items
    return a is b or same(a, b)


def contains(X, c, x):
    if isinstance(c, IteV):
        return merge(c.c, contains(X, c.a, x), contains(X, c.b, x))
    x = resolve(X, x)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, tuple):
        return Or([eq(X, v, x) for v in c])
    if isinstance(c, Tree):
        return X.member(c, lambda v: eq(X, v, x))
    if isinstance(c, Ref):
        h = X.obj(c)
        d = X.data(c)
        if h.kind in ('list', 'tuple', 'set', 'gen'):
            return X.member(d, lambda v: eq(X, v, x))
        if h.kind == 'dict':
            if isinstance(d, MapV):
                return sub(d.dom, [(d.p, mapkey(X, d, x))])
            return X.member(d, lambda kv: eq(X, kv[0], x))
        if h.kind == 'arr':
            lam = d
            if len(lam.dims) == 1:
                return X.member(X.arr_rows(c), lambda v: eq(X, v, x))
        if h.kind == 'obj':
            if h.meta and 'contains' in h.meta:
                return h.meta['contains'](X, c, x)
            m = X.lookup(h.cls, '__contains__') if isinstance(h.cls, ClassV) else None
            if m is not None:
                return truth(X, X.call(m.bind(c), [x]))
            return X.member(X.tree_of(c), lambda v: eq(X, v, x))
    raise Unsupported('membership in %r' % (c,))


# ---------------------------------------------------------------- indexing
def norm_index(X, i, n, what='index'):
    """Python index -> offset, with range check"""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyRaise('IndexError: ' + what)
        return i if i >= 0 else i + n
    if isinstance(i, int):
        if i >= 0:
            X.safety(zv(i) < zv(n), what + ' in range')
            return i
        X.safety(zv(-i) <= zv(n), what + ' in range')
        return zv(n) + i
    if is_z(i) and i.sort() == R:
        raise PyRaise('TypeError: float index')
    if not is_z(i):
        raise Unsupported('index %r' % (i,))
    if X.entails(i >= 0, 1000):
        X.safety(i < zv(n), what + ' in range')
        return i
    X.safety(z3.And(i >= -zv(n), i < zv(n)), what + ' in range')
    return z3.If(i >= 0, i, i + zv(n))


def slice_bounds(X, s, n):
    """(start, length) of a slice with step 1"""
    if s.step is not None and s.step != 1:
        raise Unsupported('slice step')
    def clamp(v, default):
        if v is None:
            return default
        if isinstance(v, int) and isinstance(n, int):
            return max(0, min(n, v if v >= 0 else v + n))
        v2 = zv(v)
        if isinstance(v, int):
            if v == 0:
                return 0
            if v > 0:
                return v if X.entails(zv(n) >= v, 500) else z3.If(zv(n) < v, zv(n), z3.IntVal(v))
            w = zv(n) + v
            return w if X.entails(w >= 0, 500) else z3.If(w < 0, z3.IntVal(0), w)
        if X.entails(And(v2 >= 0, v2 <= zv(n)), 500):
            return v2
        w = z3.If(v2 < 0, v2 + zv(n), v2)
        return z3.If(w < 0, z3.IntVal(0), z3.If(w > zv(n), zv(n), w))
    lo, hi = clamp(s.start, 0), clamp(s.stop, n)
    ln = sub_(X, hi, lo)
    if isinstance(ln, int):
        ln = max(0, ln)
    elif not X.entails(zv(ln) >= 0, 500):
        ln = z3.If(ln > 0, ln, z3.IntVal(0))
    return lo, ln


def getitem(X, o, i):
    if isinstance(o, IteV):
        return X.split(o.c, lambda: getitem(X, o.a, i), lambda: getitem(X, o.b, i))
    if isinstance(i, IteV):
        return X.split(i.c, lambda: getitem(X, o, i.a), lambda: getitem(X, o, i.b))
    if isinstance(o, (tuple, str)):
        if isinstance(i, slice):
            return o[i]
        if isinstance(i, int):
            if not -len(o) <= i < len(o):
                raise PyRaise('IndexError')
            return o[i]
        if isinstance(o, tuple):
            return seq_get(X, X.tree_of(o), i)
    if isinstance(o, StrV):
        return str_getitem(X, o, i)
    if isinstance(o, Ref):
        h = X.obj(o)
        if h.kind in ('list', 'tuple'):
            t = X.data(o)
            if isinstance(i, slice):
                n = X.tlen(t)
                lo, ln = slice_bounds(X, i, n)
                if h.kind == 'list' and isinstance(lo, int) and lo == 0 and same(ln, n):
                    return X.newlist(t)
                pref = _static_slice(t, lo, i.stop, i)
                if pref is not None:
                    return X.newlist(pref, h.kind)
                return X.newlist(X.seq(ln, lambda k: X.at(t, add(X, k, lo))), h.kind)
            return seq_get(X, t, i)
        if h.kind == 'dict':
            return dict_get(X, o, i)
        if h.kind == 'counter':
            return MODELS['$counter_get'](X, o, i)
        if h.kind == 'arr':
            return arr_getitem(X, o, i)
        if h.kind == 'larr' and is_num(i):
            d = X.data(o)
            return X.lam_get(d, (norm_index(X, i, d.dims[0]),))
        if h.kind == 'obj':
            if h.meta and 'getitem' in h.meta:
                return h.meta['getitem'](X, o, i)
            m = X.lookup(h.cls, '__getitem__') if isinstance(h.cls, ClassV) else None
            if m is not None:
                return X.call(m.bind(o), [i])
    raise Unsupported('subscript of %r' % (o,))


def _static_slice(t, lo, stop, s):
    """slice of a Cat of units followed by anything, cut at concrete positions"""
    if not isinstance(t, Cat) or not isinstance(lo, int):
        return None
    units = 0
    while units < len(t.ts) and isinstance(t.ts[units], Unit):
        units += 1
    if stop is None and lo <= units:
        return Cat(t.ts[lo:])
    if isinstance(stop, int) and 0 <= stop <= units and lo <= stop:
        return Cat(t.ts[lo:stop])
    return None


def seq_get(X, t, i):
    if isinstance(t, Cat) and isinstance(i, int) and 0 <= i < len(t.ts) and all(isinstance(x, Unit) for x in t.ts[:i + 1]):
        return t.ts[i].v
    if isinstance(i, int) and i >= 0:
        X.safety(first_exists(X, t, i), 'index %d in range' % i) if i == 0 else None
        if i == 0:
            return first_of(X, t)
    n = X.tlen(t)
    k = norm_index(X, i, n)
    return X.at(t, k)


def first_exists(X, t, i):
    return X.member(t, lambda v: True)


def first_of(X, t):
    """element 0 of a nonempty sequence"""
    if isinstance(t, For) and isinstance(t.t, Unit):
        return X.at(t, 0)
    if isinstance(t, Unit):
        return t.v
    if isinstance(t, Cat):
        if len(t.ts) == 1:
            return first_of(X, t.ts[0])
        if not t.ts:
            raise PyRaise('IndexError')
    return X.at(t, 0)


NONE_ITEM = z3.Const('None', Item)


def mapkey(X, d, k):
    k = resolve(X, k)
    if k is None and d.p.sort() == Item:
        return NONE_ITEM
    return k


def dict_get(X, o, key):
    d = X.data(o)
    if isinstance(d, MapV):
        key = mapkey(X, d, key)
        X.safety(sub(d.dom, [(d.p, key)]), 'key present')
        return sub(d.val, [(d.p, key)])
    h = X.obj(o)
    # last entry with an equal key
    if isinstance(d, Cat) and all(isinstance(t, Unit) for t in d.ts):
        found = None
        conds = []
        for t in reversed(d.ts):
            c = eq(X, t.v[0], key)
            conds.append((c, t.v[1]))
            if isT(c):
                break
        anyc = Or([c for c, v in conds])
        if h.meta and h.meta.get('counter'):
            pass
        X.safety(anyc, 'key present')
        live = [(c, v) for c, v in conds if not isF(c)]
        if not live:
            raise PyRaise('KeyError')
        v = live[-1][1]
        for c, w in reversed(live[:-1]):
            v = merge(c, w, v)
        return v
    if isinstance(d, Cat) and len(d.ts) == 1:
        d = d.ts[0]
    if isinstance(d, For):
        ls = X.leaves(d)
        if len(ls) == 1 and len(ls[0][0]) >= 1:
            bs, gs, (kk, vv) = ls[0]
            # last index with this key
            X.safety(X.member(d, lambda kv: eq(X, kv[0], key)), 'key present')
            ws = [X.fresh('at') for _ in bs]
            m = [(b, w) for (b, n), w in zip(bs, ws)]
            X.assume(And([And(w >= 0, w < sub(zv(n), m)) for (b, n), w in zip(bs, ws)]))
            X.assume(And([sub(fb(g), m) for g in gs]))
            X.assume(eq(X, sub(kk, m), key))
            if len(bs) > 1:
                raise Unsupported('lookup in a nested comprehension')
            b, n = bs[0]
            X.assume(All([b], Implies(And(b > ws[0], b < zv(n), And(gs)), Not(eq(X, kk, key)))))
            return sub(vv, m)
    raise Unsupported('dictionary lookup')


def resolve(X, v):
    """the branch of a conditional value that the path conditions select"""
    while isinstance(v, IteV):
        if X.entails(v.c, 800):
            v = v.a
        elif X.entails(Not(v.c), 800):
            v = v.b
        else:
            break
    return v


def setitem(X, o, i, v):
    if isinstance(o, IteV):
        X.split(o.c, lambda: setitem(X, o.a, i, v), lambda: setitem(X, o.b, i, v))
        return
    if not isinstance(o, Ref):
        raise Unsupported('item assignment')
    i = resolve(X, i)
    h = X.obj(o)
    if h.kind == 'dict':
        d = X.data(o)
        if isinstance(d, MapV):
            i = mapkey(X, d, i)
            inn = sub(d.dom, [(d.p, i)])
            k = zv(i)
            X.setdata(o, MapV(d.p, Or(d.p == k, d.dom), merge(d.p == k, v, d.val),
                              d.size + z3.If(fb(inn), z3.IntVal(0), z3.IntVal(1))))
            return
        if isinstance(d, Cat) and all(isinstance(t, Unit) and is_conc(t.v[0]) for t in d.ts) and is_conc(i):
            out, done = [], False
            for t in d.ts:
                if t.v[0] == i and type(t.v[0]) == type(i):
                    out.append(Unit((i, v)))
                    done = True
                else:
                    out.append(t)
            X.setdata(o, Cat(out if done else out + [Unit((i, v))]))
            return
        X.setdata(o, Cat([d, Unit((i, v))]))
        return
    if h.kind == 'list':
        t = X.data(o)
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        n = X.tlen(t)
        k = norm_index(X, i, n)
        if not X.own(o) and o.oid not in X.shared:
            # one member of a family of lists
            full = h.data.ts[0] if isinstance(h.data, Cat) and len(h.data.ts) == 1 else h.data
            here = And([zv(b) == zv(j) for b, j in zip(h.binders, o.idx)])
            if isinstance(full, For) and isinstance(full.t, Unit):
                new = For(full.k, full.n, Unit(merge(And(here, full.k == zv(k)), v, full.t.v)))
            elif isinstance(full, Cat) and all(isinstance(x, Unit) for x in full.ts):
                new = Cat([Unit(merge(And(here, eq(X, q, k)), v, x.v)) for q, x in enumerate(full.ts)])
            else:
                raise Unsupported('update of a container inside a family')
            X.st.heap[o.oid] = h.with_(new)
            return
        if isinstance(t, Cat) and isinstance(k, int) and all(isinstance(x, Unit) for x in t.ts):
            X.setdata(o, Cat(t.ts[:k] + (Unit(v),) + t.ts[k + 1:]))
            return
        if isinstance(n, int):
            X.setdata(o, Cat([Unit(merge(eq(X, k, q), v, X.at(t, q))) for q in range(n)]))
            return
        X.setdata(o, Cat([X.seq(n, lambda q: merge(eq(X, q, k), v, X.at(t, q)))]))
        return
    if h.kind == 'larr':
        lam = X.data(o)
        if not is_num(i) or not is_num(v):
            raise Unsupported('assignment to a list in a loop')
        X.setdata(o, X.lam_set(lam, [norm_index(X, i, lam.dims[0])], v))
        return
    if h.kind == 'arr':
        lam = X.data(o)
        idx = i if isinstance(i, tuple) else (i,)
        if len(idx) != len(lam.dims) or any(not is_num(x) for x in idx):
            raise Unsupported('array slice assignment')
        ks = [norm_index(X, x, d) for x, d in zip(idx, lam.dims)]
        if is_arr(X, v) or isinstance(v, Ref) and not isinstance(lam.body, Ref):
            raise Unsupported('array element assignment')
        X.setdata(o, X.lam_set(lam, ks, v))
        return
    if h.kind == 'obj' and isinstance(h.cls, ClassV):
        m = X.lookup(h.cls, '__setitem__')
        if m is not None:
            X.call(m.bind(o), [i, v])
            return
    raise Unsupported('item assignment')


def delitem(X, o, i):
    h = X.obj(o)
    if h.kind == 'dict':
        d = X.data(o)
        if isinstance(d, MapV):
            i = mapkey(X, d, i)
            X.safety(sub(d.dom, [(d.p, i)]), 'deleted key present')
            X.setdata(o, MapV(d.p, And(d.p != zv(i), d.dom), d.val, d.size - 1))
            return
        X.safety(X.member(d, lambda kv: eq(X, kv[0], i)), 'deleted key present')
        X.setdata(o, Cat([tfilter(X, d, lambda kv: Not(eq(X, kv[0], i)))]))
        return
    if h.kind == 'list':
        t = X.data(o)
        if isinstance(i, slice):
            raise Unsupported('slice deletion')
        n = X.tlen(t)
        k = norm_index(X, i, n)
        X.setdata(o, Cat([list_del(X, t, n, k)]))
        return
    if h.kind == 'obj' and isinstance(h.cls, ClassV):
        m = X.lookup(h.cls, '__delitem__')
        if m is not None:
            X.call(m.bind(o), [i])
            return
    raise Unsupported('item deletion')


def list_del(X, t, n, k):
    if isinstance(t, Cat) and isinstance(k, int) and all(isinstance(x, Unit) for x in t.ts):
        return Cat(t.ts[:k] + t.ts[k + 1:])
    if isinstance(n, int):
        return Cat([Unit(merge(cmp(X, '<', q, k), X.at(t, q), X.at(t, q + 1))) for q in range(n - 1)])
    return X.seq(n - 1, lambda q: merge(cmp(X, '<', q, k), X.at(t, q), X.at(t, q + 1)))


def list_insert(X, t, i, v):
    n = X.tlen(t)
    if isinstance(i, int) and isinstance(n, int):
        i2 = max(0, i + n) if i < 0 else min(i, n)
    else:
        z = zv(i)
        z = z3.If(z < 0, z3.If(z + zv(n) < 0, z3.IntVal(0), z + zv(n)), z3.If(z > zv(n), zv(n), z))
        i2 = z
    if isinstance(n, int) and isinstance(i2, int):
        vs = [X.at(t, q) for q in range(n)]
        return Cat([Unit(x) for x in vs[:i2] + [v] + vs[i2:]])
    return X.seq(zv(n) + 1, lambda q: merge(cmp(X, '<', q, i2), X.at(t, q), merge(eq(X, q, i2), v, X.at(t, sub_(X, q, 1)))))


# ---------------------------------------------------------------- arrays
def to_lam(X, v):
    """any nested sequence / array / scalar -> Lam"""
    if isinstance(v, IteV):
        a, b = to_lam(X, v.a), to_lam(X, v.b)
        r = merge(v.c, a, b)
        if not isinstance(r, Lam):
            raise Unsupported('array of two shapes')
        return r
    if is_arr(X, v):
        return X.data(v)
    if is_num(v) or isinstance(v, (str, StrV)) or v is None or is_z(v):
        return Lam((), (), v)
    if isinstance(v, Ref) and X.obj(v).kind == 'obj' and not (isinstance(X.obj(v).cls, ClassV) and
                                                             X.lookup(X.obj(v).cls, '__iter__')):
        return Lam((), (), v)
    t = v if isinstance(v, Tree) else X.tree_of(v)
    n = X.tlen(t)
    if isinstance(n, int):
        if n == 0:
            p = X.const('i')
            return Lam((0,), (p,), Fraction(0))
        els = [to_lam(X, X.at(t, i)) for i in range(n)]
        k = len(els[0].dims)
        if any(len(e.dims) != k for e in els):
            raise Unsupported('ragged array')
        els = unify_lams(els)
        p = X.const('i')
        ps = els[0].ps
        body = sub(els[-1].body, list(zip(els[-1].ps, ps)))
        for q in range(n - 2, -1, -1):
            body = merge(p == q, sub(els[q].body, list(zip(els[q].ps, ps))), body)
        for e in els[1:]:
            for a, b in zip(e.dims, els[0].dims):
                X.safety(eq(X, a, b), 'rows of equal length')
        return ConcLam((n,) + els[0].dims, (p,) + tuple(ps), body, els)
    k = X.const('i')
    X.push(k, [k >= 0, k < zv(n)])
    try:
        e = to_lam(X, X.at(t, k))
    finally:
        X.pop()
    if any(is_z(d) and occurs(k, d) for d in e.dims):
        raise Unsupported('ragged array')
    return Lam((n,) + e.dims, (k,) + tuple(e.ps), e.body)


def unify_lams(els):
    sorts = set()
    for e in els:
        if is_num(e.body):
            b = zv(num(e.body)) if not is_bool(e.body) else zv(e.body)
            sorts.add(str(b.sort()))
    if 'Real' in sorts and len(sorts) > 1:
        return [Lam(e.dims, e.ps, real(e.body)) if is_num(e.body) else e for e in els]
    return els


def lget(X, lam, idx):
    """element with concrete leading indices resolved without case splits"""
    if isinstance(lam, ConcLam) and lam.hist is None and not lam.log:
        i = idx[0]
        if is_z(i) and z3.is_int_value(i):
            i = i.as_long()
        if isinstance(i, int) and 0 <= i < len(lam.rows):
            return lget(X, lam.rows[i], idx[1:])
    return X.lam_get(lam, idx)


def shape_of(X, v):
    return X.data(v).dims if is_arr(X, v) else to_lam(X, v).dims


def mkarr(X, dims, f):
    """array; concrete small leading dimension kept as rows"""
    dims = tuple(dims)
    return X.arr(mklam(X, dims, f))


def mklam(X, dims, f):
    if not dims:
        return Lam((), (), f())
    if isinstance(dims[0], int) and 0 < dims[0] <= X.opts.get('rows', 12):
        rows = [mklam(X, dims[1:], lambda *r, i=i: f(i, *r)) for i in range(dims[0])]
        rows = unify_lams(rows)
        p = X.const('i')
        ps = rows[0].ps
        body = sub(rows[-1].body, list(zip(rows[-1].ps, ps)))
        for q in range(dims[0] - 2, -1, -1):
            body = merge(p == q, sub(rows[q].body, list(zip(rows[q].ps, ps))), body)
        return ConcLam(dims, (p,) + tuple(ps), body, rows)
    p = X.const('i')
    X.push(p, [p >= 0, p < zv(dims[0])])
    try:
        e = mklam(X, dims[1:], lambda *r: f(p, *r))
    finally:
        X.pop()
    return Lam(dims, (p,) + tuple(e.ps), e.body)


def broadcast(X, da, db):
    n = max(len(da), len(db))
    a = (1,) * (n - len(da)) + tuple(da)
    b = (1,) * (n - len(db)) + tuple(db)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            X.safety(eq(X, x, y), 'shapes match')
            out.append(x if isinstance(x, int) else y)
    return out, a, b


def arr_bin(X, f, a, b):
    la, lb = to_lam(X, a), to_lam(X, b)
    dims, da, db = broadcast(X, la.dims, lb.dims)

    def el(*idx):
        ia = [0 if isinstance(d, int) and d == 1 else i for d, i in zip(da, idx)][len(da) - len(la.dims):]
        ib = [0 if isinstance(d, int) and d == 1 else i for d, i in zip(db, idx)][len(db) - len(lb.dims):]
        return f(lget(X, la, ia), lget(X, lb, ib))
    if not dims:
        return el()
    return mkarr(X, dims, el)


def arr_map(X, f, a):
    la = to_lam(X, a)
    if not la.dims:
        return f(la.body)
    return mkarr(X, la.dims, lambda *i: f(lget(X, la, i)))


def arr_index(X, r, idx, safe=False):
    return arr_getitem(X, r, tuple(idx), safe)


def arr_getitem(X, o, i, safe=False):
    lam = X.data(o)
    idx = list(i) if isinstance(i, tuple) else [i]
    idx = [to_arr_if_seq(X, x) for x in idx]
    # boolean mask / integer array on the first axis
    nd = len(lam.dims)
    real_ax = sum(1 for x in idx if x is not None)
    idx = idx + [slice(None)] * (nd - real_ax)
    dims, src = [], []      # src: per source axis a function of the output index tuple
    ax = 0
    fancy_pos = None
    for x in idx:
        if x is None:
            dims.append(1)
            continue
        d = lam.dims[ax]
        ax += 1
        if isinstance(x, slice):
            lo, ln = slice_bounds(X, x, d)
            q = len(dims)
            dims.append(ln)
            src.append(lambda out, q=q, lo=lo: add(X, out[q], lo))
        elif is_arr(X, x):
            xl = X.data(x)
            if is_bool(xl.body):
                X.safety(eq(X, xl.dims[0], d), 'mask length')
                t = X.seq(xl.dims[0], lambda k: k)
                fl = X.flatten(mask_tree(X, xl))
                q = len(dims)
                dims.append(fl[0])
                src.append(lambda out, q=q, fl=fl: fl[1](out[q]))
            else:
                if len(xl.dims) != 1:
                    raise Unsupported('fancy index of rank %d' % len(xl.dims))
                if fancy_pos is not None:
                    q = fancy_pos
                else:
                    q = len(dims)
                    fancy_pos = q
                    dims.append(xl.dims[0])
                if not safe:
                    p = X.const('p')
                    X.push(p, [p >= 0, p < zv(xl.dims[0])])
                    e = lget(X, xl, (p,))
                    X.safety(And(cmp(X, '>=', e, 0), cmp(X, '<', e, d)), 'index array in range')
                    X.pop()
                src.append(lambda out, q=q, xl=xl: lget(X, xl, (out[q],)))
        elif is_num(x):
            k = x if safe else norm_index(X, x, d, 'array index')
            src.append(lambda out, k=k: k)
        else:
            raise Unsupported('array index %r' % (x,))
    if not dims:
        return lget(X, lam, [s(()) for s in src])
    return mkarr(X, dims, lambda *out: lget(X, lam, [s(out) for s in src]))


def mask_tree(X, xl):
    n = xl.dims[0]
    k = X.const('k')
    X.push(k, [k >= 0, k < zv(n)])
    c = lget(X, xl, (k,))
    X.pop()
    key = ('mask', str(z3.simplify(zv(n))) if is_z(n) else n, str(sub(fb(c), [(k, z3.Int('k!!'))])))
    cache = X.flatcache.get(key)
    if cache is not None:
        return cache
    t = For(k, n, Guard(c, Unit(k)))
    X.flatcache[key] = t
    return t


def to_arr_if_seq(X, x):
    if isinstance(x, Ref) and X.obj(x).kind in ('list', 'tuple'):
        return X.arr(to_lam(X, x))
    return x


def matmul(X, a, b):
    la, lb = to_lam(X, a), to_lam(X, b)
    ka, kb = len(la.dims), len(lb.dims)
    inner = la.dims[-1]
    inner2 = lb.dims[0] if kb == 1 else lb.dims[-2]
    X.safety(eq(X, inner, inner2), 'matmul shapes')
    if not isinstance(inner, int):
        inner = inner2
    if not isinstance(inner, int):
        raise Unsupported('matmul over a symbolic dimension')

    def dot(f, g):
        s = 0
        for q in range(inner):
            s = add(X, s, mul(X, f(q), g(q)))
        return s
    if ka == 1 and kb == 1:
        return dot(lambda q: lget(X, la, (q,)), lambda q: lget(X, lb, (q,)))
    if ka == 1:
        return mkarr(X, (lb.dims[1],), lambda j: dot(lambda q: lget(X, la, (q,)), lambda q: lget(X, lb, (q, j))))
    if kb == 1:
        return mkarr(X, (la.dims[0],), lambda i: dot(lambda q: lget(X, la, (i, q)), lambda q: lget(X, lb, (q,))))
    if ka == 2 and kb == 2:
        return mkarr(X, (la.dims[0], lb.dims[1]),
                     lambda i, j: dot(lambda q: lget(X, la, (i, q)), lambda q: lget(X, lb, (q, j))))
    raise Unsupported('matmul rank')


def det3(X, L):
    m = lambda i, j: lget(X, L, (i, j))
    t = lambda a, b: mul(X, a, b)
    s = 0
    for i, j, k, sg in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (1, 0, 2, -1), (2, 1, 0, -1)):
        p = t(t(m(0, i), m(1, j)), m(2, k))
        s = add(X, s, p) if sg > 0 else sub_(X, s, p)
    return s


# ---------------------------------------------------------------- attribute access on library values
def getattr_(X, v, name):
    if isinstance(v, Lib):
        return libname(v.name + '.' + name)
    if isinstance(v, Ref):
        h = X.obj(v)
        if h.kind == 'arr':
            lam = X.data(v)
            if name == 'T':
                nd = len(lam.dims)
                return mkarr(X, lam.dims[::-1], lambda *i: lget(X, lam, i[::-1]))
            if name == 'shape':
                return tuple(lam.dims)
            if name == 'ndim':
                return len(lam.dims)
            if name == 'size':
                n = 1
                for d in lam.dims:
                    n = mul(X, n, d)
                return n
            if name == 'flat':
                return X.arr(ravel(X, lam))
            if name == 'dtype':
                return Lib('numpy.dtype', v)
            return Lib('ndarray.' + name, v)
        return Lib(h.kind + '.' + name, v)
    if isinstance(v, tuple):
        return Lib('tuple.' + name, v)
    if isinstance(v, (str, StrV)):
        return Lib('str.' + name, v)
    if isinstance(v, HashV):
        return Lib('digest.' + name, v)
    if is_z(v) and v.sort() == Item and hasattr(X, 'item_attr'):
        return X.item_attr(v, name)
    if is_num(v):
        return Lib('number.' + name, v)
    raise Unsupported('attribute %s of %r' % (name, v))


def libname(name):
    if name in CONSTS:
        return CONSTS[name]()
    return Lib(name)


CONSTS = {'numpy.newaxis': lambda: None, 'numpy.float64': lambda: Lib('float'), 'numpy.int': lambda: Lib('int'),
          'numpy.int64': lambda: Lib('int'), 'numpy.float': lambda: Lib('float'),
          'string.ascii_uppercase': lambda: 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'string.digits': lambda: '0123456789',
          'string.ascii_lowercase': lambda: 'abcdefghijklmnopqrstuvwxyz'}

ALIAS = {'numpy.max': 'numpy.amax', 'numpy.min': 'numpy.amin', 'numpy.round': 'numpy.around',
         'numpy.asarray': 'numpy.array', 'numpy.dot': 'numpy.matmul', 'numpy.mod': 'numpy.mod',
         'numpy.remainder': 'numpy.mod', 'float': 'builtins.float', 'int': 'builtins.int', 'math.sqrt': 'numpy.sqrt',
         'numpy.rint': 'numpy.around', 'numpy.round_': 'numpy.around', 'numpy.sort': 'numpy.sort',
         'collections.abc.MutableSet': 'collections.MutableSet'}


def call(X, f, args, kw):
    name = ALIAS.get(f.name, f.name)
    m = X.hooks.get(('lib', name)) or MODELS.get(name)
    if m is None:
        base = name.rsplit('.', 1)
        if len(base) == 2 and ('*.' + base[1]) in MODELS:
            m = MODELS['*.' + base[1]]
    if m is None:
        raise Unsupported('library function ' + name)
    if not name.startswith('builtins.print'):
        X.used_lib.add(name)
    if f.self_ is not None:
        return m(X, f.self_, *args, **kw)
    return m(X, *args, **kw)


MIXIN = {'collections.MutableSequence': {'index', 'count', 'reverse', '__iadd__', 'clear', 'remove', '__contains__', '__reversed__'},
         'collections.MutableSet': {'__ior__', '__iand__', '__ixor__', '__isub__', 'remove', 'pop', 'clear', '__or__', '__and__',
                                    '__sub__', '__le__', '__eq__', 'isdisjoint'}}


def has_mixin(base, name):
    return name in MIXIN.get(ALIAS.get(base, base), ()) or name in MIXIN.get(base, ())


def has_builtin(name):
    return name in BUILTINS


# ---------------------------------------------------------------- strings (completed in strs.py)
def strcat(X, parts):
    out = []
    for p in parts:
        if isinstance(p, StrV):
            out.extend(p.parts)
        elif isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        else:
            raise Unsupported('string concatenation of %r' % (p,))
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrV(out)


def str_nonempty(X, s):
    raise Unsupported('emptiness of a symbolic string')


def str_eq(X, a, b):
    if isinstance(a, StrV) and isinstance(b, StrV) and len(a.parts) == len(b.parts) \
            and all(type(x) == type(y) for x, y in zip(a.parts, b.parts)):
        if all(same(x, y) for x, y in zip(a.parts, b.parts)):
            return True
    raise Unsupported('equality of symbolic strings')


def str_getitem(X, s, i):
    raise Unsupported('subscript of a symbolic string')


def format1(X, v, spec):
    if isinstance(v, str):
        return format(v, spec)
    if isinstance(v, int) and not isinstance(v, bool):
        return format(v, spec)
    if isinstance(v, StrV) and not spec.strip(':'):
        return v
    return StrV([('fmt', spec, v)])


def percent(X, a, b):
    if isinstance(b, str):
        return a % b
    if isinstance(b, tuple) and all(is_conc(x) and not isinstance(x, Fraction) for x in b):
        return a % b
    raise Unsupported('% formatting')


# aliases used by the core
sub_name = sub_


class L(object):
    """the interface the core uses"""
    theory = staticmethod(theory)
    add = staticmethod(add)
    mul = staticmethod(mul)
    PQ = staticmethod(PQ)
    PR = staticmethod(PR)
    MK = staticmethod(MK)
    sub = staticmethod(sub_)
    cmp = staticmethod(cmp)
    eq = staticmethod(eq)
    truth = staticmethod(truth)
    augop = staticmethod(augop)
    binop = staticmethod(binop)
    unop = staticmethod(unop)
    compare = staticmethod(compare)
    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    getattr = staticmethod(getattr_)
    call = staticmethod(call)
    libname = staticmethod(libname)
    has_mixin = staticmethod(has_mixin)
    has_builtin = staticmethod(has_builtin)
    arr_index = staticmethod(arr_index)
    format1 = staticmethod(lambda X, v, s: format1(X, v, s))
    strcat = staticmethod(strcat)

    @staticmethod
    def set_add(X, r, v):
        X.setdata(r, Cat([X.data(r), Unit(v)]))
