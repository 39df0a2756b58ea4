"""Discharge obligations with z3 and cvc5 (separate processes, SMT-LIB text)."""
import os, subprocess, time, threading
from concurrent.futures import ThreadPoolExecutor
import z3
import lib
from vals import *

Z3 = '/opt/veriftools/pyvenv/bin/z3' if os.path.exists('/opt/veriftools/pyvenv/bin/z3') else 'z3-new'


def func_names(fs):
    """names of the uninterpreted functions and constants of some formulas"""
    out, seen, todo = set(), set(), list(fs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            todo.append(e.body())
            for k in range(e.num_patterns()):
                todo.append(e.pattern(k))
        elif z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            todo.extend(e.children())
    return out


_fn_cache = {}


def names1(f):
    k = f.get_id()
    if k not in _fn_cache or not _fn_cache[k][0].eq(f):
        _fn_cache[k] = (f, func_names([f]))
    return _fn_cache[k][1]


def relevant(hyps, goal, depth):
    """hypotheses connected to the goal through shared symbols, up to a distance"""
    have = set(names1(goal))
    keep = [False] * len(hyps)
    for _ in range(depth):
        new = set()
        for i, h in enumerate(hyps):
            if keep[i]:
                continue
            n = names1(h)
            if not n or n & have:
                keep[i] = True
                new |= n
        have |= new
    return [h for h, k in zip(hyps, keep) if k]


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal) if goal is not None else z3.BoolVal(True))
    ax = lib.theory(list(hyps) + ([goal] if goal is not None else []))
    for a in ax:
        s.add(a)
    return s.to_smt2()


def run(cmd, text, t):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t + 5)
        out = p.stdout.decode(errors='replace').strip().splitlines()
        r = out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        r = 'timeout'
    if r not in ('sat', 'unsat'):
        r = 'unknown'
    return r, time.time() - t0


def z3cmd(t, *opts):
    return [Z3, '-in', '-T:%d' % t] + list(opts)


def cvc5cmd(t, *opts):
    return ['cvc5', '--lang=smt2', '--tlimit=%d' % (t * 1000)] + list(opts) + ['-']


def cvc5text(text):
    return '(set-logic ALL)\n' + text.replace('(set-info :status unknown)', '')


def flatten_and(f, out):
    if z3.is_and(f):
        for c in f.children():
            flatten_and(c, out)
    else:
        out.append(f)


_uf = {}


def _ufn(name, sorts):
    key = (name,) + tuple(str(x) for x in sorts)
    if key not in _uf:
        _uf[key] = z3.Function('%s_%s' % (name, ''.join(str(x)[0] for x in sorts)), *sorts)
    return _uf[key]


def abstract(f, cache):
    """non-linear products, quotients and remainders as uninterpreted functions (a weaker theory)"""
    key = f.get_id()
    if key in cache and cache[key][0].eq(f):
        return cache[key][1]
    if z3.is_quantifier(f):
        b = abstract(f.body(), cache)
        if b.eq(f.body()):
            r = f
        else:
            vs = [z3.Const('%s!q%d' % (f.var_name(i), len(cache)), f.var_sort(i)) for i in range(f.num_vars())]
            bb = z3.substitute_vars(b, *reversed(vs))
            r = z3.ForAll(vs, bb) if f.is_forall() else z3.Exists(vs, bb)
    elif z3.is_app(f) and f.num_args():
        ch = [abstract(c, cache) for c in f.children()]
        k = f.decl().kind()
        num = lambda e: z3.is_int_value(e) or z3.is_rational_value(e)
        if k == z3.Z3_OP_MUL:
            cs = [c for c in ch if num(c)]
            xs = [c for c in ch if not num(c)]
            if len(xs) < 2:
                r = f.decl()(*ch) if len(ch) == 2 else z3.Product(ch)
            else:
                r = xs[0]
                for x in xs[1:]:
                    r = _ufn('mul', [r.sort(), x.sort(), r.sort()])(r, x)
                for c in cs:
                    r = c * r
        elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV, z3.Z3_OP_MOD) and not num(ch[1]):
            nm = {z3.Z3_OP_IDIV: 'idiv', z3.Z3_OP_DIV: 'rdiv', z3.Z3_OP_MOD: 'mod'}[k]
            r = _ufn(nm, [ch[0].sort(), ch[1].sort(), f.sort()])(*ch)
        elif all(a.eq(b) for a, b in zip(ch, f.children())):
            r = f
        elif k == z3.Z3_OP_AND:
            r = z3.And(ch)
        elif k == z3.Z3_OP_OR:
            r = z3.Or(ch)
        elif k == z3.Z3_OP_ADD:
            r = z3.Sum(ch)
        elif k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
        elif k == z3.Z3_OP_UMINUS:
            r = -ch[0]
        elif k == z3.Z3_OP_DISTINCT:
            r = z3.Distinct(*ch)
        else:
            r = f.decl()(*ch)
    else:
        r = f
    cache[key] = (f, r)
    return r


def smt2_abs(hyps, goal):
    """SMT text with non-linear arithmetic abstracted, None if there is none"""
    fs = list(hyps) + [goal]
    fs = fs[:-1] + lib.theory(fs) + fs[-1:]
    cache = {}
    gs = [abstract(f, cache) for f in fs]
    if all(a.eq(b) for a, b in zip(fs, gs)):
        return None
    s = z3.Solver()
    for h in gs[:-1]:
        s.add(h)
    s.add(z3.Not(gs[-1]))
    for key, f in _uf.items():
        if key[0] == 'mul' and key[1] == key[2]:
            x, y = z3.Const('x!c', f.domain(0)), z3.Const('y!c', f.domain(0))
            s.add(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
    return s.to_smt2()


CMP = {z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GE: lambda a, b: a >= b,
       z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GT: lambda a, b: a > b}


def smt2_mono(hyps, goal):
    """ground formulas with every product expanded and its monomials as atoms: linear combinations of products"""
    import core
    gs = [f for f in list(hyps) + [goal] if not core._hasq(f)]
    if not gs or core._hasq(goal) or len(gs) > 400:
        return None
    cache, atoms, hit = {}, {}, [False]

    def factors(e, out):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
            for c in e.children():
                factors(c, out)
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) or \
                z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)):
            n = int(str(e.arg(1)))
            if 2 <= n <= 6:
                for _ in range(n):
                    factors(e.arg(0), out)
            else:
                out.append(e)
        else:
            out.append(e)
        return out

    def go(e):
        key = e.get_id()
        if key in cache:
            return cache[key][1]
        r = e
        if z3.is_app(e) and e.num_args():
            k = e.decl().kind()
            if k in CMP and e.num_args() == 2 and z3.is_arith(e.arg(0)) and e.arg(0).sort() == e.arg(1).sort():
                d = go(z3.simplify(e.arg(0) - e.arg(1), som=True))
                z = z3.RealVal(0) if d.sort() == z3.RealSort() else z3.IntVal(0)
                r = CMP[k](d, z)
            elif k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                fs = factors(e, [])
                num = lambda x: z3.is_int_value(x) or z3.is_rational_value(x)
                cs, xs = [x for x in fs if num(x)], [x for x in fs if not num(x)]
                if len(xs) >= 2:
                    hit[0] = True
                    nm = (tuple(sorted(x.get_id() for x in xs)), e.sort().name())
                    if nm not in atoms:
                        atoms[nm] = (xs, z3.Const('mono!%d' % len(atoms), e.sort()))
                    r = atoms[nm][1]
                    for c in cs:
                        r = c * r
            else:
                ch = [go(c) for c in e.children()]
                if not all(a.eq(b) for a, b in zip(ch, e.children())):
                    r = z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not a.eq(b)]) if k not in (
                        z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR) else {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[k](ch)
        cache[key] = (e, r)
        return r
    out = [go(f) for f in gs]
    if not hit[0]:
        return None
    s = z3.Solver()
    for h in out[:-1]:
        s.add(h)
    s.add(z3.Not(out[-1]))
    return s.to_smt2()


def witnesses(f, terms):
    """replace existentials in positive position by a disjunction of instances (a stronger formula)"""
    import itertools
    hit = [False]

    def go(e, pos):
        if z3.is_quantifier(e):
            if (e.is_exists() and pos) or (e.is_forall() and not pos):
                n = e.num_vars()
                opts = [[t for t in terms if t.sort() == e.var_sort(i)] for i in range(n)]
                out = []
                for c in itertools.product(*opts):
                    out.append(go(z3.substitute_vars(e.body(), *reversed(c)), pos))
                if not out or len(out) > 60:
                    return e
                hit[0] = True
                return z3.Or(out) if pos else z3.And(out)
            return e
        if z3.is_not(e):
            return z3.Not(go(e.arg(0), not pos))
        if z3.is_and(e):
            return z3.And([go(c, pos) for c in e.children()])
        if z3.is_or(e):
            return z3.Or([go(c, pos) for c in e.children()])
        if z3.is_implies(e):
            return z3.Implies(go(e.arg(0), not pos), go(e.arg(1), pos))
        return e
    r = go(f, True)
    return r if hit[0] else None


class Job(object):
    """one obligation: SMT texts prepared in the main thread, solved by subprocesses"""
    def __init__(self, hyps, goal, hints=()):
        self.status = None
        self.backend, self.secs, self.detail = '', 0.0, ''
        if z3.is_true(z3.simplify(goal)):
            self.status, self.backend = 'proved', 'z3-simplify'
            return
        hs = []
        for h in hyps:
            flatten_and(h, hs)
        self.text = smt2(hs, goal)
        w = witnesses(goal, [z3.IntVal(0)])
        self.wit = smt2(hs, w) if w is not None else None
        self.abs = smt2_abs(hs, goal)
        self.mono = smt2_mono(relevant(hs, goal, 1), goal)
        self.near = []
        last = len(hs)
        for d in (1, 2, 3):
            r = relevant(hs, goal, d)
            if len(r) < last and (not self.near or len(r) != self.near[-1][2]):
                self.near.append((d, smt2(r, goal), len(r)))

    def plan(self, scale):
        q = lambda t: max(1, int(round(t * scale)))
        yield 'z3', z3cmd(q(2)), self.text, q(2)
        if self.abs is not None:
            yield 'z3 (linear part, within)', z3cmd(q(3)), self.abs, q(3)
        if self.mono is not None:
            yield 'z3 (monomials, within)', z3cmd(q(3)), self.mono, q(3)
        for d, t, _ in self.near:
            yield 'z3 (hypotheses within %d)' % d, z3cmd(q(2)), t, q(2)
        if self.wit is not None:
            yield 'z3 (witness 0 within)', z3cmd(q(3)), self.wit, q(3)
        yield 'z3 (no mbqi)', z3cmd(q(6), 'smt.mbqi=false'), self.text, q(6)
        for d, t, _ in self.near[:2]:
            yield 'cvc5 (hypotheses within %d)' % d, cvc5cmd(q(4)), cvc5text(t), q(4)
        yield 'cvc5', cvc5cmd(q(8)), cvc5text(self.text), q(8)
        yield 'z3 (case split)', z3cmd(q(10), 'smt.case_split=3', 'smt.random_seed=7'), self.text, q(10)
        yield 'cvc5 (enum)', cvc5cmd(q(10), '--enum-inst'), cvc5text(self.text), q(10)
        yield 'z3 (long)', z3cmd(q(20), 'smt.arith.solver=2', 'smt.random_seed=3'), self.text, q(20)

    def solve(self, scale=1.0, deadline=None):
        if self.status is not None:
            return
        self.sat = False
        for name, cmd, tx, t in self.plan(scale):
            if deadline is not None and time.time() > deadline:
                self.status, self.detail = 'undecided', 'out of time'
                return
            r, dt = run(cmd, tx, t)
            self.secs += dt
            if r == 'unsat':
                self.status, self.backend = 'proved', name
                return
            if r == 'sat' and 'within' not in name:
                self.sat = True
                self.status, self.backend, self.detail = 'failed', name, 'counterexample (sat)'
                return
        self.status, self.backend, self.detail = 'failed', 'z3, cvc5', 'not proved within the time limits'


class VacJob(object):
    """are the hypotheses contradictory?"""
    def __init__(self, hyps):
        self.text = smt2(hyps, None)
        self.bad = None

    def solve(self, t=3):
        r, dt = run(z3cmd(t), self.text, t)
        self.bad = r == 'unsat'
        self.result = r


def solve_all(jobs, workers=8, scale=1.0, deadline=None, again=True):
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(lambda j: j.solve(scale, deadline) if isinstance(j, Job) else j.solve(), jobs))
    # a time limit may have been missed on a busy machine: once more, with longer limits
    again = [j for j in jobs if isinstance(j, Job) and j.status == 'failed' and not j.sat][:4] if again else []
    for j in again:
        j.status = None
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: j.solve(3 * scale, time.time() + 150 * scale), again))
    for j in again:
        if j.status == 'undecided':
            j.status, j.detail = 'failed', 'not proved within the time limits'
