"""C01: symmetry reduction keeps exactly one structure of every class."""
from common_c import *

ASSUMPTIONS = ['the permutation table is a group of permutations of the sites (contract of get_symmetry_permutation, see C05)',
               'xxh64 is injective on the number arrays compared, which have one dtype',
               'generator bodies are run eagerly; interleaving of generators is covered by the bounded part only']
OG = 'ababe.stru.sogen.OccupyGenerator'


def related(g, nums, j, k, n):
    m, i = z3.Int('m'), z3.Int('i')
    return z3.Exists([m], And(m >= 0, m < g.M, All([i], Implies(And(i >= 0, i < n), nums(j, g.perm(m, i)) == nums(k, i)))))


def setup(v):
    p, n = parent_cell(v)
    g = spglib_contracts(v, p, n)
    og = v.real_obj(OG, [p])
    return p, n, g, og


def lemmas(X, g, n):
    A = z3.DeclareSort('Occ')
    f = z3.Function('occ', A, I, I)
    a, b, c = z3.Consts('a b c', A)
    m, m2, i = ints('m', 'm2', 'i')

    def by(x, y, mm):
        return And(mm >= 0, mm < g.M, All([i], Implies(And(i >= 0, i < n), f(x, g.perm(mm, i)) == f(y, i))))
    X.oblige('being related is reflexive', All([a], by(a, a, g.e)))
    X.oblige('being related is symmetric', All([a, b, m], Implies(by(a, b, m), by(b, a, g.inv(m)))))
    X.oblige('being related is transitive', All([a, b, c, m, m2], Implies(And(by(a, b, m), by(b, c, m2)), by(a, c, g.comp(m, m2)))))


def reduce_unit(v):
    X = v.X
    p, n, g, og = setup(v)
    lemmas(X, g, n)
    K = X.const('K')
    X.assume(K >= 0)
    gen, nums = stream(v, p, n, K)
    res = X.call(X.getattr(og, 'gen_2nodup_gen'), [gen])
    ls = leaves(X, X.tree_of(res))
    if len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('the reduced stream is not one filtered pass over its input')
    ks, dom, cell = ls[0]
    k = ks[0]
    E = lambda j: sub(fb(dom), [(k, zv(j))])
    kk, jj, i = X.const('k'), X.const('j'), X.const('i')
    fn, ln = numbers_fn(X, cell)
    X.oblige('an emitted structure is the input structure of its position',
             All([k], Implies(dom, And(k >= 0, k < K, eq(X, ln, n), All([i], Implies(And(i >= 0, i < n), fn(i) == nums(k, i)))))))
    X.oblige('an emitted structure keeps lattice and positions', All([k], Implies(dom, same_frame(X, cell, p))))
    rel = lambda a, b: related(g, nums, a, b, n)
    X.oblige('no two emitted structures are related',
             All([jj, kk], Implies(And(E(jj), E(kk), jj < kk), Not(rel(jj, kk)))))
    X.oblige('every structure that is not emitted is related to an emitted earlier one',
             All([kk], Implies(And(kk >= 0, kk < K, Not(E(kk))), Ex([jj], And(jj >= 0, jj < kk, E(jj), rel(jj, kk))))))


def equiv_unit(v):
    X = v.X
    p, n, g, og = setup(v)
    i = X.const('i')
    a, fa = sym_arr(X, 'a', (n,), I)
    b, fbb = sym_arr(X, 'b', (n,), I)
    ca, cb = cell_like(v, p, n, a), cell_like(v, p, n, b)
    r = X.truth(X.call(X.getattr(og, 'is_equivalent'), [ca, cb]))
    w = related(g, lambda c, i: fa(i) if c == 0 else fbb(i), 0, 1, n)
    X.oblige('reported equivalent implies related', Implies(r, w))
    X.oblige('related implies reported equivalent', Implies(w, r))


def compose(name, dup, mk):
    """gen_nodup... is the reduction of gen_dup... with the same arguments"""
    def run(v):
        X = v.X
        p, n, g, og = setup(v)
        args, pre = mk(X, v)
        rec = {}

        def red(X_, self_, gen):
            if not same(self_, og):
                raise Unsupported('another generator object')
            t = X_.iter_tree(gen)
            r = X_.alloc('gen', EMPTY, meta={'reduced': t})
            return r
        X.contracts[OG + '.gen_2nodup_gen'] = red
        tag = {}

        def dupc(X_, self_, *a, **kw):
            f = X_.lookup(X_.obj(og).cls, dup)
            outs = dict(zip([q.arg for q in f.node.args.args][1:], a))
            outs.update(kw)
            return X_.alloc('gen', Cat([Unit(('dup', tuple(outs.get(q.arg) for q in f.node.args.args[1:])))]))
        X.contracts[OG + '.' + dup] = dupc
        res = X.call(X.getattr(og, name), list(args))
        src = X.obj(res).meta.get('reduced') if isinstance(res, Ref) and X.obj(res).meta else None
        if src is None:
            raise Unsupported('not a call of the reduction')
        u = src.ts if isinstance(src, Cat) else (src,)
        ok = len(u) == 1 and isinstance(u[0], Unit) and isinstance(u[0].v, tuple) and u[0].v[0] == 'dup' and \
            len(u[0].v[1]) == len(args)
        X.oblige('%s is the reduction of %s with the same request' % (name, dup),
                 And(ok, *[eq(X, x, y) if ok else False for x, y in zip(u[0].v[1], args)]) if ok else False)
    return run


def specie(X, name):
    z = X.const('Z_' + name)
    return X.alloc('obj', {'Z': z}, None)


def count(X):
    n = X.const('n')
    X.assume(n >= 0)
    return n


UNITS = [
    ('OccupyGenerator.gen_2nodup_gen', reduce_unit),
    ('OccupyGenerator.is_equivalent', equiv_unit),
    ('OccupyGenerator.gen_nodup_unitary', compose('gen_nodup_unitary', 'gen_dup_unitary', lambda X, v: ([count(X), specie(X, 's')], None))),
    ('OccupyGenerator.gen_nodup', compose('gen_nodup', 'gen_dup', lambda X, v: ([X.const('w', Item), count(X), specie(X, 's')], None))),
    ('OccupyGenerator.gen_nodup_of_ele', compose('gen_nodup_of_ele', 'gen_dup_of_ele', lambda X, v: ([specie(X, 'e'), count(X), specie(X, 's')], None))),
    ('OccupyGenerator.gen_nodup_trinary_alloy', compose('gen_nodup_trinary_alloy', '_gen_dup_trinary_alloy',
                                                       lambda X, v: ([specie(X, 's'), count(X), specie(X, 't'), count(X)], None))),
]
