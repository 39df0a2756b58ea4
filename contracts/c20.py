"""C20: tree-search statistics, function by function."""
from common_c import *

ASSUMPTIONS = ['the ancestors of a node form a finite chain (tree); the induction over the chain is trusted, its step is an obligation',
               'actions are hashable with equality consistent with hashing',
               'a history is any sequence of the operations below: the mean and count invariant carries over it',
               'the game state, value, policy and rollout functions are arbitrary; floats are exact reals']
MC = 'ababe.mlearn.mcts'
TN = MC + '.TreeNode'
MT = MC + '.MCTS'
FIELDS = {'_parent', '_children', '_n_visits', '_Q', '_u', '_P'}


def node(v, parent=None, nm='', kids=False):
    """an arbitrary node"""
    X = v.X
    r = v.real_obj(TN, [parent, X.const('P', R)])
    if set(X.data(r)) != FIELDS:
        raise Unsupported('node fields')
    n = X.fresh('n' + nm)
    X.define(n >= 0)
    for f, s in (('_n_visits', n), ('_Q', X.fresh('Q' + nm, R)), ('_u', X.fresh('u' + nm, R)), ('_P', X.fresh('P' + nm, R))):
        X.setfield(r, f, s)
    return r


def give_children(v, r, name='act'):
    """arbitrary children with different actions"""
    X = v.X
    K = X.const('K')
    X.assume(K >= 0)
    act = X.func(name, [I], Item)
    k, k2 = X.const('k'), X.const('k')
    X.push(k, [k >= 0, k < K])
    c = node(v, r, 'c')
    X.pop()
    X.setdata(X.getfield(r, '_children'), Cat([For(k, K, Unit((act(k), c)))]))
    X.assume(All([k, k2], Implies(And(k >= 0, k < k2, k2 < K), act(k) != act(k2))))
    return K, act, c


def snap(X, r):
    return dict((f, X.getfield(r, f)) for f in FIELDS)


def unchanged(X, r, old, but=()):
    new = snap(X, r)
    return And([val_eq(X, new[f], old[f]) for f in FIELDS if f not in but])


def val_eq(X, a, b):
    if isinstance(a, Ref) or isinstance(b, Ref) or a is None or b is None:
        return same(a, b) or (a is None and b is None)
    return eq(X, a, b)


def new_node(v):
    X = v.X
    par, P = node(v), X.const('P', R)
    for p in (None, par):
        r = v.real_obj(TN, [p, P])
        if set(X.data(r)) != FIELDS:
            raise Unsupported('node fields')
        X.oblige('a new node has no visits, value zero and its prior as bonus',
                 And(eq(X, X.getfield(r, '_n_visits'), 0), eq(X, X.getfield(r, '_Q'), 0), eq(X, X.getfield(r, '_u'), P),
                     eq(X, X.getfield(r, '_P'), P)))
        X.oblige('a new node has the given parent and no children', And(val_eq(X, X.getfield(r, '_parent'), p),
                 Not(X.member(X.data(X.getfield(r, '_children')), lambda e: True))))


def update(root):
    def run(v):
        X = v.X
        par = None if root else node(v, nm='p')
        r = node(v, par)
        T, val, c = X.const('T', R), X.const('v', R), X.const('c', R)
        o = snap(X, r)
        po = None if root else snap(X, par)
        n, Q = o['_n_visits'], o['_Q']
        kids = X.data(o['_children'])
        X.assume(And(Q * z3.ToReal(n) == T, Implies(n == 0, Q == 0)))
        X.call(X.getattr(r, 'update'), [val, c])
        n2, Q2 = zv(X.getfield(r, '_n_visits')), real(X.getfield(r, '_Q'))
        X.oblige('one more visit', n2 == n + 1)
        X.oblige('the estimate is the mean of all values', Implies(n2 == n + 1, Q2 * z3.ToReal(n + 1) == T + val))
        if root:
            X.oblige('the bonus of a root stays', eq(X, X.getfield(r, '_u'), o['_u']))
        else:
            s = lib.sqrt(X, z3.ToReal(po['_n_visits']))
            X.oblige('the bonus comes from the prior, the visits of the parent and the own fresh count',
                     real(X.getfield(r, '_u')) * z3.ToReal(n + 2) == c * o['_P'] * s)
            X.oblige('the parent stays as it is', unchanged(X, par, po))
        X.oblige('prior, parent and children stay', unchanged(X, r, o, ('_n_visits', '_Q', '_u')))
        X.oblige('the children stay', X.data(o['_children']) is kids)
    return run


def update_recursive(root):
    def run(v):
        X = v.X
        par = None if root else node(v, nm='p')
        r = node(v, par)
        val, c = X.const('v', R), X.const('c', R)
        trace = []

        def rec(X_, self_, lv, cp):
            if not same(self_, r):
                trace.append(('rec', self_, lv, cp))
                return None
            return X_.inline(X_.lookup(X_.obj(r).cls, 'update_recursive').bind(None), [self_, lv, cp], {})

        def upd(X_, self_, lv, cp):
            trace.append(('upd', self_, lv, cp))
        X.contracts[TN + '.update_recursive'] = rec
        X.contracts[TN + '.update'] = upd
        X.focus.add(TN + '.update_recursive')
        f = X.lookup(X.obj(r).cls, 'update_recursive')
        X.focus.discard(TN + '.update_recursive')
        X.inline(f, [r, val, c], {})
        args = lambda e: same(e[2], val) and same(e[3], c)
        if not root and not any(e[0] == 'rec' for e in trace):
            raise Unsupported('ancestors are reached in another way')
        if root:
            X.oblige('the root is updated once with the value', len(trace) == 1 and trace[0][0] == 'upd' and
                     same(trace[0][1], r) and args(trace[0]))
        else:
            X.oblige('the ancestors are updated first, then the node, once each, with the same value',
                     len(trace) == 2 and trace[0][0] == 'rec' and same(trace[0][1], par) and args(trace[0]) and
                     trace[1][0] == 'upd' and same(trace[1][1], r) and args(trace[1]))
    return run


def views(v):
    X = v.X
    par = node(v, nm='p')
    for p in (None, par):
        r = node(v, p)
        o = snap(X, r)
        X.oblige('value plus bonus', eq(X, X.call(X.getattr(r, 'get_value'), []), o['_Q'] + o['_u']))
        X.oblige('is_root', Iff(fb(X.call(X.getattr(r, 'is_root'), [])), p is None))
        K, act, c = give_children(v, r)
        X.oblige('is_leaf', Iff(fb(X.call(X.getattr(r, 'is_leaf'), [])), K == 0))
        X.oblige('views change nothing', unchanged(X, r, o))


def expand(v):
    X = v.X
    r = node(v)
    K, act, c = give_children(v, r)
    o = snap(X, r)
    M = X.const('M')
    X.assume(M >= 0)
    a, p = X.func('new', [I], Item), X.func('prob', [I], R)
    m = X.const('m')
    X.call(X.getattr(r, 'expand'), [X.newlist(For(m, M, Unit((a(m), p(m)))))])
    t = X.data(X.getfield(r, '_children'))
    ls = leaves(X, t)
    if len(ls) != 2 or any(len(b) != 1 for b, _, _ in ls):
        raise Unsupported('children after expansion')
    (k,), d1, (k1, v1) = ls[0]
    (j,), d2, (k2, v2) = ls[1]
    X.oblige('the children there were keep their place', All([k], And(Iff(d1, And(k >= 0, k < K)),
             Implies(d1, And(k1 == act(k), same(v1, Ref(c.oid, list(c.idx[:-1]) + [k])))))))
    q = X.const('q')
    j2 = X.const('j')
    old = lambda x: Ex([q], And(q >= 0, q < K, act(q) == x))
    X.oblige('no child is replaced', All([j], Implies(d2, Not(old(k2)))))
    X.oblige('every new action is added once', All([j], Implies(And(j >= 0, j < M, Not(old(a(j)))),
             Ex([j2], And(j2 >= 0, j2 <= j, a(j2) == a(j), sub(fb(d2), [(j, j2)]))))))
    X.oblige('no action is added twice', All([j, j2], Implies(And(d2, sub(fb(d2), [(j, j2)]), j != j2), k2 != sub(k2, [(j, j2)]))))
    X.push(j, [d2])
    X.oblige('the action of a new child', eq(X, k2, a(j)))
    d = X.data(v2)
    f = lambda nm: X.getfield(v2, nm)
    X.oblige('a new child has its prior, no visits and this node as parent',
             And(X.obj(v2).cls is X.obj(r).cls, eq(X, f('_P'), p(j)), eq(X, f('_u'), p(j)), eq(X, f('_n_visits'), 0), eq(X, f('_Q'), 0),
                 same(f('_parent'), r), Not(X.member(X.data(f('_children')), lambda e: True))))
    X.pop()
    X.oblige('the node itself stays', unchanged(X, r, o))


def best(X, K, act, c, a, nd, score):
    """(a, nd) is an entry of the children with the greatest score"""
    if not isinstance(nd, Ref) or nd.oid != c.oid:
        raise Unsupported('result is not a child')
    i = nd.idx[-1]
    k = X.const('k')
    ck = Ref(c.oid, list(c.idx[:-1]) + [k])
    X.oblige('the result is a child with its action', And(zv(i) >= 0, zv(i) < K, eq(X, a, act(i))))
    X.oblige('no child is better', All([k], Implies(And(k >= 0, k < K), score(ck) <= score(nd))))


def select(v):
    X = v.X
    r = node(v)
    K, act, c = give_children(v, r)
    X.assume(K >= 1)
    o = snap(X, r)
    a, nd = X.call(X.getattr(r, 'select'), [])
    best(X, K, act, c, a, nd, lambda n: X.getfield(n, '_Q') + X.getfield(n, '_u'))
    X.oblige('selecting changes nothing', unchanged(X, r, o))


def tree(v, **kw):
    """an arbitrary search object"""
    X = v.X
    names = ['value', 'policy', 'rollout']
    fns = dict((n, X.alloc('obj', {}, None, meta={'call': kw.get(n)})) for n in names)
    par = dict(lmbda=X.const('lmbda', R), c_puct=X.const('c', R), rollout_limit=X.const('limit'), playout_depth=X.const('L'),
               n_playout=X.const('np'))
    r = v.real_obj(MT, [fns[n] for n in names], par)
    return r, par, fns


def stub(X, log, result=None):
    def f(X_, fn, *a):
        log.append(a)
        return result(*a) if result else None
    return f


def playout(v):
    X = v.X
    vals = []
    state = X.alloc('obj', {}, None)
    val, z = X.const('value', R), X.const('z')
    pol = X.alloc('gen', EMPTY)
    np_ = X.func('nprior', [Item], I)
    log = []
    nstate = {}
    moves = X.newlist()

    def do_move(X_, a):
        did.append(a)
        X_.setdata(moves, Cat([X_.data(moves), Unit(('move', a))]))
    X.setdata(state, {'do_move': PyFn(do_move)})

    def policy(X_, fn, s):
        if not same(s, state):
            raise Unsupported('policy of another state')
        n = X_.fresh('npol')
        X_.define(n >= 0)
        k = X_.const('k')
        pa, pp = X_.func('pa', [I], Item), X_.func('pp', [I], R)
        r = X_.newlist(For(k, n, Unit((pa(k), pp(k)))))
        lists.append(r)
        return r

    def value(X_, fn, s):
        log.append(('value', s))
        return val
    mc, par, fns = tree(v, policy=policy, value=value)
    cls = v.get(TN)
    newnode = lambda tag: X.alloc('obj', {}, cls, meta={'tag': tag})
    tag = lambda r: X.obj(r).meta and X.obj(r).meta.get('tag') if isinstance(r, Ref) else None
    root = newnode(('root',))
    X.setfield(mc, '_root', root)
    X.contracts[TN + '.is_leaf'] = lambda X_, n: X_.fresh('leaf', B)
    exp, sel, did, lists = [], [], [], []

    def expand_(X_, n, pr):
        exp.append((tag(n), list(X_.pc), any(same(pr, x) for x in lists)))
    X.contracts[TN + '.expand'] = expand_

    def select_(X_, n):
        a = X_.fresh('a', Item)
        sel.append((tag(n), a))
        return (a, newnode(('child', tag(n))))
    X.contracts[TN + '.select'] = select_
    ups = []
    cnt = X.newlist()

    def up(X_, n, lv, c):
        ups.append((tag(n), lv, c, list(X_.binders())))
        X_.setdata(cnt, Cat([X_.data(cnt), Unit(1)]))
    X.contracts[TN + '.update_recursive'] = up

    def roll(X_, self_, s, lim):
        log.append(('roll', s, lim))
        return z
    X.contracts[MT + '._evaluate_rollout'] = roll
    steps = []

    def tags(x):
        return tags(x.a) | tags(x.b) if isinstance(x, IteV) else {tag(x)}

    def carry(X_, loc, init, k):
        if tag(init) is None:
            return None
        t0 = tag(init)

        def step(X2, kk, nv):
            steps.append((t0 == ('root',), tags(nv), kk))
        return {'at': lambda kk: newnode(('at', str(kk))), 'step': step, 'after': lambda q: newnode(('end',))}
    X.hooks['carry'] = carry
    depth = X.const('depth')
    X.call(X.getattr(mc, '_playout'), [state, depth])
    if len(ups) != 1 or ups[0][3] or not steps:
        raise Unsupported('shape of a playout')
    (ok0, nt, kk) = steps[-1]
    at = ('at', str(kk))
    if not sel or not exp:
        raise Unsupported('shape of a playout')
    X.oblige('the descent starts at the root', ok0)
    X.oblige('one step goes to the selected child of the node', sel[-1][0] == at and ('child', at) in nt and nt <= {('child', at), at})
    X.oblige('only the node reached is expanded, by the policy for the state', exp[-1][0] == at and exp[-1][2])
    X.oblige('the selected action is played', bool(did) and same(did[-1], sel[-1][1]))
    X.oblige('the value goes up from the node the descent ended at', ups[0][0] == ('end',) and not ups[0][3])
    X.oblige('it goes up once', eq(X, X.tlen(X.data(cnt)), 1))
    X.oblige('with the exploration constant of the search', eq(X, ups[0][2], par['c_puct']))
    l = par['lmbda']
    lv = real(ups[0][1])
    X.oblige('the leaf value mixes value function and rollout', And(
        Implies(l <= 0, lv == (1 - l) * val), Implies(l >= 1, lv == l * z3.ToReal(z)),
        Implies(And(l > 0, l < 1), lv == (1 - l) * val + l * z3.ToReal(z))))
    X.oblige('value and rollout see the state reached', all(same(e[1], state) for e in log))
    X.oblige('the rollout limit is that of the search', all(same(e[2], par['rollout_limit']) for e in log if e[0] == 'roll'))


def rollout(v):
    X = v.X
    mc, par, fns = tree(v)
    played = X.newlist()
    w = X.const('winner')
    me = X.const('me')
    asked = []

    def policy(X_, fn, s):
        n = X_.fresh('npol')
        X_.define(n >= 0)
        k = X_.const('k')
        pa, pp = X_.func('pa', [I], Item), X_.func('pp', [I], R)
        return X_.newlist(For(k, n, Unit((pa(k), pp(k)))))
    X.own_meta = None
    roll = X.alloc('obj', {}, None, meta={'call': policy})
    fs = [f for f, x in X.data(mc).items() if same(x, fns['rollout'])]
    if len(fs) != 1:
        raise Unsupported('rollout policy')
    X.setfield(mc, fs[0], roll)

    def do_move(X_, a):
        X_.setdata(played, Cat([X_.data(played), Unit(1)]))

    def player(X_):
        t = X_.data(played)
        asked.append(not core._any_hist(t) and isinstance(t, Cat) and not t.ts)
        return me

    def winner(X_):
        return w
    state = X.alloc('obj', {'do_move': PyFn(do_move), 'get_current_player': PyFn(player), 'get_winner': PyFn(winner)}, None)
    lim = X.const('limit')
    r = X.call(X.getattr(mc, '_evaluate_rollout'), [state, lim])
    if not asked:
        raise Unsupported('player')
    X.assume(lim >= 0)
    X.oblige('the player is the one to move before the rollout', all(asked))
    X.oblige('a tie counts nothing', Implies(w == 0, eq(X, r, 0)))
    X.oblige('a win of the player counts one', Implies(And(w != 0, w == me), eq(X, r, 1)))
    X.oblige('a loss counts minus one', Implies(And(w != 0, w != me), eq(X, r, -1)))
    n = X.tlen(X.data(played))
    X.oblige('no more moves than the limit', zv(n) <= lim)


def get_move(v):
    X = v.X
    mc, par, fns = tree(v)
    state = X.alloc('obj', {}, None)
    runs = X.newlist()
    copies = []

    def copy(X_):
        c = X_.alloc('obj', {}, None)
        copies.append(c.oid)
        return c
    X.setdata(state, {'copy': PyFn(copy)})
    root = node(v)
    X.setfield(mc, '_root', root)
    K, act, c = give_children(v, root)
    X.assume(K >= 1)
    args = []

    def play(X_, self_, s, d):
        args.append((isinstance(s, Ref) and s.oid in copies, d))
        X_.setdata(runs, Cat([X_.data(runs), Unit(1)]))
    X.contracts[MT + '._playout'] = play
    a = X.call(X.getattr(mc, 'get_move'), [state])
    X.oblige('every playout gets a copy of the state and the depth of the search', all(ok and same(d, par['playout_depth']) for ok, d in args))
    n = X.tlen(X.data(runs))
    X.oblige('as many playouts as requested', Implies(par['n_playout'] >= 0, eq(X, n, par['n_playout'])))
    k, q = X.const('k'), X.const('q')
    nv = lambda i: X.getfield(Ref(c.oid, list(c.idx[:-1]) + [i]), '_n_visits')
    X.oblige('the move is a most visited action of the root', Ex([k], And(k >= 0, k < K, eq(X, a, act(k)),
             All([q], Implies(And(q >= 0, q < K), nv(q) <= nv(k))))))


def move_on(known):
    def run(v):
        X = v.X
        mc, par, fns = tree(v)
        root = node(v)
        X.setfield(mc, '_root', root)
        K, act, c = give_children(v, root)
        x = X.const('x', Item)
        i = X.const('w')
        j = X.const('j')
        if known:
            X.assume(And(i >= 0, i < K, act(i) == x))
        else:
            X.assume(All([j], Implies(And(j >= 0, j < K), act(j) != x)))
        ci = Ref(c.oid, list(c.idx[:-1]) + [i])
        old = snap(X, ci)
        X.call(X.getattr(mc, 'update_with_move'), [x])
        new = lib.resolve(X, X.getfield(mc, '_root'))
        if not isinstance(new, Ref):
            raise Unsupported('new root')
        par2 = lib.resolve(X, X.getfield(new, '_parent'))
        X.oblige('the new root has no parent', lib.is_(X, par2, None))
        if known:
            if new.oid != c.oid:
                raise Unsupported('new root')
            X.oblige('the new root is the child of the move', eq(X, new.idx[-1], i))
            X.oblige('its statistics stay', And([eq(X, X.getfield(new, f), sub(old[f], [])) for f in ('_n_visits', '_Q', '_u', '_P')]))
            X.oblige('its subtree stays', same(X.getfield(ci, '_children'), old['_children']))
        else:
            X.oblige('an unknown move gives a fresh root', And(eq(X, X.getfield(new, '_n_visits'), 0), eq(X, X.getfield(new, '_Q'), 0),
                     eq(X, X.getfield(new, '_P'), 1), Not(X.member(X.data(X.getfield(new, '_children')), lambda e: True))))
    return run


UNITS = [
    ('TreeNode()', new_node),
    ('TreeNode.update of a root', update(True)),
    ('TreeNode.update below a root', update(False)),
    ('TreeNode.update_recursive of a root', update_recursive(True)),
    ('TreeNode.update_recursive below a root', update_recursive(False)),
    ('TreeNode.get_value, is_leaf, is_root', views),
    ('TreeNode.expand', expand),
    ('TreeNode.select', select),
    ('MCTS._playout', playout),
    ('MCTS._evaluate_rollout', rollout),
    ('MCTS.get_move', get_move),
    ('MCTS.update_with_move to a known action', move_on(True)),
    ('MCTS.update_with_move to an unknown action', move_on(False)),
]
