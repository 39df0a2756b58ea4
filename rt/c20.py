from common import *
from ababe.mlearn.mcts import TreeNode, MCTS
RULE = ('random trees with random update/expand/select histories checked against exact rational bookkeeping, and whole searches '
        'on random games with deterministic policies against an independent reference search; distinct by JSON text')


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(3, 40)):
            ops.append([rng.choice(['upd', 'upr', 'upr', 'exp', 'sel', 'exp']), rng.randrange(1000),
                        rng.randrange(-64, 65) / 32., rng.choice([0.5, 1, 5, 2.25]),
                        [[rng.randrange(5), rng.randrange(1, 17) / 16.] for _ in range(rng.randint(0, 4))]])
        yield {'k': 'tree', 'ops': ops}
        yield {'k': 'search', 'seed': rng.randrange(10 ** 6), 'lm': rng.choice([0, 0, .5, 1, .25]), 'c': rng.choice([5, 1, .5]),
               'depth': rng.randint(1, 6), 'np': rng.choice([1, 2, 5, 20, 60]), 'len': rng.randint(1, 6), 'br': rng.randint(1, 4),
               'lim': rng.choice([500, 2, 1]), 'moves': rng.randint(1, 3)}


def children(n):
    return n._children


def check(c):
    if c['k'] == 'tree':
        root = TreeNode(None, 1.0)
        nodes = [root]
        M = {id(root): dict(n=0, tot=F(0), u=F(1), P=1.0, par=None, ch={}, node=root)}
        m0 = M[id(root)]

        def mupd(m, v, cp):
            m['n'] += 1
            m['tot'] += F(v)
            if m['par'] is not None:
                m['u'] = cp * m['P'] * math.sqrt(m['par']['n']) / (1 + m['n'])

        def chk():
            for nd in nodes:
                m = M[id(nd)]
                need(nd._n_visits == m['n'], 'visits', nd._n_visits, 'instead of', m['n'])
                q = float(m['tot'] / m['n']) if m['n'] else 0
                need(abs(nd._Q - q) < 1e-9, 'mean value', nd._Q, 'instead of', q)
                need(abs(nd._u - float(m['u'])) < 1e-9, 'bonus', nd._u, 'instead of', float(m['u']))
                need(abs(nd.get_value() - (q + float(m['u']))) < 1e-9, 'value plus bonus')
                need(nd._P == m['P'], 'prior')
                need(set(nd._children) == set(m['ch']), 'children', list(nd._children))
                for a in m['ch']:
                    need(nd._children[a] is m['ch'][a]['node'], 'child', a, 'was replaced')
                    need(nd._children[a]._parent is nd, 'parent of child', a)
                need(nd.is_leaf() == (not m['ch']), 'is_leaf')
                need(nd.is_root() == (m['par'] is None), 'is_root')
        for o, i, v, cp, pr in c['ops']:
            nd = nodes[i % len(nodes)]
            m = M[id(nd)]
            if o == 'upd':
                nd.update(v, cp)
                mupd(m, v, cp)
            elif o == 'upr':
                nd.update_recursive(v, cp)
                ch = []
                q = m
                while q is not None:
                    ch.append(q)
                    q = q['par']
                for q in ch[::-1]:
                    mupd(q, v, cp)
            elif o == 'exp':
                nd.expand([(a, p) for a, p in pr])
                for a, p in pr:
                    if a not in m['ch']:
                        need(a in nd._children, 'no child for action', a)
                        k = nd._children[a]
                        m['ch'][a] = dict(n=0, tot=F(0), u=F(p), P=p, par=m, ch={}, node=k)
                        M[id(k)] = m['ch'][a]
                        nodes.append(k)
            elif o == 'sel' and m['ch']:
                a, k = nd.select()
                need(nd._children.get(a) is k, 'selected action and node do not belong together')
                need(all(k.get_value() >= x.get_value() for x in nd._children.values()), 'selected child is not best')
            chk()
        return

    # a whole search on a random game tree
    class Game(object):
        def __init__(self, hist=(), pl=1):
            self.h, self.pl = hist, pl

        def copy(self):
            return Game(self.h, self.pl)

        def do_move(self, a):
            need(a in [x for x, p in legal(self.h)], 'illegal move', a, 'after', self.h)
            self.h += (a,)
            self.pl = -self.pl

        def get_current_player(self):
            return self.pl

        def get_winner(self):
            return winner(self.h)

    def rnd(h, what):
        return random.Random('%d|%r|%s' % (c['seed'], h, what))

    def legal(h):
        if len(h) >= c['len']:
            return []
        r = rnd(h, 'l')
        k = r.randint(1, c['br'])
        return [(('m', j), r.randrange(1, 1000) / 1000. + j * 1e-5) for j in range(k)]

    def winner(h):
        return rnd(h, 'w').choice([1, -1, 0])

    def value(h):
        return rnd(h, 'v').randrange(-1000, 1000) / 1000.
    calls = {'v': 0}

    def vf(s):
        calls['v'] += 1
        return value(s.h)
    mc = MCTS(vf, lambda s: legal(s.h), lambda s: legal(s.h), lmbda=c['lm'], c_puct=c['c'], rollout_limit=c['lim'],
              playout_depth=c['depth'], n_playout=c['np'])

    class N(object):
        def __init__(self, par, P):
            self.par, self.P, self.u, self.n, self.Q, self.ch = par, P, P, 0, 0., {}

    def ref(root, h0, pl0):
        for _ in range(c['np']):
            h, pl, nd = h0, pl0, root
            for i in range(c['depth']):
                if not nd.ch:
                    ac = legal(h)
                    if not ac:
                        break
                    for a, p in ac:
                        nd.ch[a] = N(nd, p)
                a = max(nd.ch, key=lambda x: nd.ch[x].Q + nd.ch[x].u)
                nd = nd.ch[a]
                h += (a,)
                pl = -pl
            v = value(h) if c['lm'] < 1 else 0
            z = 0
            if c['lm'] > 0:
                hh = h
                for i in range(c['lim']):
                    ac = legal(hh)
                    if not ac:
                        break
                    hh += (max(ac, key=lambda x: x[1])[0],)
                w = winner(hh)
                z = 0 if w == 0 else (1 if w == pl else -1)
            lv = (1 - c['lm']) * v + c['lm'] * z
            chain = []
            q = nd
            while q is not None:
                chain.append(q)
                q = q.par
            for q in chain[::-1]:
                q.n += 1
                q.Q += (lv - q.Q) / q.n
                if q.par is not None:
                    q.u = c['c'] * q.P * math.sqrt(q.par.n) / (1 + q.n)

    def cmp(a, b, path=()):
        need(a._n_visits == b.n, 'visits at', path, a._n_visits, 'instead of', b.n)
        need(abs(a._Q - b.Q) < 1e-9, 'value at', path, a._Q, 'instead of', b.Q)
        need(abs(a._u - b.u) < 1e-9, 'bonus at', path)
        need(set(a._children) == set(b.ch), 'children at', path)
        for x in b.ch:
            need(a._children[x]._parent is a, 'parent link at', path + (x,))
            cmp(a._children[x], b.ch[x], path + (x,))
    g = Game()
    rroot = N(None, 1.0)
    for mv in range(c['moves']):
        if not legal(g.h):
            break
        h0, p0 = g.h, g.pl
        a = mc.get_move(g)
        need((g.h, g.pl) == (h0, p0), 'the search changed the game')
        ref(rroot, h0, p0)
        cmp(mc._root, rroot)
        best = max(x.n for x in rroot.ch.values())
        need(a in rroot.ch and rroot.ch[a].n == best, 'returned action', a, 'is not a most visited one')
        g.do_move(a)
        old = mc._root._children[a]
        mc.update_with_move(a)
        need(mc._root is old and mc._root._parent is None and mc._root.is_root(), 'subtree of the move is not the new root')
        rroot = rroot.ch[a]
        rroot.par = None
        cmp(mc._root, rroot)
    mc.update_with_move('never seen')
    need(mc._root._n_visits == 0 and not mc._root._children and mc._root._parent is None, 'unknown move must start a new tree')
