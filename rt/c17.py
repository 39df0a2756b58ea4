from common import *
from ababe.mlearn.dsutils import RandomPopSet
RULE = ('random histories of add/push/discard/remove/random_pop/get_random/pop/clear/set operators over small and mixed item '
        'pools, checked after every step against a Python set; distinct by JSON text')
OPS = ['add', 'push', 'add', 'push', 'discard', 'discard', 'rpop', 'rpop', 'get', 'remove', 'ior', 'iand', 'isub', 'ixor',
       'or', 'and', 'sub', 'xor', 'cmp', 'pop', 'clear', 'iter2']


def cases(rng, tier):
    yield {'k': 'hist', 'init': None, 'ops': [['rpop', 0, []], ['get', 0, []], ['add', 1, []], ['rpop', 0, []], ['rpop', 0, []]],
           'seed': 1}
    while True:
        pool = rng.choice([4, 8, 30])
        yield {'k': 'hist', 'init': rng.choice([None, [], [rng.randrange(pool) for _ in range(rng.randint(0, 8))]]),
               'ops': [[rng.choice(OPS[:10] if rng.random() < .8 else OPS), rng.randrange(pool),
                        [rng.randrange(pool) for _ in range(rng.randint(0, 4))]] for _ in range(rng.randint(5, 60))],
               'seed': rng.randrange(10 ** 6)}


def item(i):
    return [i, (i, i + 1), 'x%d' % i, None if i == 3 else float(i), False if i == 4 else (i,)][i % 5]


def check(c):
    random.seed(c['seed'])
    s = RandomPopSet() if c['init'] is None else RandomPopSet([item(i) for i in c['init']])
    m = set() if c['init'] is None else set(item(i) for i in c['init'])
    other = RandomPopSet([item(1), item(2)])
    pool = [item(i) for i in range(30)]

    def same(x, y):
        l = list(x)
        need(len(l) == len(y) and set(l) == y, 'iteration gives', l, 'instead of', y)
        need(len(x) == len(y), 'len', len(x), 'instead of', len(y))
        for i in pool:
            need((i in x) == (i in y), 'membership of', i)
    same(s, m)
    for o, i, l in c['ops']:
        x = item(i)
        ll = [item(j) for j in l]
        if o in ('add', 'push'):
            getattr(s, o)(x)
            m.add(x)
        elif o == 'discard':
            s.discard(x)
            m.discard(x)
        elif o == 'remove':
            try:
                s.remove(x)
                need(x in m, 'removed a non-member')
            except KeyError:
                need(x not in m, 'KeyError for a member')
            m.discard(x)
        elif o == 'rpop':
            y = s.random_pop()
            if m:
                need(y in m, 'popped', y, 'which is not a member')
                m.discard(y)
            else:
                need(y is None, 'popped', y, 'from the empty set')
        elif o == 'get':
            y = s.get_random()
            need((y in m) if m else y is None, 'get_random gives', y)
        elif o == 'pop':
            if m:
                y = s.pop()
                need(y in m, 'popped', y)
                m.discard(y)
        elif o == 'clear':
            s.clear()
            m = set()
        elif o == 'ior':
            s |= RandomPopSet(ll)
            m |= set(ll)
        elif o == 'iand':
            s &= set(ll)
            m &= set(ll)
        elif o == 'isub':
            s -= set(ll)
            m -= set(ll)
        elif o == 'ixor':
            s ^= RandomPopSet(ll)
            m ^= set(ll)
        elif o in ('or', 'and', 'sub', 'xor'):
            t = RandomPopSet(ll)
            r = {'or': lambda: s | t, 'and': lambda: s & t, 'sub': lambda: s - t, 'xor': lambda: s ^ t}[o]()
            q = {'or': m | set(ll), 'and': m & set(ll), 'sub': m - set(ll), 'xor': m ^ set(ll)}[o]
            same(r, q)
            same(t, set(ll))
        elif o == 'cmp':
            need((s == set(ll)) == (m == set(ll)), '==')
            need((s <= set(ll)) == (m <= set(ll)), '<=')
            need(s.isdisjoint(ll) == m.isdisjoint(ll), 'isdisjoint')
        elif o == 'iter2':
            need(sorted(map(repr, s)) == sorted(map(repr, s)), 'iteration not repeatable')
        same(s, m)
    same(other, set([item(1), item(2)]))
    # every member can come up in a random pop, and only members
    if 2 <= len(m) <= 4:
        seen = set()
        for k in range(60):
            seen.add(s.get_random())
        need(seen == m, 'random choice never gives', m - seen)
    # draining gives every member once
    got = []
    for _ in range(len(m)):
        got.append(s.random_pop())
    need(len(got) == len(m) and set(got) == m and len(s) == 0 and not list(s), 'draining gave', got)
