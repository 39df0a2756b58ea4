from common import *
from ababe.mlearn.arrange import random_walk_arrange, ArrangeProblem
from ababe.mlearn import arrangeAgent
RULE = ('random connected graphs (paths, stars, grids, random, complete) x goal sizes up to the whole graph x seeds, and the two '
        'built-in lattice problems; distinct by JSON text')


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        n = rng.randint(1, 14)
        kind = rng.choice(['path', 'star', 'rand', 'full', 'cycle'])
        E = set()
        if kind == 'path' or kind == 'cycle':
            E |= set((j, j + 1) for j in range(n - 1))
            if kind == 'cycle' and n > 2:
                E.add((0, n - 1))
        elif kind == 'star':
            E |= set((0, j) for j in range(1, n))
        elif kind == 'full':
            E |= set((a, b) for a in range(n) for b in range(a))
        else:
            E |= set((rng.randrange(j), j) for j in range(1, n))
            for _ in range(rng.randint(0, n)):
                a, b = rng.randrange(n), rng.randrange(n)
                if a != b:
                    E.add((min(a, b), max(a, b)))
        yield {'k': 'graph', 'n': n, 'E': sorted(E), 'start': rng.randrange(n),
               'goal': rng.choice([n, rng.randint(1, n)]), 'seed': rng.randrange(10 ** 6), 'lab': rng.choice(['int', 'tup', 'str'])}
        if i % 6 == 0:
            yield {'k': 'boron', 'n': rng.randint(1, 7), 'seed': rng.randrange(10 ** 6)}
        if i % 6 == 3:
            yield {'k': 'fcc', 'n': rng.randint(1, 4), 'seed': rng.randrange(10 ** 6)}


def verify(path, start, goal, nb):
    need(isinstance(path, list), 'not a list')
    need(len(path) == goal, 'has', len(path), 'positions instead of', goal)
    need(path[0] == start, 'does not start at the start position')
    need(len(set(path)) == len(path), 'repeats a position:', path)
    for i in range(1, len(path)):
        need(any(path[i] in nb(q) for q in path[:i]), 'position', path[i], 'touches no earlier one in', path)


def check(c):
    random.seed(c['seed'])
    if c['k'] == 'graph':
        lab = {'int': lambda i: i, 'tup': lambda i: (i, -i), 'str': lambda i: 'p%d' % i}[c['lab']]
        adj = dict((lab(i), []) for i in range(c['n']))
        for a, b in c['E']:
            adj[lab(a)].append(lab(b))
            adj[lab(b)].append(lab(a))

        class P(ArrangeProblem):
            def get_start_position(self):
                return lab(c['start'])

            def is_goal(self, k):
                return k == c['goal']

            def get_neighbors(self, p):
                return set(adj[p]) if c['seed'] % 2 else list(adj[p])
        for rep in range(3):
            verify(random_walk_arrange(P()), lab(c['start']), c['goal'], lambda q: adj[q])
    else:
        p = (arrangeAgent.Boron2dArrangeProblem if c['k'] == 'boron' else arrangeAgent.FCC3dArrangeProblem)(c['n'])
        if c['k'] == 'boron':
            m, dim = [[2, 0], [1, 1.732058]], 2
        else:
            m, dim = LATS['fcc'], 3
        memo = {}

        def nb(q):
            if q not in memo:
                memo[q] = set(x for x in itertools.product(range(c['n']), repeat=dim) if x != q and math.sqrt(sum(
                    sum((x[k] - q[k]) * m[k][j] for k in range(dim)) ** 2 for j in range(dim))) <= 2.1)
            return memo[q]
        start = tuple([c['n'] // 2] * dim)
        path = random_walk_arrange(p)
        verify(path, start, c['n'], nb)
        need(all(0 <= v < c['n'] for q in path for v in q), 'position outside the grid')
