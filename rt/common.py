# Runtime side of the checks: runs the REAL code from /repo under the project's
# own interpreter and compares it with independent oracles (pure Python, exact
# rationals where possible).  Bounded: it is the replay harness of the proofs
# and the labelled stand-in for what the prover cannot reach.
from __future__ import print_function
import os, sys, math, random, itertools, json
from fractions import Fraction as F

REPO = os.environ.get('ABABE_REPO', '/repo')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')


class _Bar(object):
    """progress bar that shows nothing (the real one writes to the terminal)"""
    def __init__(self, *a, **k):
        pass

    def __call__(self, it, *a, **k):
        return _It(it)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: self


class _It(object):
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


import progressbar
progressbar.ProgressBar = _Bar

import numpy as np
import spglib
import ababe
assert os.path.realpath(ababe.__file__).startswith(os.path.realpath(REPO)), ababe.__file__

from ababe.stru.element import Specie, GhostSpecie
from ababe.stru.scaffold import GeneralCell, ModifiedCell, SitesGrid, CStru
from ababe.stru.site import Site

PT = json.load(open(os.path.join(REPO, 'ababe/stru/pt.json')))
NAME = dict((v['Atomic no'], k) for k, v in PT.items())
ZS = sorted(NAME)
REAL = [z for z in ZS if z]


class Fail(Exception):
    pass


def need(cond, *msg):
    if not cond:
        raise Fail(' '.join(str(m) for m in msg))


def ints(a):
    return tuple(int(x) for x in a)


def rows(a):
    return [[float(x) for x in r] for r in a]


def close(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and (a.size == 0 or float(np.max(np.abs(a - b))) <= tol)


# ------------------------------------------------------------------ cells
SQ3 = math.sqrt(3)
LATS = {
    'sc': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'fcc': [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]],
    'bcc': [[-.5, -.5, -.5], [-.5, .5, .5], [.5, -.5, .5]],
    'hex': [[1, 0, 0], [-.5, SQ3 / 2, 0], [0, 0, 1.6]],
    'tet': [[1, 0, 0], [0, 1, 0], [0, 0, 1.3]],
    'ort': [[1, 0, 0], [0, 1.2, 0], [0, 0, 1.5]],
    'mono': [[1, 0, 0], [0, 1.2, 0], [.3, 0, 1.5]],
    'tri': [[1, 0, 0], [.2, 1.1, 0], [.3, .25, 1.4]],
    'triflat': [[0, 0, 20], [1, 0, 0], [.5, SQ3 / 2, 0]],
}


def spec(lat, pos, num, a=4.0):
    return {'lat': [[x * a for x in r] for r in (LATS[lat] if isinstance(lat, str) else lat)],
            'pos': [list(p) for p in pos], 'num': list(num)}


def mul3(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def inv3(H):
    """exact inverse of an integer matrix, as Fractions"""
    H = [[F(int(x)) for x in r] for r in H]
    n = 3
    A = [H[i] + [F(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                m = A[r][c]
                A[r] = [x - m * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def super_spec(s, H):
    """supercell of a spec by an upper triangular H, without using the repo"""
    Hi = [[float(x) for x in r] for r in inv3(H)]
    lat = mul3(H, s['lat'])
    pos, num = [], []
    for i in range(H[0][0]):
        for j in range(H[1][1]):
            for k in range(H[2][2]):
                for p, z in zip(s['pos'], s['num']):
                    q = [p[0] + i, p[1] + j, p[2] + k]
                    f = [sum(q[t] * Hi[t][c] for t in range(3)) for c in range(3)]
                    pos.append([x - math.floor(x + 1e-9) for x in f])
                    num.append(z)
    return {'lat': lat, 'pos': pos, 'num': num}


PRIM = {
    'sc': spec('sc', [[0, 0, 0]], [29]),
    'fcc': spec('fcc', [[0, 0, 0]], [29]),
    'bcc': spec('bcc', [[0, 0, 0]], [26]),
    'tri1': spec('tri', [[0, 0, 0]], [11]),
    'hex1': spec('hex', [[0, 0, 0]], [12]),
    'hcp': spec('hex', [[1 / 3., 2 / 3., .25], [2 / 3., 1 / 3., .75]], [12, 12]),
    'zb': spec('fcc', [[0, 0, 0], [.25, .25, .25]], [30, 16]),
    'dia': spec('fcc', [[0, 0, 0], [.25, .25, .25]], [14, 14]),
    'nacl': spec('fcc', [[0, 0, 0], [.5, .5, .5]], [11, 17]),
    'cscl': spec('sc', [[0, 0, 0], [.5, .5, .5]], [55, 17]),
    'perov': spec('sc', [[.5, .5, .5], [0, 0, 0], [.5, 0, 0], [0, .5, 0], [0, 0, .5]], [20, 22, 8, 8, 8]),
    'rutile': spec([[1, 0, 0], [0, 1, 0], [0, 0, .64]],
                   [[0, 0, 0], [.5, .5, .5], [.305, .305, 0], [.695, .695, 0], [.195, .805, .5], [.805, .195, .5]],
                   [22, 22, 8, 8, 8, 8]),
    'mono2': spec('mono', [[0.1, 0, 0.2], [.63, .5, .4]], [11, 9]),
    'tri2': spec('tri', [[0.1, 0.15, 0.2], [.63, .52, .41]], [11, 9]),
    'graphene': spec([[1, 0, 0], [-.5, SQ3 / 2, 0], [0, 0, 6]], [[1 / 3., 2 / 3., .5], [2 / 3., 1 / 3., .5]], [6, 6]),
    'bnsheet': spec([[1, 0, 0], [-.5, SQ3 / 2, 0], [0, 0, 6]], [[1 / 3., 2 / 3., .5], [2 / 3., 1 / 3., .5]], [5, 7]),
}


def gcell(s, **kw):
    return GeneralCell(np.array(s['lat'], dtype=float), np.array(s['pos'], dtype=float),
                       np.array(s['num']), **kw)


def cell_of(c):
    """JSON-able snapshot of a GeneralCell"""
    return {'lat': rows(c.lattice), 'pos': rows(c.positions), 'num': list(ints(c.numbers))}


def random_hnf(rng, n):
    fs = [(a, c, n // a // c) for a in range(1, n + 1) if n % a == 0
          for c in range(1, n // a + 1) if (n // a) % c == 0]
    a, c, f = rng.choice(fs)
    return [[a, rng.randrange(c), rng.randrange(f)], [0, c, rng.randrange(f)], [0, 0, f]]


def shuffled(rng, s):
    """same crystal: atoms permuted, moved to other periodic images"""
    k = list(range(len(s['num'])))
    rng.shuffle(k)
    pos = [[x + rng.choice([0, 0, 0, 1, -1, 2]) for x in s['pos'][i]] for i in k]
    return {'lat': s['lat'], 'pos': pos, 'num': [s['num'][i] for i in k]}


def random_prim(rng):
    return PRIM[rng.choice(sorted(PRIM))]


def random_super(rng, maxat, names=None):
    while True:
        nm = rng.choice(names or sorted(PRIM))
        s = PRIM[nm]
        k = len(s['num'])
        if k > maxat:
            continue
        n = rng.randint(1, max(1, maxat // k))
        return super_spec(s, random_hnf(rng, n))


def random_tri(rng, nat, elems=None):
    """generic low-symmetry cell"""
    lat = [[4, 0, 0], [rng.uniform(-1, 1), rng.uniform(3, 5), 0],
           [rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(3, 6)]]
    pos = [[rng.randrange(1000) / 1000. for _ in range(3)] for _ in range(nat)]
    num = [rng.choice(elems or REAL) for _ in range(nat)]
    return {'lat': lat, 'pos': pos, 'num': num}


def hall_spec(rng, hall, zs=(14,), maxat=32):
    """a crystal with (at least) the operations of a Hall entry: random orbits"""
    typ = spglib.get_spacegroup_type(hall)
    num = typ['number']
    db = spglib.get_symmetry_from_database(hall)
    R, T = db['rotations'], db['translations']
    if len(R) * len(zs) > maxat:
        return None
    a, b, c = 5.0, 6.1, 7.3
    if num <= 2:
        lat = [[a, 0, 0], [.4, b, 0], [.7, .9, c]]
    elif num <= 15:
        # unique axis from the rotations: the axis fixed by the 2-fold
        ax = 1
        for r in R:
            d = [int(r[i][i]) for i in range(3)]
            if sorted(d) == [-1, -1, 1]:
                ax = d.index(1)
            elif sorted(d) == [-1, 1, 1]:
                ax = d.index(-1)
        lat = [[a, 0, 0], [0, b, 0], [0, 0, c]]
        i, j = [k for k in range(3) if k != ax]
        lat[j][i] = 1.1
    elif num <= 74:
        lat = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    elif num <= 142:
        lat = [[a, 0, 0], [0, a, 0], [0, 0, c]]
    elif num <= 194:
        if typ['choice'] == 'R':
            lat = [[a, 1, 1], [1, a, 1], [1, 1, a]]
        else:
            lat = [[a, 0, 0], [-a / 2, a * SQ3 / 2, 0], [0, 0, c]]
    else:
        lat = [[a, 0, 0], [0, a, 0], [0, 0, a]]
    # metric must be invariant
    L = np.array(lat, dtype=float)
    G = L.dot(L.T)
    for r in R:
        if not close(np.transpose(r).dot(G).dot(r), G, 1e-6):
            return None
    pos, nums = [], []
    for z in zs:
        x = np.array([rng.randrange(30, 470) / 1000. for _ in range(3)])
        for r, t in zip(R, T):
            q = np.dot(r, x) + t
            q = [float(v - math.floor(v + 1e-9)) for v in q]
            if not any(zz == z and all(abs(((u - w) + .5) % 1 - .5) < 1e-4 for u, w in zip(q, p))
                       for p, zz in zip(pos, nums)):
                pos.append(q)
                nums.append(z)
    if len(nums) > maxat:
        return None
    return {'lat': lat, 'pos': pos, 'num': nums}


# ------------------------------------------------------- symmetry oracles
def sym_ops(s, symprec=1e-3):
    """operations of a cell (spglib, outside the repo's code)"""
    d = spglib.get_symmetry((np.array(s['lat'], dtype=float), np.array(s['pos'], dtype=float),
                             np.array(s['num'])), symprec=symprec)
    return [([[int(x) for x in r] for r in R], [float(x) for x in t])
            for R, t in zip(d['rotations'], d['translations'])]


def cdist(p, q):
    return max(abs((a - b) - round(a - b)) for a, b in zip(p, q))


def perms_of(s, symprec=1e-3, tol=0.02):
    """for each operation the tuple m with m[k] = site the operation moves onto k"""
    pos = s['pos']
    n = len(pos)
    out = []
    for R, t in sym_ops(s, symprec):
        img = [[sum(R[i][j] * p[j] for j in range(3)) + t[i] for i in range(3)] for p in pos]
        m = [None] * n
        for a in range(n):
            d = [cdist(img[a], q) for q in pos]
            k = d.index(min(d))
            need(d[k] < tol, 'oracle: operation moves a site off the structure')
            need(m[k] is None, 'oracle: operation not a bijection')
            m[k] = a
        out.append(tuple(m))
    return out


def act(m, num):
    return tuple(num[i] for i in m)


def orbit(perms, num):
    return set(act(m, num) for m in perms)


def first_of_class(perms, stream):
    seen = set()
    out = []
    for x in stream:
        if x not in seen:
            out.append(x)
            seen |= orbit(perms, x)
    return out


def classes(perms, items):
    """number of classes of a set closed under perms"""
    items = set(items)
    n = 0
    while items:
        x = items.pop()
        n += 1
        items -= orbit(perms, x)
    return n


def wyck(s, symprec=1e-3):
    d = spglib.get_symmetry_dataset((np.array(s['lat'], dtype=float), np.array(s['pos'], dtype=float),
                                     np.array(s['num'])), symprec=symprec)
    return list(d['wyckoffs'])


def subst(base, sites, z):
    out = list(base)
    for i in sites:
        out[i] = z
    return tuple(out)


def sp_of(z):
    return Specie(NAME[z])


def same_multiset(got, want):
    from collections import Counter
    g, w = Counter(got), Counter(want)
    if g == w:
        return None
    miss = list((w - g).items())[:2]
    extra = list((g - w).items())[:2]
    return 'missing %r, unexpected or repeated %r (got %d, want %d)' % (miss, extra, len(list(got)), sum(w.values()))
