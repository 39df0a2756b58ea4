from common import *
import tempfile, shutil
from c25 import is_prim, cartv
from c09 import mind
from c13 import dmin, alld
import c07
import importlib
RULE = ('each command application run in a scratch directory on generated input files with option combinations and a stubbed random '
        'name source that repeats every name three times; every file written is parsed independently and matched to the '
        'expected classes; distinct by JSON text')


def app(name):
    return importlib.import_module('ababe.cmdline.apps.' + name).App


def safe(s):
    return all(abs(x * 10000 - round(x * 10000)) < 1e-6 for q in s['pos'] for x in q)


def cases(rng, tier):
    for c in cases0(rng, tier):
        if c['k'] in ('clar', 'pert') or safe(c['s']):
            yield c


def cases0(rng, tier):
    pars = [super_spec(PRIM['fcc'], [[1, 0, 0], [0, 2, 0], [0, 0, 2]]), PRIM['perov'], super_spec(PRIM['zb'], [[1, 0, 0], [0, 1, 0], [0, 0, 4]]),
            super_spec(PRIM['sc'], [[1, 0, 0], [0, 1, 0], [0, 0, 5]]), PRIM['rutile'], super_spec(PRIM['bcc'], [[2, 0, 0], [0, 2, 1], [0, 0, 2]])]
    i = 0
    while True:
        i += 1
        s = pars[i % len(pars)] if rng.random() < .7 else random_super(rng, 8)
        if len(s['num']) < 2:
            continue
        zs = sorted(set(s['num']))
        ele = rng.choice(zs)
        cnt = s['num'].count(ele)
        spk = rng.choice([None, 'Ag', 'Au'])
        d = mind(s, ele)
        tr = [] if rng.random() < .5 else [[NAME[rng.choice([ele, 0 if spk is None else 47])], round(rng.uniform(1.5, 5.5), 3)]]
        o = dict(s=s, ele=NAME[ele], spk=spk, tr=tr, refined=rng.random() < .3, out=rng.choice(['vasp', 'yaml']),
                 infmt=rng.choice(['vasp', 'yaml']), com=rng.choice([None, 'job']))
        yield dict(o, k='maker', n=rng.choice([None, min(cnt, 2), 1, min(cnt, 3)]))
        yield dict(o, k='biter', n=rng.choice([None, min(cnt, 2), 1, cnt]), mpr=rng.random() < .5)
        t = super_spec(PRIM[rng.choice(['fcc', 'sc', 'bcc', 'tri1'])], random_hnf(rng, rng.choice([4, 4, 5])))
        o2 = dict(o, s=t, ele=rng.choice([None, NAME[t['num'][0]]]), spk=rng.choice([['Ag', 'Au'], ['Au', 'G']]),
                  zoom=rng.choice([None, 1, 2.0]), tr=tr if tr and tr[0][0] in ('Ag', 'Cu') else [])
        yield dict(o2, k='tenter', n=rng.choice([[1, 1], [2, 1], [1, 2]]), mpr=rng.random() < .5)
        if len(t['num']) <= 5:
            yield dict(o2, k='makert')
        yield dict(k='suplat', s=random_prim(rng), v=rng.randint(1, 4), ld=rng.random() < .4, out=rng.choice(['vasp', 'yaml']),
                   infmt='yaml', com=rng.choice([None, 'x']))
        s = rng.choice([random_super(rng, 6), random_tri(rng, rng.randint(2, 6), [8, 14])])
        s = dict(s, pos=[[round(x, 4) for x in q] for q in s['pos']])
        zs = sorted(set(s['num']))
        r = round(rng.uniform(.5, 4), 4)
        ds = [x for p in s['pos'] for q in s['pos'] for x in alld(p, q, s['lat'])]
        if all(abs(x - r) > 1e-2 for x in ds):
            yield dict(k='clar', s=s, ce=NAME[rng.choice(zs)], e=NAME[rng.choice(zs)], r=r, infmt='yaml')
        yield dict(k='pert', s=s, r=rng.choice([0.2, 0.05, 1.0]), infmt=rng.choice(['vasp', 'yaml']), seed=rng.randrange(10 ** 6))


# --------------------------------------------------- independent file handling
def write_in(path, s, fmt):
    with open(path, 'w') as f:
        if fmt == 'yaml':
            f.write('comment: c\nlattice: %s\npositions: %s\nnumbers: %s\nzoom: 1\n' % (
                json.dumps(s['lat']), json.dumps(s['pos']), json.dumps(s['num'])))
        else:
            zs = sorted(set(z for z in s['num']))
            f.write('c\n1.0\n' + '\n'.join(' '.join('%.8f' % x for x in r) for r in s['lat']) + '\n')
            f.write(' '.join(NAME[z] for z in zs) + '\n' + ' '.join(str(s['num'].count(z)) for z in zs) + '\ndirect\n')
            for z in zs:
                for p, q in zip(s['pos'], s['num']):
                    if q == z:
                        f.write(' '.join('%.8f' % x for x in p) + '\n')


def parse(path):
    import yaml as py
    with open(path) as fh:
        t = fh.read()
    if path.endswith('.yaml'):
        d = py.safe_load(t)
        z = d.get('zoom', 1)
        return {'lat': [[x * z for x in r] for r in d['lattice']], 'pos': d['positions'], 'num': d['numbers']}
    l = [x for x in t.split('\n')]
    z = float(l[1])
    lat = [[float(x) * z for x in r.split()] for r in l[2:5]]
    sy, ct = l[5].split(), [int(x) for x in l[6].split()]
    num = [PT[a]['Atomic no'] for a, k in zip(sy, ct) for _ in range(k)]
    pos = [[float(x) for x in r.split()[:3]] for r in l[8:] if r.strip()]
    need(len(pos) == len(num), 'file lists', len(pos), 'positions for', len(num), 'atoms')
    return {'lat': lat, 'pos': pos, 'num': num}


class Names(object):
    def __init__(self):
        self.i = 0

    def __call__(self, pop, weights=None, cum_weights=None, k=1):
        v = self.i // 3
        self.i += 1
        s = []
        for _ in range(k):
            s.append(pop[v % len(pop)])
            v //= len(pop)
        return s


def occupation(p, f, absent):
    """elements of file f on the sites of parent p (missing site = absent)"""
    out = []
    used = 0
    for q in p['pos']:
        hit = [z for r, z in zip(f['pos'], f['num']) if cdist(q, r) < 2e-3]
        need(len(hit) <= 1, 'two atoms on one site in a file')
        used += len(hit)
        out.append(hit[0] if hit else absent)
    need(used == len(f['num']), 'a file holds atoms off the sites')
    return tuple(out)


def check(c):
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    real = getattr(random, 'choices', None)
    try:
        os.chdir(d)
        os.mkdir('in')
        if c['k'] in ('tenter', 'makert'):
            fn = None
        else:
            fn = os.path.join(d, 'in', 'cell.' + c['infmt'])
            write_in(fn, c['s'], c['infmt'])
        random.choices = Names()
        return run(c, d, fn)
    finally:
        random.choices = real
        os.chdir(cwd)
        shutil.rmtree(d)


def outfiles(d):
    ds = [x for x in os.listdir(d) if x != 'in']
    need(len(ds) == 1 and os.path.isdir(os.path.join(d, ds[0])), 'output directories', ds)
    return [os.path.join(d, ds[0], x) for x in sorted(os.listdir(os.path.join(d, ds[0])))]


def run(c, d, fn):
    k = c['k']
    s = c['s']
    tr = tuple((a, b) for a, b in c.get('tr', []))
    if k in ('maker', 'biter', 'tenter', 'makert'):
        r4 = dict(lat=[[round(x, 4) for x in r] for r in s['lat']], pos=[[round(x, 4) for x in q] for q in s['pos']], num=s['num'])
        if k in ('tenter', 'makert'):
            z = c['zoom'] or 1
            r4 = dict(s, lat=[[x * z for x in r] for r in s['lat']])
        g = gcell(r4)
        p = cell_of(g)
        base = tuple(p['num'])
        n = len(base)
        pm = perms_of(p)
        if k == 'maker':
            A = app('occupymaker')(fn, c['com'], c['ele'], c['spk'], c['n'], tr, c['refined'], c['out'])
        elif k == 'biter':
            A = app('occupybiter')(fn, c['com'], c['ele'], c['spk'], c['n'], tr, c['refined'], c['out'], c['mpr'])
        else:
            st = {'lattice': s['lat'], 'positions': s['pos'], 'numbers': s['num'], 'zoom': 1, 'comment': 'cc'}
            if k == 'tenter':
                A = app('occupytenter')(st, c['com'], c['ele'], tuple(c['spk']), tuple(c['n']), c['zoom'], tr, c['refined'], c['out'], c['mpr'])
            else:
                A = app('occupymakert')(st, c['com'], c['ele'], tuple(c['spk']), c['zoom'], tr, c['refined'], c['out'])
        A.run()
        files = outfiles(d)
        # expected
        alls = []
        if k in ('maker', 'biter'):
            ez = PT[c['ele']]['Atomic no']
            sz = 0 if c['spk'] is None else PT[c['spk']]['Atomic no']
            el = [i for i in range(n) if base[i] == ez]
            if k == 'maker':
                mx = len(el) - 1 if c['n'] is None else c['n']
                ks = range(1, mx - base.count(sz) + 1)
            else:
                ks = [len(el) // 2 + 1 if c['n'] is None else c['n']]
            for q in ks:
                alls += [subst(base, x, sz) for x in itertools.combinations(el, q)]
        else:
            z1, z2 = [PT[x]['Atomic no'] for x in c['spk']]
            nn = [c['n']] if k == 'tenter' else [(a, b) for a in range(1, n - 1) for b in range(1, n - a)]
            for n1, n2 in nn:
                for q in itertools.combinations(range(n), n1):
                    for r in itertools.combinations([i for i in range(n) if i not in q], n2):
                        alls.append(subst(subst(base, q, z1), r, z2))
        prim = c.get('mpr', True) if k in ('biter', 'tenter') else True
        want = []
        for x in first_of_class(pm, alls):
            o = dict(p, num=list(x))
            if prim and not is_prim(o):
                continue
            if tr:
                tz = PT[tr[0][0]]['Atomic no']
                m = mind(o, tz)
                if m is not None and abs(m - tr[0][1]) < 1e-3:
                    return None       # too close to call
                if m is not None and not m > tr[0][1]:
                    continue
            want.append(x)
        need(len(files) == len(want), 'wrote', len(files), 'files for', len(want), 'structures')
        need(all(f.endswith('.' + c['out']) for f in files), 'format of the files')
        if c['refined']:
            from collections import Counter
            comp = []
            for f in files:
                f = parse(f)
                cc = Counter(z for z in f['num'] if z)
                comp.append(cc)
            ok = []
            for x in want:
                a = Counter(z for z in x if z)
                hit = [i for i, b in enumerate(comp) if i not in ok and set(a) == set(b) and
                       all(a[z] * sum(b.values()) == b[z] * sum(a.values()) for z in a)]
                need(hit, 'no file has the composition of', x)
                ok.append(hit[0])
            return None
        seen = []
        absent = 0
        for f in files:
            o = parse(f)
            need(close(o['lat'], p['lat'], 1e-4), 'lattice in a file')
            x = occupation(p, o, absent)
            cls = [w for w in want if x in orbit(pm, w)]
            need(len(cls) == 1, 'a file holds', x, 'which is not to be written')
            need(cls[0] not in seen, 'two files hold equivalent structures')
            seen.append(cls[0])
        return None
    if k == 'suplat':
        g = gcell(dict(s, lat=[[round(x, 4) for x in r] for r in s['lat']], pos=[[round(x, 4) for x in q] for q in s['pos']]))
        p = cell_of(g)
        if not is_prim(p):
            return None
        app('superlattice')(fn, c['com'], c['v'], c['ld'], c['out']).run()
        files = outfiles(d)
        rots = [R for R, t in sym_ops(p)]
        want = []
        n = c['v']
        hs = []
        for a in range(1, n + 1):
            for cc in range(1, n + 1):
                if n % (a * cc):
                    continue
                f = n // a // cc
                if c['ld'] and f != 1:
                    continue
                hs += [[[a, b, e1], [0, cc, e2], [0, 0, f]] for b in range(cc) for e1 in range(f) for e2 in range(f)]
        for h in hs:
            if not any(c07.related(rots, w, h) for w in want):
                want.append(h)
        need(len(files) == len(want), 'wrote', len(files), 'files for', len(want), 'superlattices')
        spec_w = sorted(spectrum(mul3(h, p['lat'])) for h in want)
        got = []
        for f in files:
            need(f.endswith('.' + c['out']), 'format of the files')
            o = parse(f)
            need(sorted(o['num']) == sorted(list(p['num']) * n), 'a file has the wrong atoms')
            need(abs(abs(det3(o['lat'])) - n * abs(det3(p['lat']))) < 1e-2 * abs(det3(p['lat'])), 'volume in a file')
            got.append(spectrum(o['lat']))
        for a, b in zip(sorted(got), spec_w):
            need(all(abs(x - y) < 2e-2 for x, y in zip(a, b)), 'lattices in the files differ from the superlattices')
        return None
    if k == 'clar':
        cz, ez = PT[c['ce']]['Atomic no'], PT[c['e']]['Atomic no']
        p = cell_of(gcell(s))
        n = len(p['num'])
        gone = set(i for i in range(n) for j in range(n) if p['num'][j] == cz and p['num'][i] == ez
                   and dmin(p['pos'][i], p['pos'][j], p['lat']) < c['r'])
        if all(i in gone or p['num'][i] == 0 for i in range(n)):
            return None
        app('atomclarifier')(fn, c['ce'], c['r'], c['e'], False).run()
        fs = [x for x in os.listdir(d) if x != 'in']
        need(fs == ['cell_ACLR.vasp'], 'files written', fs)
        o = parse(os.path.join(d, fs[0]))
        keep = sorted((p['num'][i], [round(x, 3) + 0. for x in p['pos'][i]]) for i in range(n) if i not in gone and p['num'][i])
        need(len(o['num']) == len(keep), 'file holds', len(o['num']), 'atoms instead of', len(keep))
        got = sorted((z, [round(x, 3) + 0. for x in q]) for q, z in zip(o['pos'], o['num']))
        need(got == keep, 'remaining atoms differ')
        need(close(o['lat'], p['lat'], 1e-4), 'lattice')
        return None
    if k == 'pert':
        np.random.seed(c['seed'])
        app('atomperturb')(fn, c['r']).run()
        fs = [x for x in os.listdir(d) if x != 'in']
        need(fs == ['cell_PURB.vasp'], 'files written', fs)
        o = parse(os.path.join(d, fs[0]))
        real = [(q, z) for q, z in zip(s['pos'], s['num']) if z]
        need(sorted(o['num']) == sorted(z for q, z in real), 'elements changed')
        need(close(o['lat'], s['lat'], 1e-4), 'lattice changed')
        # perfect matching between old and new atoms at exactly the distance
        n = len(real)
        E = [[j for j in range(n) if o['num'][j] == real[i][1] and abs(math.sqrt(sum(v * v for v in cartv(
            [a - b for a, b in zip(o['pos'][j], real[i][0])], s['lat']))) - c['r']) < 2e-3] for i in range(n)]
        m = {}

        def aug(i, vis):
            for j in E[i]:
                if j not in vis:
                    vis.add(j)
                    if j not in m or aug(m[j], vis):
                        m[j] = i
                        return True
            return False
        for i in range(n):
            need(aug(i, set()), 'an atom was not moved by exactly the distance')
        return None


def spectrum(L, m=4, top=14):
    v = []
    for t in itertools.product(range(-m, m + 1), repeat=3):
        if t > (0, 0, 0):
            x = cartv(t, L)
            v.append(round(math.sqrt(sum(a * a for a in x)), 2))
    return sorted(v)[:top]
