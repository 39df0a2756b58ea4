from common import *
import tempfile, shutil
from ababe.io.vasp import VaspInput, VaspOutput
import ababe.stru.io as oldio
RULE = ('random cells (many elements, vacancies, unsorted, outside the cell) written by every POSCAR writer and read back; '
        'generated POSCAR texts (scale factors of both signs, repeated symbols, blank lines, labels, spacing); distinct by JSON text')


def cases(rng, tier):
    while True:
        n = rng.randint(1, 12)
        zs = rng.sample(ZS, min(len(ZS), rng.randint(1, 5))) + rng.choice([[], [0]])
        L = [[round(rng.uniform(-6, 6), rng.choice([1, 4, 6])) for _ in range(3)] for _ in range(3)]
        if abs(det3(L)) < 5:
            continue
        pos = [[round(rng.uniform(-1, 2), rng.choice([1, 2, 4, 4, 6])) for _ in range(3)] for _ in range(n)]
        num = [rng.choice(zs) for _ in range(n)]
        if not any(num):
            num[0] = 14
        yield {'k': 'cell', 's': {'lat': L, 'pos': pos, 'num': num}}
        L = [[round(x, rng.choice([1, 4])) for x in r] for r in L]
        if abs(det3(L)) < 20:
            continue
        sy = [rng.choice(REAL) for _ in range(rng.randint(1, 4))]
        ct = [rng.randint(1, 4) for _ in sy]
        yield {'k': 'text', 'lat': L, 'sy': sy, 'ct': ct, 'zoom': rng.choice([1, 1.0, 2.5, .5, -100., -37, 4.05]),
               'pos': [[round(rng.uniform(-1, 2), 4) for _ in range(3)] for _ in range(sum(ct))],
               'lab': rng.choice([0, 1, 2]), 'blank': rng.random() < .5, 'seed': rng.randrange(10 ** 6),
               'mode': rng.choice(['direct', 'Direct', 'D'])}


def match(g, lat, atoms, tl, tp):
    need(close(g.lattice, lat, tl), 'lattice read', rows(g.lattice), 'instead of', lat)
    pos, num = rows(g.positions), ints(g.numbers)
    need(sorted(num) == sorted(z for p, z in atoms), 'elements read', sorted(num), 'instead of', sorted(z for p, z in atoms))
    used = set()
    for p, z in atoms:
        hit = [i for i in range(len(num)) if i not in used and num[i] == z
               and all(abs(a - b) <= tp for a, b in zip(p, pos[i]))]
        need(hit, 'atom', p, z, 'was not read back')
        used.add(min(hit, key=lambda i: sum(abs(a - b) for a, b in zip(p, pos[i]))))


def parse(txt, s):
    lines = txt.split('\n')
    sy, ct = lines[5].split(), [int(x) for x in lines[6].split()]
    real = [z for z in s['num'] if z]
    need(sy == [NAME[z] for z in sorted(set(real))], 'symbol line', sy)
    need(ct == [real.count(z) for z in sorted(set(real))], 'count line', ct)
    body = [l for l in lines[8:] if l.strip()]
    need(len(body) == sum(ct), 'number of position lines')
    need(lines[0] == ''.join('%s%d' % x for x in zip(sy, ct)), 'comment line', lines[0])
    exp = [x for x, k in zip(sy, ct) for _ in range(k)]
    need([l.split()[3] for l in body] == exp, 'labels do not follow the counts')


def check(c):
    d = tempfile.mkdtemp()
    try:
        if c['k'] == 'cell':
            s = c['s']
            g = gcell(s)
            atoms = [(p, z) for p, z in zip(s['pos'], s['num']) if z]
            ws = [VaspOutput(g), oldio.VaspPOSCAR(g)]
            for i, w in enumerate(ws):
                for rep in range(2):
                    txt = w.get_string()
                    parse(txt, s)
                    L, P, N = VaspInput.from_string(txt)
                    need(len(P) == len(N), 'positions and elements of different length')
                    match(GeneralCell(L, P, N), s['lat'], atoms, 6e-5, 6e-5)
                need(str(w) == txt, 'str() differs from get_string()')
                fn = os.path.join(d, 'P%d' % i)
                getattr(w, 'write_file', getattr(w, 'write', None))(fn)
                match(VaspInput(fn).get_cell(), s['lat'], atoms, 6e-5, 6e-5)
            need(cell_of(gcell(s)) == cell_of(g), 'writing changed the cell')
        else:
            rng = random.Random(c['seed'])
            sp = lambda: ' ' * rng.randint(1, 4)
            num = [z for z, k in zip(c['sy'], c['ct']) for _ in range(k)]
            lines = ['made up', str(c['zoom'])]
            lines += [sp() + sp().join(repr(x) for x in r) for r in c['lat']]
            lines += [sp().join(NAME[z] for z in c['sy']), sp().join(str(k) for k in c['ct']), c['mode']]
            for p, z in zip(c['pos'], num):
                lines.append(sp() + sp().join('%.4f' % x for x in p) +
                             (['', ' ' + NAME[z], ' T T F ' + NAME[z]][c['lab']]))
            if c['blank']:
                for _ in range(3):
                    lines.insert(rng.randrange(1, len(lines) + 1), rng.choice(['', '   ']))
            lat4 = [[round(x, 4) for x in r] for r in c['lat']]
            z = c['zoom']
            if z < 0:
                z = (-z / abs(det3(lat4))) ** (1 / 3.)
            lat = [[x * z for x in r] for r in lat4]
            txt = '\n'.join(lines) + rng.choice(['', '\n'])
            L, P, N = VaspInput.from_string(txt)
            need(close(L, lat, 1e-4 * abs(z) + 1e-6), 'lattice', rows(L), 'instead of', lat)
            need(ints(N) == tuple(num), 'elements', ints(N), 'instead of', num)
            need(close(P, c['pos'], 1e-9), 'positions differ')
            if c['zoom'] < 0:
                need(abs(abs(det3(rows(L))) + c['zoom']) < 1e-2, 'volume', det3(rows(L)))
            fn = os.path.join(d, 'POSCAR')
            with open(fn, 'w') as fh:
                fh.write(txt)
            match(VaspInput(fn).get_cell(), lat, list(zip(c['pos'], num)), 1e-4 * abs(z) + 1e-6, 1e-9)
    finally:
        shutil.rmtree(d)
