from common import *
import tempfile, shutil
from ababe.io.yaml import YamlInput, YamlOutput
from ababe.io.io import GeneralIO
import ababe.stru.io as oldio
import yaml as pyyaml
from c14 import match
RULE = ('random cells incl. vacancies written as YAML by both writers and read back, generated YAML texts with zoom, and all '
        'combinations of file-name pattern and explicit format through the general reader/writer; distinct by JSON text')
NAMES = ['a.yaml', 'A.YAML', 'x.yaml.bak', 'a.vasp', 'B.VASP', 'POSCAR', 'my_POSCAR_1', 'POSCAR.txt', 'x.y.vasp']


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        n = rng.randint(1, 10)
        zs = rng.sample(ZS, rng.randint(1, 4))
        L = [[round(rng.uniform(-6, 6), rng.choice([1, 4, 6])) for _ in range(3)] for _ in range(3)]
        if abs(det3(L)) < 5:
            continue
        pos = [[round(rng.uniform(-1, 2), rng.choice([1, 2, 4, 4, 6])) for _ in range(3)] for _ in range(n)]
        num = [rng.choice(zs) for _ in range(n)]
        s = {'lat': L, 'pos': pos, 'num': num}
        yield {'k': 'cell', 's': s}
        yield {'k': 'text', 's': s, 'zoom': rng.choice([1, 2, .5, 3.21, 1.0]), 'flow': rng.random() < .5}
        if not any(num):
            s['num'][0] = 14
        yield {'k': 'io', 's': s, 'fn': NAMES[i % len(NAMES)] if i < 20 else rng.choice(NAMES),
               'fmt': rng.choice([None, None, 'yaml', 'vasp', 'YAML', 'Vasp'])}
        yield {'k': 'iofmt', 's': s, 'fn': rng.choice(['out.dat', 'structure', 'x.txt']),
               'fmt': rng.choice(['yaml', 'vasp', 'YAML', 'VASP'])}


def check(c):
    s = c['s']
    d = tempfile.mkdtemp()
    try:
        g = gcell(s)
        p0 = cell_of(g)
        atoms = list(zip(s['pos'], s['num']))
        if c['k'] == 'cell':
            for i, w in enumerate([YamlOutput(g), oldio.YamlOutput(g)]):
                for rep in range(2):
                    txt = w.get_string()
                    L, P, N = YamlInput.from_string(txt)
                    match(GeneralCell(L, P, N), s['lat'], atoms, 6e-5, 6e-5)
                need(str(w) == txt, 'str() differs from get_string()')
                doc = pyyaml.safe_load(txt)
                need(doc['comment'] == g.comment, 'comment', doc['comment'])
                fn = os.path.join(d, 'f%d' % i)
                getattr(w, 'write_file', getattr(w, 'write', None))(fn)
                match(YamlInput(fn).get_cell(), s['lat'], atoms, 6e-5, 6e-5)
        elif c['k'] == 'text':
            doc = {'comment': 'x', 'lattice': s['lat'], 'positions': s['pos'], 'numbers': s['num'], 'zoom': c['zoom']}
            txt = pyyaml.dump(doc, default_flow_style=c['flow'])
            L, P, N = YamlInput.from_string(txt)
            need(close(L, [[x * c['zoom'] for x in r] for r in s['lat']], 6e-5), 'lattice not scaled by the zoom')
            need(ints(N) == tuple(s['num']), 'elements', ints(N))
            need(close(P, s['pos'], 6e-5), 'positions')
        else:
            fn = os.path.join(d, c['fn'])
            isy = (c['fmt'] or '').lower() == 'yaml' or '.yaml' in c['fn'].lower()
            if not isy:
                atoms = [a for a in atoms if a[1]]
            GeneralIO(g).write_file(fn, c['fmt']) if c['fmt'] else GeneralIO(g).write_file(fn)
            txt = open(fn).read()
            looks_yaml = 'numbers:' in txt
            need(looks_yaml == isy, 'written as', 'yaml' if looks_yaml else 'vasp')
            g2 = GeneralIO.from_file(fn, c['fmt']) if c['fmt'] else GeneralIO.from_file(fn)
            match(g2, s['lat'], atoms, 6e-5, 6e-5)
            g3 = GeneralIO.from_file(fn, fmt=c['fmt'])
            need(cell_of(g3) == cell_of(g2), 'reading twice differs')
            need(os.listdir(d) == [c['fn']], 'other files written')
        need(cell_of(g) == p0, 'the cell was changed')
    finally:
        shutil.rmtree(d)
