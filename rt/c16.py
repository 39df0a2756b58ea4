from common import *
RULE = 'every element of the table (exhaustive), every ordered pair of elements for (in)equality, every kind of site constructor'


TRUE = dict((s, i + 1) for i, s in enumerate("""H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn
Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta
W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr""".split()))
TRUE['G'] = 0


def cases(rng, tier):
    for k in sorted(PT):
        yield {'k': 'ele', 'name': k}
    yield {'k': 'table'}
    for k in sorted(PT):
        yield {'k': 'pairs', 'name': k}


def check(c):
    if c['k'] == 'table':
        zs = [v['Atomic no'] for v in PT.values()]
        need(len(set(zs)) == len(zs), 'two elements with one number')
        need(PT['G']['Atomic no'] == 0, 'vacancy is not zero')
        need(GhostSpecie().Z == 0 and GhostSpecie().name == 'G', 'ghost')
        need(Specie.to_name(0) == 'G' and Specie.from_num(0).Z == 0 and Specie.from_num(0).name == 'G', 'zero is not the vacancy')
        for bad in ('Xx', 'g', ''):
            try:
                Specie(bad)
            except Exception:
                pass
            else:
                raise Fail('made a species from %r' % bad)
        return
    d = PT[c['name']]
    if c['name'] in TRUE:
        need(d['Atomic no'] == TRUE[c['name']], 'the table gives', c['name'], 'the number', d['Atomic no'])
    z = d['Atomic no']
    s = Specie(c['name'])
    if c['k'] == 'ele':
        need(s.Z == z and s.name == c['name'] and s.symbol == c['name'], 'species from symbol')
        need(s.atom_mass == d['Atomic mass'] and s.atom_radius == d['Atomic radius'], 'mass or radius')
        for q in (z, np.int64(z), np.int32(z)):
            t = Specie.from_num(q)
            need(t.Z == z and t.name == c['name'], 'species from number', z, 'is', t.name)
            need(Specie.to_name(q) == c['name'], 'name from number', z, 'is', Specie.to_name(q))
            if z:
                need(t.atom_mass == d['Atomic mass'] and t.atom_radius == d['Atomic radius'], 'mass or radius from number')
        need(s == t and not (s != t), 'species from symbol and number differ')
        pos = (.1, .2, .3)
        for e in (s, z, c['name']):
            st = Site(pos, e)
            need(st.element == s and st.element.Z == z and tuple(st.position) == pos, 'site made from', repr(e))
            need(st == Site(list(pos), z), 'equal sites differ')
        need(not (Site(pos, s) == Site((.1, .2, .4), s)), 'sites at different places are equal')
        s2 = Site(pos, s)
        s2.element = Specie('H')
        need(s2.element.Z == 1 and s.Z == z, 'setting a site\'s element')
    else:
        for k in sorted(PT):
            t = Specie(k)
            need((s == t) == (PT[k]['Atomic no'] == z), c['name'], '==', k)
            need((s != t) == (PT[k]['Atomic no'] != z), c['name'], '!=', k)
            need((Site((0, 0, 0), s) == Site((0, 0, 0), t)) == (PT[k]['Atomic no'] == z), 'sites of', c['name'], k)
        gh = GhostSpecie()
        need((s == gh) == (z == 0) and (gh == s) == (z == 0), 'vacancy compared with', c['name'])
        for o in (None, c['name'], z, 1.5, [s]):
            need(not (s == o) and (s != o), 'equal to', repr(o))
