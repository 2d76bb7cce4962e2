"""C22: evaluations with the energy released in fission, loaded; the components and what is derived from them."""
import os
import h5py
import endfgen as G
from common import *
with quiet():
    from ASAPy.data import neutron, endf, fission_energy
    from ASAPy.data.fission_energy import FissionEnergyRelease

COMP = ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos']
SUMS = ['recoverable', 'total', 'q_prompt', 'q_recoverable', 'q_total']
E0 = 1e5
SCALE = [1., 1e-3, 1e-8, 1e-14]
ZA = 92235


def grid(rng):
    return [0] + sorted(rng.sample(range(1, 20), rng.choice([0, 1, 2, 4]))) + [20]


def case(rng, np_, nuk, deg, ifcs, bad):
    cs = []
    for i in range(9):
        c = [100 * rng.randrange(1, rng.choice([300, 2000000])), rng.randrange(-3000, 3000), rng.randrange(-390, 391), rng.randrange(-300, 300)][:np_ + 1]
        if np_ == 2 and bad and rng.random() < .6:
            c[2] = rng.choice([-1, 1]) * rng.randrange(1, 390) * 1000000
        cs.append(c)
    if nuk == 'tab':
        x = grid(rng)
        nu = dict(k='tab', x=x, y=[rng.randrange(16, 40) for _ in x])
    else:
        nu = dict(k='poly', c=[rng.randrange(16, 30), rng.randrange(-5, 20), rng.randrange(-9, 9)][:deg])
    tabs = []
    for i in ifcs:
        x = grid(rng)
        tabs.append(dict(ifc=i, x=x, y=[100 * rng.randrange(1, 2000000) for _ in x]))
    return dict(np=np_, cs=cs, nu=nu, tabs=tabs)


def nusec(nu):
    h = G.cont(ZA, 233., 0, 2 if nu['k'] == 'tab' else 1, 0, 0)
    if nu['k'] == 'tab':
        return h + G.tab1(0, 0, 0, 0, [(len(nu['x']), 2)], [(x * E0, y / 8.) for x, y in zip(nu['x'], nu['y'])])
    return h + G.lst(0, 0, 0, 0, 0, [c * s for c, s in zip(nu['c'], (.125, 1e-8, 1e-14))])


def write(path, c, rng, liso=0, lfi=1):
    d = dict(G.BASE, za=ZA, liso=liso, lfi=lfi)
    secs = [(2, 151, G.cont(ZA, 233., 0, 0, 1, 0) + G.cont(ZA, 1., 0, 0, 1, 0) + G.cont(1e-5, 64., 0, 0, 0, 0) + G.cont(0.5, .5, 0, 0, 0, 0))]
    which = c['which']
    other = dict(k='tab', x=[0, 20], y=[5, 11])
    if which in ('total', 'both'):
        secs.append((1, 452, nusec(c['nu'] if which == 'total' else other)))
    if which in ('prompt', 'both'):
        secs.append((1, 456, nusec(c['nu'])))
    if c['delayed']:
        secs.append((1, 455, G.cont(ZA, 233., 0, 2, 0, 0) + G.lst(0, 0, 0, 0, 0, [.1, .2, .4]) + G.tab1(0, 0, 0, 0, [(2, 2)], [(0., .5), (2e6, .25)])))
    vals = []
    for k in range(c['np'] + 1):
        for i in range(9):
            vals += [c['cs'][i][k] * SCALE[k], rng.randrange(0, 99) / 8.]     # a value and its uncertainty
    rec = G.cont(ZA, 233., 0, 1 if c['tabs'] else 0, 0, len(c['tabs'])) + G.lst(0, 0, 0, c['np'], 9 * (c['np'] + 1), vals)
    for t in c['tabs']:
        rec += G.tab1(0, 0, rng.choice([1, 2]), t['ifc'], [(len(t['x']), 2)], [(x * E0, float(y)) for x, y in zip(t['x'], t['y'])])
    secs.append((1, 458, rec))
    for mt in c['mts']:
        secs.append((3, mt, G.cont(ZA, 233., 0, 0, 0, 0) + G.tab1(1.9e8, 1.9e8, 0, 0, [(2, 2)], [(1e-5, 1.), (2e7, 1.)])))
    secs.sort(key=lambda s: s[:2])
    direc = [(1, 451, 4 + len(d['text']) + len(secs) + 1, 1)] + [(mf, mt, len(l), 1) for mf, mt, l in secs]
    with open(path, 'w') as f:
        f.write(G.tape([G.material(9228, [(1, 451, G.header(d, direc))] + secs)]))


def values(fe, names, pts):
    return {n: [q(getattr(fe, n)(m * E0)) for m in pts] for n in names}


def one(log, a, rng, c, k):
    c['which'] = rng.choice(['total', 'prompt', 'both'])
    c['delayed'] = rng.random() < .5
    c['mts'] = rng.choice([[18, 102], [18, 19, 102], [18]])
    fn = os.path.join(a.scratch, 'tape')
    write(fn, c, rng)
    pts = sorted({0, 1, 7, 10, 20} | {x for t in c['tabs'] for x in t['x']} | set(c['nu'].get('x', [])))
    ev = dict(ev='fer', np=c['np'], cs=c['cs'], nu=c['nu'], tabs=c['tabs'], pts=pts, got={}, back={})

    def load():
        if k % 2:
            return neutron.IncidentNeutron.from_endf(fn).fission_energy
        e = endf.Evaluation(fn)
        n = neutron.IncidentNeutron.from_endf(e)
        if k % 4 == 0 and 19 in n:      # as ACE data may have it: fission only as the sum of its parts, or not at all
            if k % 8:
                del n.reactions[18]
            else:
                n.reactions[18].redundant = True
                n.reactions[18].products = []
        return FissionEnergyRelease.from_endf(e, n)
    fe, ev['exc'] = attempt(load)
    if not ev['exc']:
        def look():
            g = dict(c=values(fe, COMP, pts), s=values(fe, SUMS, pts))
            h = os.path.join(a.scratch, 'fe.h5')
            with h5py.File(h, 'w') as f:
                fe.to_hdf5(f.create_group('x'))
            with h5py.File(h, 'r') as f:
                b = FissionEnergyRelease.from_hdf5(f['x'])
                back = dict(c=values(b, COMP, pts), s=values(b, SUMS, pts))
            os.remove(h)
            return g, back
        r, exc = attempt(look)
        ev['exc'] = exc and 'look: ' + exc
        if not exc:
            ev['got'], ev['back'] = r
    log(**ev)


def refuse(log, a, rng):
    """another nuclide, a nuclide that does not fission, no such data"""
    base = case(rng, 1, 'tab', 0, [], False)
    base.update(which='total', delayed=False, mts=[18])
    fn = os.path.join(a.scratch, 'tape')
    for what in ('same', 'z', 'a', 'm', 'fissile', 'nodata'):
        write(fn, base, rng, lfi=0 if what == 'fissile' else 1)
        e = endf.Evaluation(fn)
        if what == 'nodata':
            del e.section[1, 458]
        n = neutron.IncidentNeutron('X', 92 + (what == 'z'), 235 + (what == 'a'), int(what == 'm'), 233., [0.])
        r, exc = attempt(FissionEnergyRelease.from_endf, e, n)
        log(ev='refuse', what=what, exc=exc)


def run(log, a):
    rng = a.rng
    refuse(log, a, rng)
    cs = load_cases(a.cases)
    for k, c in enumerate(rng.sample(cs, min(len(cs), 6000 if a.thorough else 500))):
        one(log, a, rng, case(rng, c['np'], c['nu'], c['deg'], c['ifcs'], True), k)
    for k in range(1500 if a.thorough else 120):
        n = rng.choice([0, 0, 1, 2, 3])
        ifcs = [i for i in range(1, 10) if rng.random() < rng.choice([.1, .5])]
        rng.shuffle(ifcs)
        one(log, a, rng, case(rng, n, rng.choice(['tab', 'poly']), rng.choice([1, 2, 3]), ifcs, rng.random() < .5), k)


if __name__ == '__main__':
    main(run)
