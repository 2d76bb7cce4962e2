"""C20: neutron data through histories of loading, adding temperatures, exporting to and importing from HDF5."""
import os, json, hashlib, warnings, xml.etree.ElementTree as ET
import h5py
import drv_acefile as D
from drv_acefile import *
with quiet():
    from ASAPy.data.library import DataLibrary
    from ASAPy.data.fission_energy import FissionEnergyRelease
    from ASAPy.data.function import Polynomial

FISSION = (18, 19, 20, 21, 38)


def iso(d):
    """an isotropic distribution may also be given as a table of two points"""
    r = D_ang(d)
    if r == dict(k='tab', int=1, x=[-U, U], p=[U // 2] * 2, c=[0, U]) or r == dict(k='tab', int=2, x=[-U, U], p=[U // 2] * 2, c=[0, U]):
        return dict(k='iso')
    return r


D_ang = D.ang
D.ang = iso


def dig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def mixp(p):
    """weights of discrete and continuous parts of outgoing energies"""
    out = []
    for d in p.distribution:
        e = getattr(d, 'energy', None) if type(d).__name__ == 'UncorrelatedAngleEnergy' else d
        for x in getattr(e, 'energy_out', None) or []:
            if isinstance(x, Mixture):
                out.append(v(x.probability))
    return out


def nbody(p):
    return [[q(d.atomic_weight_ratio, 1e6), q(d.q_value * M, U)] for d in p.distribution if type(d).__name__ == 'NBodyPhaseSpace']


def fer(f):
    """the energy released by fission: its components and what follows from them, at some energies"""
    if f is None:
        return ''
    names = ('fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos')
    return dig([[q(float(getattr(f, n)(x)), 1e-1) for x in (1e-5, 2e4, 1e6, 3.3e6, 2e7)] for n in names])


def nuclide(dat):
    Ts = list(dat.temperatures)
    rows = []
    for rx in dat:
        xs, first, pts = {}, {}, {}
        for T, t in rx.xs.items():
            E = dat.energy[T]
            xs[T] = v(t(np.array(E)))
            if isinstance(t, Tabulated1D):
                k = int(np.argmin(abs(E - t.x[0]))) if len(t.x) else 0
                ok = len(t.x) == len(t.y) and np.array_equal(np.array(t.x), np.array(E[k:k + len(t.x)]))
                first[T], pts[T] = (k + 1 if ok else 0), len(t.y)
        prods = list(rx.products or [])
        body = [qe(rx.q_value * M, U, 1e-4), bool(rx.center_of_mass), first, pts, [(p.particle, D.product(p), mixp(p), nbody(p)) for p in prods]]
        derived = list(rx.derived_products or [])
        rows.append(dict(mt=int(rx.mt), red=bool(rx.redundant), photon=any(p.particle == 'photon' for p in prods),
                         nu=dig([D.product(p) for p in derived]) if derived else '', body=dig(body), bare=not prods, xs=xs, built=any(not isinstance(t, Tabulated1D) for t in rx.xs.values())))
    urr = {T: dig([int(u.interpolation), int(u.inelastic_flag), int(u.absorption_flag), bool(u.multiply_smooth), v(u.energy, M),
                   np.array(u.table).tolist()]) for T, u in dat.urr.items()}
    return dict(name=dat.name, id=dig([int(dat.atomic_number), int(dat.mass_number), int(dat.metastable), q(dat.atomic_weight_ratio, 1e6), dat.atomic_symbol]),
                temps=Ts, kts={T: q(k, 1e8) for T, k in zip(Ts, dat.kTs)}, grid={T: v(E, M) for T, E in dat.energy.items()}, rx=rows, urr=urr,
                fer=fer(dat.fission_energy))


BLANK = dict(name='', id='', temps=[], kts={}, grid={}, rx=[], urr={}, fer='')
ZA = {1: 92235, 2: 94239, 3: 1001, 4: 26056, 5: 40090, 6: 95642}


class Tables:
    """for each name of the model's tables (a1, b1, c1, a2 ...) a real table: the same
    nuclide at other temperatures has the same reactions on another grid, c has one more"""
    def __init__(self, a):
        self.a, self.g, self.base, self.path = a, Gen(a.rng, .5), {}, {}

    def shape(self, s):
        r = self.a.rng
        if s not in self.base:
            d = self.g.table(ZA[s])
            tz = r.sample([293.6, 600., 900., 1200., 77.2, 2500., 300.4], 3)
            self.base[s] = d, tz
        return self.base[s]

    def make(self, key):
        if key in self.path:
            return self.path[key]
        r = self.a.rng
        x, s = key[0], int(key[1:])
        d, tz = self.shape(s)
        k = 'abc'.index(x)
        d = dict(d, tz=tz[k] * 8.6173303e-11, name='%d.%02dc' % (ZA[s], 10 * k + s))
        if k:
            n = max(len(d['E']) + r.randrange(-1, 3), 2)
            old = len(d['E'])
            E = self.g.grid(n)
            d.update(E=E, **{f: [r.randrange(0, 9 * U) for _ in E] for f in ('total', 'elastic', 'heating')})
            d['disapp'] = [r.randrange(1, 9 * U) for _ in E] if any(d['disapp']) else [0] * n
            rx = []
            for x in d['reactions']:
                ie = min(x['ie'], n)
                rx.append(dict(x, ie=ie, xs=[r.randrange(0, 9 * U) for _ in range(n - ie + 1)]))
            d['reactions'] = rx
            if 'photon' in d:
                # (n, gamma) by cross section refer to the grid
                d['photon'] = [dict(p) if p['mftype'] != 13 else dict(mt=p['mt'], law=p['law'], mftype=12, x=[1, 5 * U], y=[U, 2 * U]) for p in d['photon']]
            if 'urr' in d and r.random() < .3:
                d = {f: y for f, y in d.items() if f != 'urr'}
            if x == 'c' or k == 2:
                have = {y['mt'] for y in rx}
                new = [m for m in (23, 32, 105, 116) if m not in have]
                d['reactions'] = rx + [dict(mt=new[0], q=5, ie=1, xs=[r.randrange(0, 9 * U) for _ in E])]
        p = os.path.join(self.a.scratch, key + '.ace')
        acegen.write(p, d)
        self.path[key] = p
        return p


def history(log, a, ops, tabs, n):
    files = {}
    scheme = {} if str(n).endswith(('0', '3', '6', '8')) else dict(metastable_scheme='mcnp')      # also the default
    fn = lambda f: files.setdefault(f, os.path.join(a.scratch, 'h%s_%s.h5' % (n, f)))
    mem = None
    get = lambda: (nuclide(mem), '')
    log(ev='start')
    for i, o in enumerate(ops):
        if o.get('name', '').startswith('N'):
            o = dict(o, name=ace.get_metadata(ZA[int(o['name'][1:])], 'mcnp')[0])
        if o['op'] in ('load', 'add'):
            p = tabs.make(o['table'])
            t, exc = attempt(neutron.IncidentNeutron.from_ace, p, **scheme)
            if exc:
                log(ev='load', exc=exc, after=BLANK)
                return
            if o['op'] == 'load':
                mem = t
                if a.rng.random() < .4 and any(m in mem for m in FISSION):
                    mem.fission_energy = release(a.rng)
                log(ev='load', exc='', after=nuclide(mem))
            else:
                own = nuclide(t)
                src = ace.get_table(p) if a.rng.random() < .5 else p
                _, exc = attempt(mem.add_temperature_from_ace, src, **scheme)
                log(ev='add', table=own, exc=exc, after=nuclide(mem))
        elif o['op'] == 'export':
            f = fn(o['file'])
            _, exc = attempt(mem.export_to_hdf5, f, mode=o['mode'], libver=['earliest', 'latest'][a.rng.random() < .3])
            names = []
            if os.path.exists(f):
                import gc; gc.collect()     # a refused export leaves the file open
                with h5py.File(f, 'r') as h:
                    names = sorted(h)
            log(ev='export', file=o['file'], mode=o['mode'], exc=exc, names=names, after=nuclide(mem))
        else:
            f = fn(o['file'])
            with h5py.File(f, 'r') as h:
                names = sorted(h)
                if o['name'] == '' or len(names) == 1 and a.rng.random() < .6:
                    grp = None
                else:
                    grp = h[o['name']] if o['name'] in h else None
                if grp is not None:
                    t, exc = attempt(neutron.IncidentNeutron.from_hdf5, grp)
            if grp is None:
                t, exc = attempt(neutron.IncidentNeutron.from_hdf5, f)
            if exc:
                log(ev='import', file=o['file'], name=o['name'], exc=exc, after=BLANK)
                return
            pr, exc = attempt(nuclide, t)
            log(ev='import', file=o['file'], name=o['name'], exc=exc, after=pr if not exc else BLANK)
            if exc:
                return
            mem = t
    library(log, a, files, n)


def release(r):
    poly = lambda: Polynomial([r.randrange(1, 999) * 1e4, r.choice([0, 1, -1]) * r.randrange(1, 9) / 16.])
    tab = lambda: Tabulated1D(np.array([1e-5, 1e6, 2e7]), np.array([r.randrange(1, 999) * 1e4 for _ in range(3)]))
    return FissionEnergyRelease(*[tab() if r.random() < .3 else poly() for _ in range(7)])


def library(log, a, files, n):
    have = {f: p for f, p in files.items() if os.path.exists(p)}
    if not have:
        return
    r = a.rng
    sub = os.path.join(a.scratch, 'lib%s' % n)
    os.makedirs(os.path.join(sub, 'deep'), exist_ok=True)
    place = {}
    for i, (f, p) in enumerate(sorted(have.items())):
        place[f] = os.path.join(sub, ['', 'deep'][i % 2] if r.random() < .5 else '', os.path.basename(p))
        os.replace(p, place[f])
    order = sorted(place)
    r.shuffle(order)
    L = DataLibrary()
    def reg():
        for f in order:
            L.register_file(place[f])
    _, exc = attempt(reg)
    back = {os.path.realpath(p): f for f, p in place.items()}
    rows = lambda X: [dict(file=back.get(os.path.realpath(x['path']), '?'), type=x['type'], names=sorted(x['materials'])) for x in X.libraries]
    names = sorted({m for x in L.libraries for m in x['materials']}) + ['Zz1']
    hit = {}
    for m in names:
        x = L.get_by_material(m)
        hit[m] = back.get(os.path.realpath(x['path']), '?') if x else ''
    log(ev='library', order=order, exc=exc, rows=rows(L), hit=hit)
    for xml in [os.path.join(sub, 'cs.xml'), os.path.join(sub, 'deep', 'cs.xml'), os.path.join(a.scratch, 'cs%s.xml' % n)]:
        _, exc = attempt(L.export_to_xml, xml)
        K, exc = attempt(DataLibrary.from_xml, xml) if not exc else (None, exc)
        hit = {}
        if not exc:
            for m in names:
                x = K.get_by_material(m)
                hit[m] = back.get(os.path.realpath(x['path']), '?') if x else ''
        log(ev='library', order=order, exc=exc, rows=rows(K) if not exc else [], hit=hit)


def multipole(log, a, n):
    r = a.rng
    from ASAPy.data.multipole import WindowedMultipole as W
    nw, npole, fis = r.randrange(1, 5), r.randrange(1, 9), r.random() < .5
    rnd = lambda *k: np.array([r.randrange(-999, 999) / 64. for _ in range(int(np.prod(k)))]).reshape(k)
    w = W('U%d' % r.randrange(230, 240))
    w.spacing, w.sqrtAWR, w.E_min, w.E_max = r.randrange(1, 99) / 64., r.randrange(1, 999) / 64., r.randrange(0, 9) / 8., 1000. + r.randrange(99)
    w.data = (rnd(npole, 3 + fis) + 1j * rnd(npole, 3 + fis)).astype(complex)
    w.windows = np.array([[r.randrange(1, npole + 1), r.randrange(1, npole + 1)] for _ in range(nw)])
    w.broaden_poly = np.array([r.random() < .5 for _ in range(nw)])
    w.curvefit = rnd(nw, r.randrange(3, 6), 2 + fis)
    bad = r.choice(['', '', 'broaden_poly', 'curvefit', 'order'])
    if bad == 'broaden_poly':
        w.broaden_poly = np.append(w.broaden_poly, True)
    elif bad == 'curvefit':
        w.curvefit = np.concatenate([w.curvefit, w.curvefit[:1]])
    elif bad == 'order':
        w.curvefit = w.curvefit[:, :r.choice([1, 2])]
    f = os.path.join(a.scratch, 'w%d.h5' % n)
    show = lambda x: dict(name=x.name, scalars=[q(y, 64) for y in (x.spacing, x.sqrtAWR, x.E_min, x.E_max)], data=dig([str(z) for z in x.data.ravel().tolist()] + list(x.data.shape)),
                          windows=np.array(x.windows).tolist(), broaden=[bool(b) for b in x.broaden_poly], fit=dig(np.array(x.curvefit).tolist()), fis=bool(x.fissionable), order=int(x.fit_order))
    _, e1 = attempt(w.export_to_hdf5, f, mode='w')
    if n % 2:
        with h5py.File(f, 'r') as h:
            x, e2 = attempt(W.from_hdf5, h[w.name])
    else:
        x, e2 = attempt(W.from_hdf5, f)
    log(ev='wmp', bad=bad != '', exc=e1 or e2, before=show(w), after=show(x) if x is not None else show(w))
    os.remove(f)


def run(log, a):
    warnings.simplefilter('ignore')
    cases = load_cases(a.cases)
    a.rng.shuffle(cases)
    for n, c in enumerate(cases[:60 if not a.thorough else 1200]):
        history(log, a, c['ops'], Tables(a), n)
    for n in range(40 if not a.thorough else 500):
        multipole(log, a, n)
    for n in range(60 if not a.thorough else 1200):
        s = a.rng.choice([1, 2, 3, 4, 5, 6])
        ops = [dict(op='load', table='a%d' % s)] + [dict(op='add', table='%s%d' % (x, s)) for x in a.rng.sample('bc', a.rng.randrange(0, 3))]
        ops += [dict(op='export', file='f', mode='w'), dict(op='import', file='f', name=''), dict(op='export', file='g', mode='w'), dict(op='import', file='g', name='')]
        history(log, a, ops, Tables(a), 'x%d' % n)


if __name__ == '__main__':
    main(run)
