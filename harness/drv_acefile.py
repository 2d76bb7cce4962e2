"""C05: what the ACE reader makes of synthetic tables and libraries."""
import os, struct
import numpy as np
from common import *
import acegen
from acegen import U, R
with quiet():
    from ASAPy.data import ace, neutron, endf
    from ASAPy.data.function import Tabulated1D
    from ASAPy.data.univariate import Tabular, Uniform, Discrete, Mixture

M = 1e-6
INT = {'histogram': 1, 'linear-linear': 2, 'linear-log': 3, 'log-linear': 4, 'log-log': 5}


# ---- projection of loaded objects ------------------------------------------
def v(xs, s=1.):
    return [qe(float(x) * s, U, 1e-4) for x in xs]


def tab(t, ys=1.):
    return dict(bp=[int(i) for i in t.breakpoints], law=[int(i) for i in t.interpolation], x=v(t.x, M), y=v(t.y, ys))


def yld(y):
    if isinstance(y, Tabulated1D):
        return dict(k='tab', t=tab(y))
    return dict(k='poly', c=[qe(c * 1e6 ** i, U, 1e-4) for i, c in enumerate(y.coef)])


def outd(d):
    if isinstance(d, Mixture):
        disc, cont = d.distribution
    elif isinstance(d, Discrete):
        disc, cont = d, None
    else:
        disc, cont = None, d
    return dict(int=INT[cont.interpolation] if cont else 0, x=v(cont.x, M) if cont else [], p=v(cont.p, 1e6) if cont else [],
                c=v(cont.c) if cont else [], dx=v(disc.x, M) if disc else [], dp=v(disc.p) if disc else [])


def ang(d):
    if isinstance(d, Uniform):
        return dict(k='iso')
    if len(d.x) == 33 and d.interpolation == 'histogram':
        ok = np.allclose(np.array(d.p)[:32] * 32 * np.diff(d.x), 1) and np.allclose(d.c, np.arange(33) / 32)
        return dict(k='equi' if ok else 'equi-wrong', x=v(d.x))
    return dict(k='tab', int=INT[d.interpolation], x=v(d.x), p=v(d.p), c=v(d.c))


def angle(a):
    if a is None:
        return dict(k='none')
    return dict(k='ang', e=v(a.energy, M), mu=[ang(m) for m in a.mu])


def head(e):
    return dict(bp=[int(i) for i in e.breakpoints], itp=[int(i) for i in e.interpolation], ein=v(e.energy, M))


def law(d):
    n = type(d).__name__
    if n == 'UncorrelatedAngleEnergy':
        d = d.energy
        n = type(d).__name__
    if n == 'NoneType':
        return dict(law=0)
    if n == 'DiscretePhoton':
        return dict(law=2, flag=int(d.primary_flag), e=qe(d.energy * M, U, 1e-4))
    if n == 'LevelInelastic':
        return dict(law=3, thr=qe(d.threshold * M, U, 1e-4), ratio=qe(d.mass_ratio, U))
    if n in ('MaxwellEnergy', 'Evaporation'):
        return dict(law=7 if n[0] == 'M' else 9, theta=tab(d.theta, M), u=qe(d.u * M, U, 1e-4))
    if n == 'WattEnergy':
        return dict(law=11, a=tab(d.a, M), b=tab(d.b, 1e6), u=qe(d.u * M, U, 1e-4))
    if n == 'ContinuousTabular':
        return dict(law=4, head=head(d), out=[outd(x) for x in d.energy_out])
    if n == 'KalbachMann':
        return dict(law=44, head=head(d), out=[outd(x) for x in d.energy_out], r=[v(x.y) for x in d.precompound], a=[v(x.y) for x in d.slope])
    if n == 'CorrelatedAngleEnergy':
        return dict(law=61, head=head(d), out=[outd(x) for x in d.energy_out], mu=[[ang(y) for y in x] for x in d.mu])
    if n == 'NBodyPhaseSpace':
        return dict(law=66, n=int(d.n_particles), mass=qe(d.total_mass, U))
    return dict(law=-1)


def dists(p):
    out = []
    for i, d in enumerate(p.distribution):
        app = tab(p.applicability[i]) if i < len(p.applicability) else dict(bp=[], law=[], x=[], y=[])
        unc = type(d).__name__ == 'UncorrelatedAngleEnergy'
        out.append(dict(app=app, d=law(d), angle=angle(d.angle) if unc else dict(k='none')))
    return out


def product(p):
    yr = [q(y, U) for y in p.yield_.y] if isinstance(p.yield_, Tabulated1D) else []
    return dict(mode=p.emission_mode, yield_=yld(p.yield_), yr=yr, dists=dists(p), rate=qe(p.decay_rate * 1e-8, U, 1e-4))


def fixk(d):
    d['yield'] = d.pop('yield_')
    return d


def project(dat, E):
    strT = dat.temperatures[0]
    rows = []
    for rx in dat:
        t = rx.xs[strT]
        first = 0
        if len(t.x):
            k = int(np.argmin(abs(E - t.x[0])))
            if len(t.x) <= len(E) - k and np.allclose(t.x, E[k:k + len(t.x)], rtol=1e-9):
                first = k + 1
        prods = list(rx.products or [])
        rows.append(dict(mt=int(rx.mt), first=first, y=v(t.y), q=qe(rx.q_value * M, U, 1e-4), cm=bool(rx.center_of_mass),
                         red=bool(rx.redundant), neutrons=[fixk(product(p)) for p in prods if p.particle == 'neutron'],
                         photons=[fixk(product(p)) for p in prods if p.particle == 'photon'],
                         derived=[fixk(product(p)) for p in (rx.derived_products or [])]))
    urr = []
    for u in dat.urr.values():
        t = np.array(u.table)
        rowt = [[v(t[i, r], M if r == 5 else 1) for r in range(t.shape[1])] for i in range(t.shape[0])]
        urr.append(dict(int=int(u.interpolation), inel=int(u.inelastic_flag), abs=int(u.absorption_flag), smooth=bool(u.multiply_smooth),
                        e=v(u.energy, M), tab=rowt))
    return dict(ident=[int(dat.atomic_number), int(dat.mass_number), int(dat.metastable)], awr=q(dat.atomic_weight_ratio, 1e6),
                kt=q(dat.kTs[0], 1e8), ntemps=len(dat.temperatures), kelvin=int(strT.rstrip('K')),
                energy=v(dat.energy[strT], M), rx=rows, urr=urr)


EMPTY = dict(ident=[], awr=0, kt=0, ntemps=0, kelvin=0, energy=[], rx=[], urr=[])


def load(log, a, d, scheme='mcnp', binary=False, viatable=False):
    p = os.path.join(a.scratch, 't.ace')
    b = acegen.build(d)
    with open(p, 'w') as f:
        f.write(acegen.text(d, b))
    if binary:
        _, exc = attempt(ace.ascii_to_binary, p, p + 'b')
        if exc:
            log(ev='load', nxs=b.nxs, jxs=b.jxs, x=[], zaid=0, scheme=scheme, hawr=0, hkt=0, exc=exc, **EMPTY)
            return
        p += 'b'
    E = np.array([e / U * 1e6 for e in d['E']])
    if viatable:
        tb, exc = attempt(ace.get_table, p, d['name'])
        dat, exc = attempt(neutron.IncidentNeutron.from_ace, tb, metastable_scheme=scheme) if not exc else (None, exc)
    else:
        dat, exc = attempt(neutron.IncidentNeutron.from_ace, p, metastable_scheme=scheme)
    pr = EMPTY
    if not exc:
        pr, exc = attempt(project, dat, E)
        if exc:
            exc, pr = 'projection:' + exc, EMPTY
    log(ev='load', nxs=b.nxs, jxs=b.jxs, x=[acegen.scaled(x) for x in b.x], zaid=int(d['name'].split('.')[0]), scheme=scheme,
        hawr=q(d['awr'], 1e6), hkt=q(float('%.4E' % d.get('tz', 2.5301e-8)) * 1e6, 1e8), exc=exc, **pr)


# ---- random tables --------------------------------------------------------------
class Gen:
    def __init__(self, rng, disc=.25):
        self.r, self.disc = rng, disc

    def grid(self, n, hi=20 * U):
        return sorted(self.r.sample(range(1, hi), n))

    def t1(self, lo=1, n=None):
        n = n or self.r.randrange(lo + 1, 5)
        x = self.grid(n)
        y = [self.r.randrange(0, 4 * U) for _ in x]
        if self.r.random() < .5 or n < 3:
            return (x, y, (), ())
        k = self.r.randrange(2, n)
        return (x, y, (k, n), (self.r.choice([1, 2, 3, 4, 5]), self.r.choice([1, 2, 5])))

    def cdf(self, n):
        return [0] + sorted(self.r.sample(range(1, U), n - 2)) + [U] if n > 1 else [U]

    def outt(self, k, disc=False):
        n = self.r.randrange(2, 5)
        x = self.grid(n)
        t = dict(intt=self.r.choice([1, 2]), x=x, p=[self.r.randrange(0, U) for _ in x], c=self.cdf(n))
        if disc and n > 2:
            nd = n if self.r.random() < .2 else self.r.randrange(1, n - 1)
            t['intt'] += 10 * nd
            # discrete probabilities stay below one
            t['p'] = [self.r.randrange(1, 60) if i < nd else y for i, y in enumerate(t['p'])]
            # and accumulate; the continuous part goes on from there
            cum = [sum(t['p'][:i + 1]) for i in range(nd)]
            t['c'] = cum if nd == n else cum + sorted(self.r.sample(range(cum[-1], U), n - nd - 1)) + [U]
        if k == 44:
            t['r'] = [self.r.randrange(0, U) for _ in x]
            t['a'] = [self.r.randrange(0, U) for _ in x]
        if k == 61:
            t['mu'] = [None if self.r.random() < .3 else self.mu() for _ in x]
        return t

    def mu(self):
        n = self.r.randrange(2, 5)
        x = [-U] + sorted(self.r.sample(range(-U + 1, U), n - 2)) + [U]
        return dict(kind='tab', intt=self.r.choice([1, 2]), mu=x, p=[self.r.randrange(0, U) for _ in x], c=self.cdf(n))

    def law(self, E, kinds=(3, 4, 7, 9, 11, 44, 61, 66, 33)):
        k = self.r.choice(kinds)
        d = dict(law=k)
        if self.r.random() < .5:
            d['ax'], d['ay'] = [E[0], E[-1] + 7], [self.r.randrange(1, U), self.r.randrange(1, U)]
        if k == 2:
            d.update(flag=self.r.choice([0, 1, 2]), e=self.r.randrange(1, 9 * U))
        elif k in (3, 33):
            d.update(thr=self.r.randrange(0, 9 * U), ratio=self.r.randrange(1, U))
        elif k in (7, 9):
            x, y, _, _ = self.t1()
            d.update(x=x, y=y, u=self.r.randrange(-3 * U, U))
        elif k == 11:
            x, y, _, _ = self.t1()
            x2, y2, _, _ = self.t1()
            d.update(x=x, a=y, x2=x2, b=y2, u=self.r.randrange(-3 * U, U))
        elif k in (4, 44, 61):
            n = self.r.randrange(1, 4)
            d.update(ein=self.grid(n), tab=[self.outt(k, self.r.random() < self.disc) for _ in range(n)])
            if self.r.random() < .4:
                d.update(bp=(n,), itp=(self.r.choice([1, 2]),))
        elif k == 66:
            d.update(n=self.r.randrange(2, 5), ap=self.r.randrange(U, 9 * U))
        return d

    def angle(self, corr=False):
        x = self.r.random()
        if corr:
            return 'corr'
        if x < .4:
            return None
        out = []
        for e in self.grid(self.r.randrange(1, 4)):
            y = self.r.random()
            if y < .3:
                out.append(dict(kind='iso', e=e))
            elif y < .5:
                mu = [-U] + sorted(self.r.sample(range(-U + 1, U), 31)) + [U]
                out.append(dict(kind='equi', e=e, mu=mu))
            else:
                out.append(dict(self.mu(), e=e))
        return out

    def table(self, zaid=None):
        r = self.r
        n = r.randrange(2, 9)
        E = self.grid(n)
        val = lambda: r.choice([r.randrange(0, 9 * U), r.randrange(0, 9 * U), 0, r.randrange(-99, 0)])
        pos = lambda: r.randrange(0, 9 * U)
        rx = []
        mts = r.sample([4, 5, 16, 17, 22, 28, 51, 52, 53, 91, 102, 103, 104, 107, 111, 600, 601, 649, 650, 800, 849, 875, 876, 203, 218, 444, 37],
                       r.randrange(0, 9))
        fis = r.choice([None, None, [18], [18], [18, 19], [19, 20, 21, 38]])
        ph = []
        for mt in mts + (fis or []):
            ie = r.randrange(1, n + 1)
            full = r.random() < .85
            m = n - ie + 1 if full else r.randrange(1, n - ie + 2)
            d = dict(mt=mt, q=r.randrange(-9 * U, 9 * U), ie=ie, xs=[val() for _ in range(m)])
            if mt in (18, 19, 20, 21, 38):
                d['ty'] = 19 * r.choice([1, 1, -1])
                if d['ty'] < 0:
                    d['ty'] = 19
                d['law'] = self.law(E, (4, 4, 4, 7, 11, 9))
                d['angle'] = self.angle()
            elif mt < 102 or r.random() < .1:
                if r.random() < .75:
                    d['ty'] = r.choice([1, -1, 2, -2, 3])
                    if r.random() < .2:
                        x, y, bp, lw = self.t1()
                        d['yield'] = (x, y, bp, lw)
                    ls = [self.law(E) for _ in range(r.choice([1, 1, 1, 2]))]
                    d['law'] = ls
                    corr = any(x['law'] in (44, 61, 66) for x in ls)
                    d['angle'] = self.angle(corr)
            rx.append(d)
        d = dict(name='%s.%dc' % (zaid or r.choice([1001, 8016, 26056, 92235, 94239, 40090, 5010]), r.randrange(10, 99)),
                 awr=r.choice([0.999167, 233.0248, 55.4544, 15.8575]), tz=r.choice([293.6, 300., 600., 900., 1200., 0.1 * r.randrange(3000, 24000)]) * 8.6173303e-11,
                 E=E, total=[pos() for _ in E], disapp=[0] * n if r.random() < .15 else [pos() for _ in E],
                 elastic=[val() for _ in E], heating=[pos() for _ in E], reactions=rx, gap=r.randrange(0, 4), tail=r.randrange(0, 4),
                 header=r.choice([0, 0, 3, 3]), elastic_angle=self.angle())
        if fis:
            nt = lambda: dict(zip(('kind', 'x', 'y', 'bp', 'law'), ('tab',) + self.t1()))
            npoly = lambda: dict(kind='poly', c=[r.randrange(0, 4 * U) for _ in range(r.randrange(1, 4))])
            one = lambda: nt() if r.random() < .75 else npoly()
            k = r.random()
            d['nu'] = dict(prompt=one(), total=one()) if k < .6 else dict(prompt=one())
            if r.random() < .5:
                G = r.choice([1, 2, 3, 6])
                probs = [r.choice([64, 128, 256]) for _ in range(G)]
                x, _, _, _ = self.t1()
                d['delayed'] = dict(nu=(x, [r.randrange(1, 100) for _ in x], (), ()),
                                    groups=[dict(rate=r.randrange(1, 4 * U), x=[E[0], E[-1] + 3], y=[p, p], law=self.law(E, (4, 4, 9))) for p in probs])
        if r.random() < .5:
            cand = [x['mt'] for x in rx if x['mt'] not in (203, 218, 444)] or [102]
            if any(50 < m < 92 for m in cand):
                cand.append(4)
            if any(600 <= m < 650 for m in cand):
                cand.append(103)
            if not [x for x in rx if x['mt'] == 102]:
                cand = [c for c in cand if c != 102]
            for i in range(r.randrange(0, 4)):
                if not cand:
                    break
                mt = r.choice(cand)
                p = dict(mt=mt * 1000 + i + 1, law=self.law(E, (2, 2, 4)))
                src = [x for x in rx if x['mt'] == mt]
                if r.random() < .4 and src:
                    p['mftype'] = 13
                    p['ie'] = src[0]['ie']
                    p['xs'] = [max(0, y) * r.choice([0, 1, 2, 3]) for y in src[0]['xs']]
                else:
                    p['mftype'] = r.choice([12, 16])
                    x, y, _, _ = self.t1()
                    p['x'], p['y'] = x, y
                ph.append(p)
            d['photon'] = ph
        if r.random() < .3:
            ne, m = r.randrange(1, 4), r.randrange(1, 4)
            d['urr'] = dict(e=self.grid(ne), m=m, int=r.choice([2, 5]), inel=r.choice([-1, 0, 4]), abs=r.choice([-1, 0, 102]), smooth=r.choice([0, 1]),
                            tab=[[[r.randrange(0, 3 * U) for _ in range(m)] for _ in range(6)] for _ in range(ne)])
        return d


# ---- libraries -------------------------------------------------------------------
def rawrow(d, b):
    return dict(name=d['name'], nxs=b.nxs, jxs=b.jxs, x=[acegen.scaled(x) for x in b.x], awr=q(d['awr'], 1e6),
                kt=q(float('%.4E' % d.get('tz', 2.5301e-8)), 1e14))


def tabrow(t):
    return dict(name=t.name, nxs=[int(i) for i in t.nxs[1:]], jxs=[int(i) for i in t.jxs[1:]], x=v(t.xss[1:]),
                awr=q(t.atomic_weight_ratio, 1e6), kt=q(t.temperature, 1e14))


def library(log, a, g, n):
    r = a.rng
    ds = []
    for i in range(r.randrange(1, 5)):
        if r.random() < .5:
            N = r.randrange(1, 6)
            d = dict(name='%d.%02dc' % (r.choice([1001, 92235, 8016]), 10 * i + r.randrange(10)), awr=1.5 + i, tz=(i + 1) * 2e-8,
                     E=g.grid(N), total=g.grid(N), disapp=g.grid(N), elastic=g.grid(N), tail=r.randrange(0, 9), header=r.choice([0, 3]))
        else:
            d = g.table()
            d['name'] = d['name'].split('.')[0] + '.%02dc' % (10 * i + r.randrange(10))
        if r.random() < .15:
            d['big'] = True     # several records in binary form
            d['tail'] = r.choice([505, 512, 513, 600, 1030])
        if n % 4 == 1 and i == 0:
            # lengths about the ends of the records of the binary form
            d['tail'] = 0
            k = len(acegen.build(d).x)
            d['tail'] = -(-k // 512) * 512 - k + (n // 4) % 3 - 1 + (512 if n % 8 == 5 else 0)
            d['tail'] = max(d['tail'], 0)
        ds.append(d)
    bs = [acegen.build(d) for d in ds]
    p = os.path.join(a.scratch, 'lib.ace')
    txt = [acegen.text(d, b) for d, b in zip(ds, bs)]
    rows = [rawrow(d, b) for d, b in zip(ds, bs)]
    if n % 6 == 0:
        # NJOY writes tiny values without the exponent letter
        i = r.randrange(len(ds))
        b = bs[i]
        pos = len(b.x) - 1 if b.x and isinstance(b.x[-1], R) else None
        if pos is not None:
            old = txt[i].splitlines(True)
            last = old[-1].rstrip('\n')
            old[-1] = last[:-20] + '%20s' % '1.2345678901-120' + '\n'
            txt[i] = ''.join(old)
            rows[i]['x'] = rows[i]['x'][:-1] + [0]
    open(p, 'w').write(''.join(txt))
    forms = [p]
    if n % 6:
        _, exc = attempt(ace.ascii_to_binary, p, p + 'b')
        if exc:
            log(ev='lib', tables=rows, all=True, asked=[], got=[], exc=exc)
        else:
            forms.append(p + 'b')
    for f in forms:
        L, exc = attempt(ace.Library, f)
        log(ev='lib', tables=rows, all=True, asked=[], got=[] if exc else [tabrow(t) for t in L.tables], exc=exc)
        asked = [d['name'] for d in ds if r.random() < .5] or [ds[-1]['name']]
        L, exc = attempt(ace.Library, f, table_names=asked if len(asked) > 1 else asked[0])
        log(ev='lib', tables=rows, all=False, asked=asked, got=[] if exc else [tabrow(t) for t in L.tables], exc=exc)
        for nm in ['', r.choice(ds)['name'], '999.99c']:
            t, exc = attempt(ace.get_table, f, nm or None)
            log(ev='get', tables=rows, asked=nm, got=[] if exc else [tabrow(t)], exc=exc)


def run(log, a):
    g = Gen(a.rng)
    if a.part == 'lib':
        for n in range(40 if not a.thorough else 500):
            library(log, a, g, n)
        return
    if a.part == 'model':
        cases = load_cases(a.cases)
        a.rng.shuffle(cases)
        for n, c in enumerate(cases[:200 if not a.thorough else 5000]):
            d = c['desc']
            vals = lambda mt, k: [16 * mt + i + 1 for i in range(k)]
            N = d['n']
            load(log, a, dict(name='92235.80c', awr=233.0248, E=[U * (k + 1) for k in range(N)], total=vals(1, N), disapp=vals(101, N), elastic=vals(2, N),
                              reactions=[dict(mt=x['mt'], q=i + 1, ie=x['ie'], xs=vals(x['mt'], N - x['ie'] + 1)) for i, x in enumerate(d['rx'])],
                              gap=d['gap'], header=[0, 3][n % 2]), binary=n % 3 == 2)
        return
    for n in range(110 if not a.thorough else 900):
        load(log, a, g.table(), binary=n % 4 == 3, viatable=n % 5 == 4, scheme='nndc' if n % 7 == 6 else 'mcnp')
    # identities
    zs = [1001, 1002, 2004, 6000, 8016, 13027, 40090, 92235, 94239, 95241, 95242, 95642, 1095242, 1095244, 1047110, 2072178, 27458, 47510, 52527, 67566, 95644, 98252, 61548, 72578]
    for z in zs:
        for sch in ('mcnp', 'nndc'):
            if z > 1000000 and sch == 'nndc':
                continue
            m, exc = attempt(ace.get_metadata, z, sch)
            log(ev='ident', zaid=z, scheme=sch, ident=[] if exc else [int(i) for i in m[2:]], exc=exc)


if __name__ == "__main__":
    main(run)
