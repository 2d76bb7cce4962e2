"""C21: evaluations written section by section, and what loading them yields."""
import os
import numpy as np
import endfgen as G
from common import *
with quiet():
    from ASAPy.data import neutron, endf, reaction
    from ASAPy.data.function import Tabulated1D, Polynomial
    from ASAPy.data.univariate import Tabular, Uniform, Legendre

U = 1024
INT = {'histogram': 1, 'linear-linear': 2, 'linear-log': 3, 'log-linear': 4, 'log-log': 5}
EMAX = 512          # eighths


# ---- records: reals are in eighths ------------------------------------------
def rec(k, c, n, r=(), v=()):
    return dict(k=k, c=[int(x) for x in c], n=[int(x) for x in n], r=[list(x) for x in r], v=[int(x) for x in v])


def text(x):
    c1, c2 = x['c'][0] / 8., x['c'][1] / 8.
    n, v = x['n'], [y / 8. for y in x['v']]
    if x['k'] == 'cont':
        return G.cont(c1, c2, *n)
    if x['k'] == 'list':
        return G.lst(c1, c2, n[0], n[1], n[3], v)
    if x['k'] == 'tab2':
        return G.tab2(c1, c2, n[0], n[1], n[3], x['r'])
    return G.tab1(c1, c2, n[0], n[1], x['r'], list(zip(v[::2], v[1::2])))


class Gen:
    def __init__(self, rng, za=92235, awr=120):
        self.rng, self.za, self.awr = rng, za, awr

    def cont(self, c1, c2, l1, l2, n1, n2):
        return rec('cont', (c1, c2), (l1, l2, n1, n2))

    def head(self, l1, l2, n1, n2):
        return self.cont(8 * self.za, self.awr, l1, l2, n1, n2)

    def lst(self, c1, c2, l1, l2, n2, v):
        return rec('list', (c1, c2), (l1, l2, len(v), n2), (), v)

    def regions(self, n, laws):
        k = self.rng.choice([1, 1, 2, 3])
        cut = sorted(self.rng.sample(range(2, n), min(k - 1, max(0, n - 2)))) + [n]
        return [(b, self.rng.choice(laws)) for b in cut]

    def tab2(self, c2, l1, l2, nz):
        return rec('tab2', (0, c2), (l1, l2, 1, nz), [(nz, self.rng.choice([1, 2, 22]))])

    def grid(self, lo=None, hi=EMAX, full=True):
        """whole energies with steps that are powers of two"""
        e = [lo or self.rng.choice([8, 8, 16, 32])]
        while len(e) < 2 or (e[-1] < hi and len(e) < 9 and (full or self.rng.random() < .7)):
            s = 8 * 2 ** self.rng.randrange(0, 6)
            if e[-1] + s > hi:
                s = 8
                while e[-1] + 2 * s <= hi:
                    s *= 2
                if e[-1] + s > hi:
                    break
            e.append(e[-1] + s)
        return e

    def t1(self, c1=0, c2=0, l1=0, l2=0, xs=None, ys=None, laws=(1, 2), zero=False):
        """a table whose values at the points of others are exact"""
        xs = xs or self.grid()
        ys = ys or [self.rng.choice([0] * zero + [1, 2, 4, 8, 16, 32]) for _ in xs]
        return rec('tab1', (c1, c2), (l1, l2, 0, len(xs)), self.regions(len(xs), laws), [z for p in zip(xs, ys) for z in p])

    def any1(self, c1=0, c2=0, l1=0, l2=0, lo=1):
        n = self.rng.choice([2, 2, 3, 4, 7])
        xs = sorted(self.rng.sample(range(lo, 800), n))
        return rec('tab1', (c1, c2), (l1, l2, 0, n), self.regions(n, (1, 2, 3, 4, 5)), [z for x in xs for z in (x, self.rng.randrange(1, 99))])

    # ---- file 5
    def law5(self, lf, app):
        r = self.rng
        app = dict(app, c=[r.randrange(-99, 99), 0], n=app['n'][:1] + [lf] + app['n'][2:])
        if lf == 1:
            n = r.choice([1, 2, 3])
            es = sorted(r.sample(range(1, 512), n))
            return [app, self.tab2(0, 0, 0, n)] + [self.any1(c2=e) for e in es]
        if lf in (5, 11):
            return [app, self.any1(), self.any1()]
        if lf == 12:
            return [app, self.any1(c1=r.randrange(1, 99), c2=r.randrange(1, 99))]
        return [app, self.any1()]

    def shares(self, k):
        return [[8], [4, 4], [4, 2, 2], [2, 2, 2, 2]][k - 1]

    def file5(self, lfs):
        g = self.grid()
        out = [self.head(0, 0, len(lfs), 0)]
        for i, lf in enumerate(lfs):
            s = self.shares(len(lfs))[i]
            out += self.law5(lf, self.t1(xs=g, ys=[s] * len(g)))
        return out

    # ---- file 4
    def leg(self, e):
        return self.lst(0, e, 0, 0, 0, [self.rng.randrange(-7, 8) for _ in range(self.rng.randrange(1, 9))])

    def mutab(self, e):
        n = self.rng.choice([2, 3, 5])
        mu = [-8] + sorted(self.rng.sample(range(-7, 8), n - 2)) + [8]
        return rec('tab1', (0, e), (0, 0, 1, n), [(n, self.rng.choice([1, 2, 4]))], [z for m in mu for z in (m, self.rng.randrange(1, 40))])

    def file4(self, ltt, lvt):
        r = self.rng
        out = [self.head(lvt, ltt, 0, 0)]
        if lvt:
            nk = r.choice([1, 6, 7, 13])
            c = self.lst(0, self.awr, 1 if ltt == 0 else 0, r.choice([1, 2]), 2, [r.randrange(-9, 9) for _ in range(nk)])
            out += [dict(self.cont(0, self.awr, c['n'][0], c['n'][1], nk, 2)), dict(c, k='values')]
        else:
            out += [self.cont(0, self.awr, 1 if ltt == 0 else 0, r.choice([1, 2]), 0, 2)]
        if ltt:
            es = sorted(r.sample(range(1, 500), r.choice([1, 2, 4])))
            if ltt in (1, 3):
                out += [self.tab2(0, 0, 0, len(es))] + [self.leg(e) for e in es]
            if ltt == 3:
                es = sorted(r.sample(range(500, 600), r.choice([1, 2, 3])))
            if ltt in (2, 3):
                out += [self.tab2(0, 0, 0, len(es))] + [self.mutab(e) for e in es]
        return out

    # ---- file 6
    def file6(self, laws, zas):
        out = [self.head(0, self.rng.choice([1, 2, 3]), len(laws), 0)]
        for code, za in zip(laws, zas):
            out += self.law6(code, za)
        return out

    def law6(self, code, za):
        r = self.rng
        law = {11: 1, 12: 1, 13: 1, 20: 2, 22: 2, 24: 2}.get(code, code)
        out = [self.t1(c1=8 * za, c2=8, l1=0, l2=law)]
        es = sorted(r.sample(range(1, 512), r.choice([1, 2, 3])))
        ne = len(es)
        if law == 1:
            lang = {11: 1, 12: 2, 13: r.choice([11, 12, 15])}[code]
            out.append(self.tab2(0, lang, r.choice([1, 2]), ne))
            for e in es:
                na = {1: r.choice([0, 1, 3]), 2: r.choice([1, 2])}.get(lang, r.choice([2, 4]))
                nep = r.choice([1, 2, 3, 5])
                x = sorted(r.sample(range(0, 200), nep))
                v = []
                for m in range(nep):
                    v += [x[m], r.randrange(1, 30)] + [r.randrange(-9, 9) if lang == 1 else r.randrange(0, 9) for _ in range(na)]
                out.append(self.lst(0, e, 0, na, nep, v))
        elif law == 2:
            lang = {20: 0, 22: 12, 24: 14}[code]
            out.append(self.tab2(0, 0, 0, ne))
            for e in es:
                if lang == 0:
                    v = [r.randrange(-7, 8) for _ in range(r.randrange(1, 8))]
                    out.append(self.lst(0, e, lang, 0, len(v), v))
                else:
                    m = self.mutab(e)
                    out.append(self.lst(0, e, lang, 0, len(m['v']) // 2, m['v']))
        elif law == 5:
            out.append(self.tab2(0, 0, 1, ne))
            out += [self.lst(0, e, r.choice([1, 2]), 0, 2, [r.randrange(-7, 8) for _ in range(r.randrange(1, 9))]) for e in es]
        elif law == 6:
            out.append(self.cont(r.randrange(8, 99), 0, 0, 0, 0, r.choice([3, 4, 5])))
        elif law == 7:
            out.append(self.tab2(0, 0, 0, ne))
            for e in es:
                mus = sorted(r.sample(range(-8, 9), r.choice([1, 2, 3])))
                out.append(self.tab2(e, 0, 0, len(mus)))
                out += [self.any1(c2=m, lo=0) for m in mus]
        return out

    # ---- file 1
    def nu(self, form, poly2=False):
        if form == 'tab':
            return [self.head(0, 2, 0, 0), self.t1()]
        return [self.head(0, 1, 0, 0), self.lst(0, 0, 0, 0, 0, [self.rng.randrange(1, 40)] + ([self.rng.randrange(1, 4)] if poly2 else []))]

    def delayed(self, groups, rep):
        rates = sorted(self.rng.sample(range(1, 60), groups))
        n = self.nu('tab') if rep == 'tab' else self.nu('poly', rep == 'poly2')
        return [n[0], self.lst(0, 0, 0, 0, 0, rates), n[1]]

    def spectra(self, groups, vary):
        out = [self.head(0, 0, groups, 0)]
        for g in range(groups):
            if vary == 'vary' and self.rng.random() < .8:
                xs = self.grid(lo=8, full=self.rng.random() < .5)
                app = self.t1(xs=xs, ys=[self.rng.randrange(1, 9) for _ in xs])
            else:
                xs = self.grid(lo=8)
                app = self.t1(xs=xs, ys=[self.rng.choice([1, 2, 4, 8])] * len(xs))
            out += self.law5(self.rng.choice([1, 1, 5, 9]), app)
        return out

    # ---- files 8, 9, 10, 12, 13
    def states(self, n9, n10, skip=()):
        pool = [(za, l) for za in (26056, 27060, 1001, 95242, 2004) for l in (0, 1, 2)]
        return self.rng.sample(pool, n9 + n10)

    def act(self, mt, kind, names=()):
        r = self.rng
        n9 = 0 if kind == '10' else r.choice([1, 2, 3])
        n10 = 0 if kind == '9' else r.choice([1, 2])
        st = self.states(n9, n10)
        sub = r.choice([0, 1])
        rows = [(9, s) for s in st[:n9]] + [(10, s) for s in st[n9:]]
        if r.random() < .3:
            rows.append((r.choice([3, 6]), (92236, 0)))       # multiplicities given elsewhere
        r.shuffle(rows)
        out = [self.head(0, 0, len(rows), sub)]
        for lmf, (za, lfs) in rows:
            if sub:
                out.append(self.cont(8 * za, r.randrange(0, 50), lmf, lfs, 0, 0))
            else:
                nd = r.choice([0, 1, 2])
                out.append(self.lst(8 * za, r.randrange(0, 50), lmf, lfs, 0, [r.randrange(0, 99) for _ in range(6 * nd)]))
        secs = [(8, mt, out)]
        for mf, ss in ((9, st[:n9]), (10, st[n9:])):
            if ss:
                secs.append((mf, mt, [self.head(0, 0, len(ss), 0)] + [self.t1(c1=r.randrange(-99, 99), c2=r.randrange(-99, 99), l1=za, l2=lfs, xs=self.grid(full=r.random() < .5)) for za, lfs in ss]))
        return secs

    def photons(self, mt, kind):
        r = self.rng
        if kind == 'arrays':
            return [(12, mt, [self.head(2, 1, 2, 0), self.lst(r.randrange(1, 99), 0, 0, 0, 2, [4, 8, 2, 8])])]
        mf = int(kind[:2])
        n = 1 if kind[2] == 'a' else r.choice([2, 3])
        out = [self.head(1 if mf == 12 else 0, 0, n, 0)]
        if n > 1:
            out.append(self.t1())
        for i in range(n):
            lf = r.choice([1, 2, 2])
            out.append(self.t1(c1=r.randrange(1, 4000) if lf == 2 else 0, c2=r.randrange(0, 5000), l1=r.choice([0, 1, 2]), l2=lf, xs=self.grid(full=r.random() < .5)))
        return [(mf, mt, out)]

    def xs(self, mt):
        a = self.awr // 8
        return (3, mt, [self.head(0, 0, 0, 0), self.t1(c1=self.rng.randrange(-99, 99), c2=-a * 8 * self.rng.randrange(0, 9), zero=True)])


def build(g, cs):
    """the sections of an evaluation with the reactions chosen"""
    secs = []
    for c in cs:
        mt = c['mt']
        secs.append(g.xs(mt))
        if c['part']:
            secs.append(g.xs(c['part']))
        if c['nu'] != 'none':
            if c['nu'] in ('total', 'both'):
                secs.append((1, 452, g.nu(c['nuform'], True)))
            if c['nu'] in ('prompt', 'both'):
                secs.append((1, 456, g.nu(c['nuform'], True)))
            if c['groups']:
                secs.append((1, 455, g.delayed(c['groups'], c['dlrep'])))
                if c['vary'] != 'no':
                    secs.append((5, 455, g.spectra(c['groups'], c['vary'])))
        if c['d'] in ('4', '45'):
            secs.append((4, mt, g.file4(c['ltt'], c['lvt'])))
        if c['d'] in ('5', '45'):
            secs.append((5, mt, g.file5(c['lfs'])))
            if c['part'] and g.rng.random() < .3:
                secs.append((5, c['part'], g.file5(c['lfs'])))
        if c['d'] == '6':
            zas = [1, 0, 1001, 2004, 26056, 92236]
            if g.rng.random() < .5:
                g.rng.shuffle(zas)
            secs.append((6, mt, g.file6(c['laws'], zas)))
            if c['part'] and g.rng.random() < .6:
                secs.append((6, c['part'], g.file6(c['laws'], zas)))
        if c['act'] != 'none':
            secs += g.act(mt, c['act'])
        if c['ph'] != 'none':
            secs += g.photons(mt, c['ph'])
    return sorted(secs, key=lambda s: s[:2])


def lines(x, recs):
    out = []
    for r in recs:
        if r['k'] == 'values':
            v = [y / 8. for y in r['v']]
            out += [G.line(v[i:i + 6]) for i in range(0, len(v), 6)]
        else:
            out += text(r)
    return out


def write(path, g, secs, **kw):
    d = dict(G.BASE, za=g.za, awr=g.awr / 8., emax=EMAX / 8., **kw)
    body = [(2, 151, G.cont(g.za, g.awr / 8., 0, 0, 1, 0) + G.cont(g.za, 1., 0, 0, 1, 0) + G.cont(1e-5, 64., 0, 0, 0, 0) + G.cont(0.5, .5, 0, 0, 0, 0))] if kw.get('lrp', 1) else []
    for mf, mt, recs in secs:
        body.append((mf, mt, lines(None, recs)))
    body.sort(key=lambda s: s[:2])
    direc = [(1, 451, 4 + len(d['text']) + len(body) + 1, 1)] + [(mf, mt, len(l), 1) for mf, mt, l in body]
    with open(path, 'w') as f:
        f.write(G.tape([G.material(9228, [(1, 451, G.header(d, direc))] + body)]))


# ---- what was loaded ---------------------------------------------------------
def v(xs):
    return [qe(x, U, 1e-4) for x in xs]


def tab(t):
    return dict(b=[int(i) for i in t.breakpoints], i=[int(i) for i in t.interpolation], x=v(t.x), y=v(t.y))


def mu(m):
    if isinstance(m, Uniform):
        return dict(k='iso')
    if isinstance(m, Legendre):
        c = list(m.coefficients)
        return dict(k='leg', c=v(c))
    return dict(k='tab', i=INT[m.interpolation], x=v(m.x), p=v(m.p))


def angle(a):
    return dict(k='none') if a is None else dict(k='ang', e=v(a.energy), mu=[mu(m) for m in a.mu])


def law(d):
    n = type(d).__name__
    if d is None:
        return dict(k='none')
    if n == 'ArbitraryTabulated':
        return dict(k='arb', e=v(d.energy), pdf=[tab(t) for t in d.pdf])
    if n == 'GeneralEvaporation':
        return dict(k='gen', theta=tab(d.theta), g=tab(d.g), u=qe(d.u, U))
    if n == 'MaxwellEnergy':
        return dict(k='max', theta=tab(d.theta), u=qe(d.u, U))
    if n == 'Evaporation':
        return dict(k='eva', theta=tab(d.theta), u=qe(d.u, U))
    if n == 'WattEnergy':
        return dict(k='watt', a=tab(d.a), b=tab(d.b), u=qe(d.u, U))
    if n == 'MadlandNix':
        return dict(k='mad', efl=qe(d.efl, U), efh=qe(d.efh, U), tm=tab(d.tm))
    if n == 'LevelInelastic':
        return dict(k='level', thr=qe(d.threshold, U, 1e-4), ratio=qe(d.mass_ratio, 4096, 1e-4))
    if n == 'DiscretePhoton':
        return dict(k='line', flag=int(d.primary_flag), e=qe(d.energy, U), awr=qe(d.atomic_weight_ratio, U))
    return dict(k=n)


def reg(d):
    return dict(b=[int(i) for i in d.breakpoints], i=[int(i) for i in d.interpolation])


def dist(d):
    n = type(d).__name__
    if n == 'UncorrelatedAngleEnergy':
        return dict(k='unc', e=law(d.energy), a=angle(d.angle))
    if n == 'CorrelatedAngleEnergy':
        return dict(k='corr', r=reg(d), e=v(d.energy), int=sorted({INT[x.interpolation] for x in d.energy_out}), x=[v(x.x) for x in d.energy_out], p=[v(x.p) for x in d.energy_out],
                    mu=[[v(m.coefficients) for m in ms] for ms in d.mu])
    if n == 'KalbachMann':
        return dict(k='km', r=reg(d), e=v(d.energy), int=sorted({INT[x.interpolation] for x in d.energy_out}), x=[v(x.x) for x in d.energy_out], p=[v(x.p) for x in d.energy_out],
                    pre=[v(t.y) for t in d.precompound], slope=[v(t.y) for t in d.slope], px=[v(t.x) for t in d.precompound], sx=[v(t.x) for t in d.slope])
    if n == 'NBodyPhaseSpace':
        return dict(k='nbody', m=qe(d.total_mass, U), n=int(d.n_particles))
    if n == 'LaboratoryAngleEnergy':
        return dict(k='lab', r=reg(d), e=v(d.energy), mu=[v(m.x) for m in d.mu], out=[[dict(x=v(t.x), p=v(t.p)) for t in ts] for ts in d.energy_out])
    return dict(k=n)


def product(p, pts):
    return dict(part=p.particle, mode=p.emission_mode, rate=qe(p.decay_rate, U), at=[q(p.yield_(x / 8.), U) for x in pts], app=[tab(t) for t in p.applicability], dist=[dist(d) for d in p.distribution])


def points(secs):
    s = set()
    for mf, mt, recs in secs:
        if mf in (1, 3, 9, 10, 12, 13) or (mf, mt) == (5, 455):
            for r in recs:
                if r['k'] == 'tab1' and (mf != 5 or r['n'][1] in (1, 5, 9)):
                    s |= set(r['v'][::2])
    return sorted(x for x in s if x % 8 == 0 and x <= EMAX)


def one(log, a, g, secs, via, **kw):
    fn = os.path.join(a.scratch, 'tape')
    write(fn, g, secs, **kw)
    pts = points(secs)
    rx = []

    def load():
        if via == 'file':
            return neutron.IncidentNeutron.from_endf(fn)
        return neutron.IncidentNeutron.from_endf(endf.Evaluation(fn))
    d, exc = attempt(load)
    ev = dict(ev='load', awr=g.awr, emax=EMAX, za=g.za, liso=kw.get('liso', 0), temp=int(kw.get('temp', 0)), pts=pts, exc=exc,
              secs=[dict(mf=mf, mt=mt, recs=recs) for mf, mt, recs in secs], got=dict(mts=[]))
    if not exc:
        def look():
            out = []
            for mt, r in d.reactions.items():
                out.append(dict(q=qe(r.q_value, U), xs=tab(r.xs['0K']), keys=sorted(r.xs), prods=[product(p, pts) for p in r.products], derived=[product(p, pts) for p in r.derived_products]))
            return dict(mts=[int(m) for m in d.reactions], rx=out, name=d.name, z=d.atomic_number, a=d.mass_number, m=d.metastable, awr=qe(d.atomic_weight_ratio, 8), temps=list(d.temperatures))
        got, exc = attempt(look)
        ev['exc'] = exc and 'reading it: ' + exc
        if not exc:
            ev['got'] = got
    log(**ev)


def run(log, a):
    rng = a.rng
    if a.part == 'cases':
        cs = load_cases(a.cases)
        fis = [c for c in cs if c['mt'] == 18]
        rest = [c for c in cs if c['mt'] != 18]
        n = 6000 if a.thorough else 330
        for c in (rng.sample(fis, min(n, len(fis))) + rng.sample(rest, min(2 * n, len(rest)))):
            g = Gen(rng, awr=rng.choice([8, 24, 56, 120, 248, 504]))
            one(log, a, g, build(g, [c]), rng.choice(['file', 'ev']))
    else:
        cs = load_cases(a.cases)
        by = {}
        for c in cs:
            by.setdefault(c['mt'], []).append(c)
        for k in range(600 if a.thorough else 60):
            g = Gen(rng, za=rng.choice([92235, 95242, 1001, 26056]), awr=rng.choice([8, 24, 56, 120, 248, 504]))
            mts = rng.sample(sorted(by), rng.randrange(2, len(by) + 1))
            pick = []
            for m in mts:
                c = dict(rng.choice(by[m]))
                if m == 18:
                    c['lfs'] = [rng.choice([1, 5, 7, 9, 11, 12]) for _ in range(rng.randrange(1, 4))]
                    c['laws'] = rng.choice([[11, 0], [7, 11], [12], [0, 3], [6, 20]])
                    c['part'] = rng.choice([0, 19, 20, 21, 38])
                    c['groups'] = rng.choice([0, 1, 2, 3, 5, 6, 6, 7, 8, 9])
                pick.append(c)
                if m in (16, 102, 103, 51) and rng.random() < .4:
                    pick.append(dict(c, mt={16: 17, 102: 107, 103: 104, 51: rng.randrange(52, 90)}[m]))
            one(log, a, g, build(g, pick), rng.choice(['file', 'ev']), liso=rng.choice([0, 0, 1, 2]), temp=rng.choice([0., 0., 294., 600.]), lrp=rng.choice([0, 1, 1]))


if __name__ == '__main__':
    main(run)
