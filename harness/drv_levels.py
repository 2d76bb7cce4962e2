"""C29: cross sections of resolved resonances; the compiled module is built from the source in the repository"""
import copy, importlib.machinery, importlib.util, math, os, subprocess, sys
import numpy as np
from common import *
from side import parallel
import endfgen as E

REPO = os.environ.get('ASAPY_REPO', '/repo')
ONE = 1 << 20
KEV = math.sqrt(2 * 939.5654133e6) / 197.3269788e5      # wave number of a heavy target at 1 eV, per root barn
A_EXACT = [1., 3., 15., 24., 249.]


def build(scratch):
    """the extension module, under the name the package imports it by"""
    src = os.path.join(REPO, 'ASAPy/data/reconstruct.pyx')
    if not os.path.exists(src):
        return
    c, so = os.path.join(scratch, 'reconstruct.c'), os.path.join(scratch, 'reconstruct.so')
    inc = subprocess.check_output(['/usr/bin/python3-config', '--includes'], text=True).split()
    for cmd in (['/opt/venv/bin/cython', '-2', src, '-o', c], ['gcc', '-shared', '-fPIC', '-O1', '-w'] + inc + ['-I' + np.get_include(), c, '-o', so]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError(p.stdout[-1000:])
    name = 'ASAPy.data.reconstruct'
    spec = importlib.util.spec_from_file_location(name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    # loading it imports the package, still without it
    for k in [k for k in sys.modules if k.split('.')[0] == 'ASAPy']:
        del sys.modules[k]
    sys.modules[name] = m


# ---- only to choose cases whose numbers the specification can hold ---------------
def pen(l, r):
    p, s = r, 0.
    for i in range(1, l + 1):
        n = (i - s) ** 2 + p * p
        p, s = r * r * p / n, r * r * (i - s) / n - i
    return p, s


def fx(x):
    return q(x, ONE)


class Range:
    """a resolved range: what is written and what the specification takes"""

    def __init__(self, rng, form, c, lo=-9, hi=9, easy=False):
        self.form, self.I2, self.rng = form, c['I2'], rng
        self.A = rng.choice(A_EXACT)
        self.e0 = rng.choice([1., 16., 256000.])
        self.k1 = self.A / (self.A + 1) * KEV * math.sqrt(self.e0)
        self.ls = sorted({c['l']} | {l for l in range(c['l']) if rng.random() < .4})
        top = max(self.ls)
        self.nro = int(rng.random() < .3)
        default = (.123 * (1.00866491588 * self.A) ** (1 / 3.) + .08) * self.k1
        self.naps = rng.choice([1, 2] if self.nro else [1])
        if .2 < default < 2 and (top == 0 or (default > .5 and (form == 3 or top < 3))) and rng.random() < .7:
            self.naps = 0
        self.default = default
        kap = lambda: self.short(rng.uniform(*((1.2, 1.5) if top > 2 else (.7, 1.2))) / self.k1)
        self.ap = kap()
        self.apl = {l: kap() if form == 3 and rng.random() < .5 else 0. for l in self.ls}
        self.lo, self.hi = -16 * self.e0, 32 * self.e0
        self.table = [(self.lo, kap()), (rng.choice([.5, 1., 2.]) * self.e0, kap()), (self.hi, kap())]
        self.q = {l: 0. for l in self.ls}
        self.res = {}
        for l in self.ls:
            rs = []
            for i in range(rng.choice([1, 2, 2, 3])):
                if i == 0 and l == c['l']:
                    e = rng.randrange(2, 12 if l else 24) / 4. * (-1 if c['bound'] else 1)
                    j = c['J2'] if c['J2'] in self.spins(l) else self.spins(l)[0]
                else:
                    e = rng.randrange(2, 12 if l else 24) / 4. * (-1 if rng.random() < .15 else 1)
                    j = rng.choice(self.spins(l))
                if any(x['e'] == e for x in rs):
                    continue
                w = lambda: rng.randrange(4, 25) / 16.
                x = dict(e=e, J2=j, neg=False, gn=w(), gg=w() + .25 + c['wide'], gf=0., gx=0., gfa=0., gfb=0.)
                if form == 3 and l > 0 and j in self.reach(l, abs(self.I2 - 1)) and rng.random() < .5 and j > 0:
                    x['neg'] = True
                if c['fissions'] and rng.random() < .8:
                    if form == 3:
                        x['gfa'] = w() * rng.choice([1, -1])
                        x['gfb'] = rng.choice([0, 0, w() * rng.choice([1, -1])])
                    else:
                        x['gf'] = w()
                rs.append(x)
            rs.sort(key=lambda x: x['e'])
            self.res[l] = rs
            if form < 3 and rng.random() < .35:
                ok = [x for x in rs if x['e'] > .75]
                if ok:
                    self.q[l] = -rng.choice([.25, .5])
                    for x in ok:
                        if x is ok[-1] or rng.random() < .5:
                            x['gx'] = rng.randrange(2, 12) / 16.

    def short(self, x):
        return float('%.4e' % x)

    def spins(self, l):
        if self.form == 3:
            return sorted({j for s in (abs(self.I2 - 1), self.I2 + 1) for j in self.reach(l, s)})
        return list(range(abs(abs(self.I2 - 2 * l) - 1), self.I2 + 2 * l + 2, 2))

    def reach(self, l, s):
        return list(range(abs(2 * l - s), 2 * l + s + 1, 2))

    def given(self, l, e):
        if not self.nro:
            return None
        (a, x), (b, y), (c, z) = self.table
        e = e * self.e0
        return x + (y - x) * (e - a) / (b - a) if e < b else y + (z - y) * (e - b) / (c - b)

    def chan(self, l, e):
        k = self.apl[l] or self.ap
        return self.default if self.naps == 0 else self.k1 * (self.given(l, e) if self.nro and self.naps == 1 else k)

    def scat(self, l, e):
        return self.k1 * (self.given(l, e) if self.nro else self.apl[l] or self.ap)

    def fits(self, e):
        """numbers in reach of the specification, and away from where they lose their digits"""
        tot = 0
        for l in self.ls:
            r = self.chan(l, e) * math.sqrt(e)
            if r < (.3, .3, .5, .9, 1.5)[l] or max(r, self.scat(l, e) * math.sqrt(e)) > (3.2, 3.2, 3.2, 3., 2.3)[l]:
                return False
            pe, se = pen(l, r)
            for x in self.res[l]:
                r0 = self.chan(l, x['e']) * math.sqrt(abs(x['e']))
                if r0 < (.1, .3, .5, .9, 1.5)[l] or r0 > 3.2 or (r / r0) ** (2 * l + 1) > 60:
                    return False
                p, s = pen(l, r0)
                g = pe / p * x['gn']
                if g > 20 or g < 1e-3 or abs((s - se) / 2 / p * x['gn']) > 12 or (l and self.form < 3 and p < .004):
                    return False
                if x['gx']:
                    a, b = e + self.q[l], x['e'] + self.q[l]
                    if a > 0 and (a < .02 or (self.chan(l, a) * math.sqrt(a) / self.chan(l, b) / math.sqrt(b)) ** (2 * l + 1) > 40):
                        return False
                tot += (g + abs(x['gfa']) + abs(x['gfb'])) / max(x['gg'], 2 * abs(x['e'] - e))
        return self.form < 3 or tot < 7

    def channels(self, e):
        out = []
        for l in self.ls:
            w = lambda v: fx(self.chan(l, v)) if v > 0 or not self.nro else 0
            rho = 2 * self.scat(l, e) * math.sqrt(e)
            out.append(dict(l=l, k=fx(self.chan(l, e)), h=fx(self.scat(l, e)), kw=w(e + self.q[l]), t=[fx(math.cos(rho)), fx(math.sin(rho))], q=fx(self.q[l]),
                            res=[dict({n: fx(x[n]) for n in ('e', 'gn', 'gg', 'gf', 'gx', 'gfa', 'gfb')}, J2=x['J2'], neg=x['neg'], k=fx(self.chan(l, x['e'])), kw=w(x['e'] + self.q[l])) for x in self.res[l]]))
        return out

    def lines(self, lo, hi):
        A, e0 = self.A, self.e0
        s = E.cont(lo, hi, 1, self.form, self.nro, self.naps)
        if self.nro:
            s += E.tab1(0, 0, 0, 0, [(3, 2)], self.table)
        s += E.cont(self.I2 / 2., self.ap, 0, 0, len(self.ls), 0)
        for l in self.ls:
            v = []
            for x in self.res[l]:
                j = x['J2'] / 2. * (-1 if x['neg'] else 1)
                if self.form == 3:
                    v += [x['e'] * e0, j, x['gn'] * e0, x['gg'] * e0, x['gfa'] * e0, x['gfb'] * e0]
                else:
                    v += [x['e'] * e0, j, (x['gn'] + x['gg'] + x['gf'] + x['gx']) * e0, x['gn'] * e0, x['gg'] * e0, x['gf'] * e0]
            if self.form == 3:
                s += E.lst(A, self.apl[l], l, 0, len(self.res[l]), v)
            else:
                s += E.lst(A, self.q[l] * e0 * A / (A + 1), l, int(self.q[l] != 0), len(self.res[l]), v)
        return s

    def event(self, e, got):
        k2 = self.k1 ** 2 * e / math.pi
        return dict(ev='sigma', form=self.form, I2=self.I2, E=fx(e), cs=self.channels(e), got=[q(v * k2, ONE) for v in got])


def tape(path, ranges, bounds, three=()):
    b = dict(E.BASE, za=26056, awr=ranges[0].A)
    s = E.cont(26056, ranges[0].A, 0, 0, 1, 0) + E.cont(26056, 1., 0, 0, len(ranges), 0)
    for r, (lo, hi) in zip(ranges, bounds):
        s += r.lines(lo, hi)
    secs = [(2, 151, s)] + [(3, mt, E.cont(26056, ranges[0].A, 0, 0, 0, 0) + E.tab1(0, 0, 0, 0, [(len(xy), 2)], xy)) for mt, xy in three]
    open(path, 'w').write(E.tape([E.material(2631, [(1, 451, E.header(b, [(1, 451, 9, 1)] + [(f, t, len(l), 1) for f, t, l in secs]))] + secs)]))


def sigma(c, d, number):
    """load a range, evaluate it in several ways, then a changed copy of it, then the first again"""
    from ASAPy.data.neutron import IncidentNeutron
    rng = random.Random(c['seed'])
    for _ in range(200):
        r = Range(rng, c['form'], c)
        es = [x['e'] for l in r.ls for x in r.res[l] if x['e'] > 0] + [rng.randrange(4, 40) / 8. for _ in range(8)]
        es = [e for e in es if r.fits(e)]
        rng.shuffle(es)
        if es:
            break
    else:
        return []
    p = os.path.join(d, 'endf')
    tape(p, [r], [(1e-5, 32 * r.e0)])
    n, exc = attempt(IncidentNeutron.from_endf, p)
    if exc:
        return [dict(ev='sigma', exc='loading: ' + exc)]
    rr = n.resonances.ranges[0]
    out = []

    def ask(r, rr, es):
        x = [e * r.e0 for e in es]
        how = rng.choice(['one', 'list', 'array', 'whole'])
        if how == 'one':
            got = [attempt(rr.reconstruct, v) for v in x]
            bad = [b for _, b in got if b]
            got = [g for g, _ in got]
        else:
            if how == 'whole':
                es = [e for e, v in zip(es, x) if v == int(v)]
                x = [int(v) for v in x if v == int(v)]
                if not x:
                    return
            g, b = attempt(rr.reconstruct, x if how == 'list' or rng.random() < .5 else np.array(x))
            bad = [b] if b else []
            got = [] if bad else [{m: g[m][i] for m in g} for i in range(len(x))]
        if bad:
            out.append(dict(ev='sigma', exc=how + ': ' + bad[0]))
            return
        for e, g in zip(es, got):
            out.append(dict(r.event(e, [g[2], g[102], g[18]]), exc='', how=how))
    ask(r, rr, es[:3])
    ask(r, rr, es[3:5] or es[:1])
    if rng.random() < .4:
        r2 = copy.copy(r)
        r2.res = {l: [dict(x, gg=x['gg'] + .5, gn=x['gn'] * .75) for x in v] for l, v in r.res.items()}
        rr2 = copy.copy(rr)
        df = rr.parameters.copy()
        df['captureWidth'] += .5 * r.e0
        df['neutronWidth'] *= .75
        rr2.parameters = df
        ask(r2, rr2, [e for e in es[:2] if r2.fits(e)] or [])
        ask(r, rr, es[:2])
    return out


def tiny(log, a, rng):
    """s waves far from their level, at little energies: everything in powers of a small number"""
    from ASAPy.data.neutron import IncidentNeutron
    for k in range(60):
        n, m, d, ap = rng.choice([0, 4, 8, 12]), rng.choice([0, 4, 16]), rng.choice([1, 2, 4, -2]), rng.choice([1, 2, 3])
        eps = rng.choice([1e-4, 2e-5])
        c = dict(I2=0, l=0, J2=1, bound=False, wide=False, fissions=False)
        r = Range(random.Random(1), 3, c)
        r.A, r.e0, r.ls, r.nro, r.naps = 249., 1., [0], 0, 1
        r.k1 = r.A / (r.A + 1) * KEV
        r.ap, r.apl = float('%.6e' % (ap * eps / r.k1)), {0: 0.}
        # the energy is one, the level at 1 + d: widths of the size of eps
        r.res = {0: [dict(e=1. + d, J2=1, neg=False, gn=n * eps * math.sqrt(abs(1. + d)), gg=m * eps, gfa=0., gfb=0.)]}
        p = os.path.join(a.scratch, 'tiny')
        if d == -1:
            continue
        tape(p, [r], [(1e-5, 32.)])
        rr = IncidentNeutron.from_endf(p).resonances.ranges[0]
        g, exc = attempt(rr.reconstruct, 1.)
        s = r.k1 ** 2 / math.pi / eps ** 2 * 1000
        log(ev='tiny', n=n, m=m, d=d, a=ap, exc=exc, got=[] if exc else [q(g[2] * s), q(g[102] * s), q(g[18] * s)])


def whole(c, d, number):
    """cross sections of an evaluation: file 3 and the ranges of file 2 together"""
    from ASAPy.data.neutron import IncidentNeutron
    rng = random.Random(c['seed'])
    for _ in range(500):
        r = [Range(rng, rng.choice([1, 2, 3]), c) for _ in range(rng.choice([1, 2, 2]))]
        for x in r[1:]:
            x.A, x.e0, x.k1, x.nro, x.naps = r[0].A, r[0].e0, r[0].k1, 0, 1
            x.ap = x.short(rng.uniform(.9, 1.2) / x.k1)
            x.apl = {l: 0. for l in x.ls}
        m = [.5, rng.choice([1.5, 2.]), rng.choice([2.5, 3.])]
        if len(r) == 1:
            b = [(m[0], m[2])]
        else:
            b = [(m[0], m[1]), (m[1] if rng.random() < .7 else m[1] + .25, m[2])]
        es = [m[0], m[0] - .125, m[1], m[1] + .125, m[1] - .25, m[2], m[2] + .25, m[2] - .125]
        inside = lambda e: [k for k, (lo, hi) in enumerate(b) if lo <= e <= hi]
        if all(r[k].fits(e) for e in es for k in inside(e)):
            break
    else:
        return []
    e0 = r[0].e0
    unit = math.pi / r[0].k1 ** 2
    three, base = [], {}
    for mt in (2, 102) + ((18,) if rng.random() < .6 else ()):
        v = [float('%.4e' % (rng.choice([0, 1, 2, 5]) * unit / 4)) for _ in range(2)]
        base[mt] = v
        three.append((mt, [(1e-5 * e0, v[0]), (m[1] * e0, v[0]), (m[1] * e0, v[1]), (40 * e0, v[1])]))
    p = os.path.join(d, 'endf')
    tape(p, r, [(lo * e0, hi * e0) for lo, hi in b], sorted(three))
    n, exc = attempt(IncidentNeutron.from_endf, p)
    if exc:
        return [dict(ev='whole', exc='loading: ' + exc)]
    out = []
    for mt in base:
        f = n[mt].xs['0K']
        how = rng.choice(['one', 'array'])
        if how == 'array':
            rng.shuffle(es)
            got, exc = attempt(f, np.array([e * e0 for e in es]))
        else:
            got, exc = [], ''
            for e in es:
                g, x = attempt(f, e * e0)
                exc = exc or x
                got.append(g)
        if exc:
            out.append(dict(ev='whole', exc=how + ': ' + exc))
            continue
        for e, g in zip(es, got):
            s = e / unit
            out.append(dict(ev='whole', exc='', how=how, mt=mt, E=fx(e), got=q(float(g) * s, ONE), bg=[q(v * s, ONE) for v in ([base[mt][0]] if e < m[1] else [base[mt][1]] if e > m[1] else base[mt])],
                            ranges=[dict(form=r[k].form, I2=r[k].I2, cs=r[k].channels(e)) for k in inside(e)]))
    return out


def zero(c, d, number):
    """the elastic cross section at 0 K in a range of narrow resonances"""
    import acegen
    from ASAPy.data.neutron import IncidentNeutron
    rng = random.Random(c['seed'])
    case = dict(I2=0, l=0, J2=1, bound=False, wide=False, fissions=False)
    r, bounds, lo = [], [], rng.choice([1e-5, 1e-5, .5])
    for i in range(rng.choice([1, 1, 2])):
        x = Range(rng, rng.choice([1, 2, 3]), case)
        if r:
            x.A, x.ap = r[0].A, r[0].ap
        x.e0, x.nro, x.naps = 1., 0, 1
        x.k1 = x.A / (x.A + 1) * KEV
        x.ap = r[0].ap if r else x.short(rng.uniform(.01, .2) / x.k1)
        x.ls = [0, 1] if c['kind'] == 'two' else [0, 1, 2] if c['kind'] == 'falling' else [0]
        x.apl, x.q = {l: 0. for l in x.ls}, {l: 0. for l in x.ls}
        x.res = {}
        hi = (lo if i else 0.) + rng.choice([8.3, 17.7, 20.1, 6.7])
        hi = float('%.4e' % hi)
        for l in x.ls:
            es = [] if c['kind'] == 'bound' else sorted(rng.sample(range(2, 60), rng.choice([1, 3, 5])))
            if c['kind'] == 'falling':
                es = [56 - 18 * l - rng.randrange(10)]
            start = lo if i else 0.
            x.res[l] = [dict(e=float('%.4e' % e), J2=rng.choice([[1], [1, 3], [3, 5]][l]), neg=False, gn=w, gg=w * rng.choice([1, 4]), gf=0., gx=0., gfa=0., gfb=0.)
                        for e, w in ([(-rng.randrange(1, 5), .5)] if l == 0 else []) + [(start + (hi - start) * k / 61., rng.choice([2e-2, 2e-3, 2e-4, 5e-5])) for k in es]]
        r.append(x)
        bounds.append((lo, hi))
        lo = hi
    p, ap = os.path.join(d, 'endf'), os.path.join(d, 'ace')
    tape(p, r, bounds, [(2, [(1e-5, 0.), (lo, 0.), (lo, 5.), (40., 5.)])])
    U = 1024
    acegen.write(ap, dict(name='26056.01c', awr=1., tz=600 * 8.6173303e-11, E=[1 * U, 2 * U], total=[5, 7], disapp=[0, 0], elastic=[5, 7], heating=[0, 0]))
    n = IncidentNeutron.from_ace(ap)
    _, exc = attempt(n.add_elastic_0K_from_endf, p)
    if exc:
        return [dict(ev='zero', exc=exc)]
    z = n[2].xs['0K']
    f = IncidentNeutron.from_endf(p)[2].xs['0K']
    pts = []
    for x, (a, b) in zip(r, bounds):
        for l in x.ls:
            for y in x.res[l]:
                g = y['gn'] + y['gg']
                # levels are moved by their shift: look for the highest point near
                pts += [y['e'] + t * g for t in (-2., -1., -.5, -.25, 0., .25, .5, 1., 2.)]
        pts += [a * (b / a) ** rng.random() for _ in range(20)] + [rng.uniform(a, b) for _ in range(20)]
    pts += [v * (1 + t) for v in (bounds[0][0], bounds[-1][1]) for t in (-1e-3, -1e-9, -1e-12, 1e-12, 1e-9, 1e-3)]
    edges = [a for a, b in bounds[1:]]
    pts = [e for e in pts if any(a < e < b for a, b in bounds) and all(abs(e - v) > 1e-6 for v in edges)] + [bounds[0][0], bounds[-1][1]]
    return [dict(ev='zero', exc='', kind=c['kind'], lo=q(bounds[0][0], 10 ** 7), hi=q(bounds[-1][1], 10 ** 7), x=qs(z.x, 10 ** 7), same=[len(z.x), len(z.y), len(n.energy['0K'])],
                 at=[q(float(z(e)) / float(f(e)), 100000) for e in pts])]


def run(log, a):
    build(a.scratch)
    rng = a.rng
    cases = load_cases(a.cases)
    rng.shuffle(cases)
    with quiet():
        import ASAPy.data.neutron
    if a.part == 'whole':
        return parallel(log, a, [dict(rng.choice(cases), l=rng.choice([0, 0, 1]), J2=0, seed=rng.randrange(10 ** 9)) for k in range(400 if a.thorough else 80)], whole)
    if a.part == 'zero':
        return parallel(log, a, [dict(seed=rng.randrange(10 ** 9), kind=('one', 'two', 'falling', 'bound')[k % 4]) for k in range(160 if a.thorough else 32)], zero)
    n = 1500 if a.thorough else 250
    todo = [dict(c, form=k % 3 + 1, seed=rng.randrange(10 ** 9)) for k, c in enumerate(rng.choices(cases, k=n))]
    parallel(log, a, todo, sigma)
    tiny(log, a, rng)


main(run)
