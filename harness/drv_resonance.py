"""C23: resonance parameters and their covariances, written as files 2 and 32 and loaded."""
import os, random
import numpy as np
import endfgen as G
import drv_endfdata as D
from common import *
from side import parallel
with quiet():
    from ASAPy.data import neutron, endf
    from ASAPy.data import resonance as R
    from ASAPy.data import resonance_covariance as RC
    from ASAPy.data.function import Tabulated1D

UNR = ('ura', 'urb', 'urc')
LRU = {'radius': 0, 'ura': 2, 'urb': 2, 'urc': 2}
LRF = {'slbw': 1, 'mlbw': 2, 'rm': 3, 'rml': 7, 'ura': 1, 'urb': 1, 'urc': 2, 'radius': 0}
PER = {2: 18, 3: 12, 4: 11}
BW = ['energy', 'L', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth']
RM = ['energy', 'L', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']


def lines(recs):
    out = []
    for r in recs:
        if r['k'] != 'intg':
            out += D.text(r)
            continue
        d, n, m, _ = r['n']
        out += G.cont(0, 0, d, n, m, 0)
        for row in r['r']:
            s = '%5d%5d ' % tuple(row[:2])
            out.append((s + ''.join('%*d' % (d + 1, v) for v in row[2:])).ljust(66))
    return out


class Gen(D.Gen):
    def range2(self, r):
        """the records of one range, and the rows of its resonances"""
        g, k = self.rng, r['k']
        ap = g.randrange(1, 20)
        out = [self.cont(8, 512, LRU.get(k, 1), LRF[k], r['nro'], r['naps'])]
        if r['nro']:
            out.append(self.t1())
        if k == 'radius':
            return out + [self.cont(g.choice([0, 4, 12]), ap, 0, 0, 0, 0)], []
        if k in ('slbw', 'mlbw', 'rm'):
            out.append(self.cont(g.choice([0, 4, 12]), ap, 0, g.choice([0, 1]) if k == 'rm' else 0, r['nls'], g.choice([0, 2]) if k == 'rm' else 0))
            n = [g.choice([1, 2, 3, 5] if not r.get('small') else [1, 2, 3]) for _ in range(r['nls'])]
            pool = g.sample(range(-40, 500), sum(n))
            ls = sorted(g.sample(range(4), r['nls']))
            rows = []
            for i, l in enumerate(ls):
                es = pool[sum(n[:i]):sum(n[:i + 1])]
                if g.random() < .8:
                    es.sort()
                v = []
                lrx = r['x'] if k != 'rm' and g.random() < .8 else 0
                for e in es:
                    w = [g.choice([0, g.randrange(1, 60)]) if c > 1 else g.randrange(1, 60) for c in range(4)]
                    aj = g.choice([-1, 1] if k == 'rm' else [1]) * g.choice([4, 8, 12, 20])
                    row = [e, aj] + (w if k == 'rm' else [sum(w[:3]) + (w[3] if lrx else g.choice([0, 7])), w[0], w[1], w[2]])
                    v += row
                    rows.append(row)
                out.append(self.lst(self.awr if g.random() < .6 else 8 * g.randrange(1, 200), r['x'] and g.randrange(1, 20) if k == 'rm' else g.randrange(-30, 30), l, 0 if k == 'rm' else lrx, len(es), v))
            return out, rows
        if k == 'rml':
            np_ = 3 if r['x'] > 2 else g.choice([2, 3, 4])
            out.append(self.cont(0, 0, g.choice([0, 1]), g.choice([1, 2, 3, 4]), r['nls'], 0))
            mts = [2, 102, 18, 51, 600]
            pv = []
            for p in range(np_):
                pv += [g.randrange(0, 99), g.randrange(9, 999), 8 * g.randrange(0, 3), 8 * g.randrange(0, 99), g.choice([0, 4, -4]), g.choice([0, 4, 12, -20]), g.randrange(-99, 99),
                       8 * g.choice([0, 1]), 8 * g.choice([0, 1, -1]), 8 * (mts[p] if p < 2 else g.choice(mts[2:])), 8 * g.choice([1, -1]), 8 * g.choice([1, -1, 0])]
            out.append(self.lst(0, 0, np_, 0, 2 * np_, pv))
            for _ in range(r['nls']):
                nch = r['x'] if g.random() < .6 else g.choice([1, 2, 4, 5, 6, 7, 11, 12])
                aj = g.choice([0, 0, 4, -4, 12, -20])
                cv = []
                for c in range(nch):
                    cv += [8 * g.randrange(1, np_ + 1), 8 * g.randrange(0, 4), g.choice([4, -4, 8]), g.randrange(0, 9), g.randrange(0, 50), g.randrange(0, 50)]
                out.append(self.lst(aj, g.choice([8, -8]) if aj == 0 else 0, 0, 0, nch, cv))
                m = 6 * (nch // 6 + 1)
                nrs = g.choice([1, 2, 4])
                v = []
                for e in range(nrs):
                    v += [g.randrange(-80, 900)] + [g.randrange(-99, 99) for _ in range(nch)] + [0] * (m - nch - 1)
                out.append(self.lst(0, 0, 0, nrs, nrs * m // 6, v))
            return out, []
        lssf = g.choice([0, 1])
        if k == 'ura':
            out.append(self.cont(g.choice([0, 4]), ap, lssf, 0, r['nls'], 0))
            for l in range(r['nls']):
                nj = g.choice([1, 2, 3])
                out.append(self.lst(self.awr, 0, l, 0, nj, [z for _ in range(nj) for z in [g.randrange(1, 99), g.choice([4, 12, 20]), g.choice([8, 16]), g.randrange(1, 50), g.randrange(1, 50), 0]]))
            return out, []
        if k == 'urb':
            es = sorted(g.sample(range(8, 513), g.choice([1, 2, 5, 8])))
            c = self.lst(g.choice([0, 4]), ap, lssf, 0, r['nls'], es)
            out.append(c)
            for l in range(r['nls']):
                out.append(self.cont(self.awr, 0, l, 0, r['x'], 0))
                for j in range(r['x']):
                    out.append(self.lst(0, 0, l, g.choice([1, 2]), 0, [g.randrange(1, 99), g.choice([4, 12]), 8, g.randrange(1, 50), g.randrange(1, 50), 0] + [g.randrange(1, 90) for _ in es]))
            return out, []
        out.append(self.cont(g.choice([0, 4]), ap, lssf, 0, r['nls'], 0))
        for l in range(r['nls']):
            out.append(self.cont(self.awr, 0, l, 0, r['x'], 0))
            for j in range(r['x']):
                es = sorted(g.sample(range(8, 513), g.choice([1, 2, 4])))
                out.append(self.lst(g.choice([4, 12, 20]), 0, g.choice([2, 5]), 0, len(es), [0, 0] + [8 * g.choice([0, 1, 2]) for _ in range(4)] + [z for e in es for z in [e] + [g.randrange(1, 90) for _ in range(5)]]))
        return out, []

    def psd(self, n):
        g = self.rng
        a = np.array([[g.choice([0, 0, 0, 1, -1, 2]) for _ in range(n)] for _ in range(n + 1)])
        return (a.T @ a).astype(int)

    def tri(self, m):
        return [int(m[a][b]) for a in range(len(m)) for b in range(a, len(m))]

    def range32(self, r, recs2, rows, v):
        g = self.rng
        by = sorted(rows)
        if v['ord'] == 'L':
            by = list(rows)
        m = v['m']
        out = [self.cont(8, 512, LRU.get(r['k'], 1), LRF[r['k']], 0, r['naps']), self.cont(4, 7, 0, v['lcomp'], r['nls'] if v['lcomp'] == 0 else 0, 0)]
        if v['lcomp'] == 1:
            nb = min(v['nb'] if g.random() < .7 else g.choice([1, 2, 3]), len(by))
            cut = [0] + sorted(g.sample(range(1, len(by)), nb - 1)) + [len(by)]
            out.append(self.cont(self.awr, 0, 0, 0, nb, 0))
            for a, b in zip(cut, cut[1:]):
                out.append(self.lst(0, 0, m, 0, b - a, [z for x in by[a:b] for z in x] + self.tri(self.psd(m * (b - a)))))
        elif v['lcomp'] == 2:
            vals = []
            for x in by:
                u = [g.randrange(1, 30) for _ in range(5)]
                vals += x + ([u[0], 0] + [u[i] if i < m else 0 for i in range(1, 5)] if r['k'] == 'rm' else [u[0], 0, 0] + [u[i] if i < m else 0 for i in range(1, 4)])
            out.append(self.lst(self.awr, 0, 0, 0, len(by), vals))
            n = m * len(by)
            d = g.choice([2, 2, 3, 4])
            c = {}
            left = list(range(1, n + 1))
            g.shuffle(left)
            while len(left) > 1:
                a, b = left.pop(), left.pop()
                if g.random() < .7:
                    c[max(a, b), min(a, b)] = g.choice([-1, 1]) * g.randrange(1, 8 * 10 ** (d - 1))
            lim = 10 ** d // (10 * n)
            for a in range(2, n + 1):
                for b in range(1, a):
                    if (a, b) not in c and lim > 1 and g.random() < .5:
                        c[a, b] = g.randrange(-lim, lim)
            rs = []
            for a in range(2, n + 1):
                j = min([b for b in range(1, a) if c.get((a, b))] or [a])
                while j < a:
                    k = min(PER[d], a - j)
                    rs.append([a, j] + [c.get((a, b), 0) for b in range(j, j + k)])
                    j += k
                    while j < a and not c.get((a, j)):
                        j += 1
            out.append(D.rec('intg', (0, 0), (d, n, len(rs), 0), rs))
        else:
            i = 0
            base = 1 + r['nro']
            for l in recs2[base + 1:]:
                n = len(l['v']) // 6
                vals = []
                for x in rows[i:i + n]:
                    w = self.psd(3)
                    vals += x + [g.randrange(0, 40), w[0][0], w[0][1], w[1][1], w[0][2], w[1][2], w[2][2], 0, 0, 0, 0, 0]
                out.append(self.lst(self.awr, 0, l['n'][0], 0, n, vals))
                i += n
        return out


def build(g, ch):
    """file 2 and file 32 (or nothing)"""
    two, cov = [g.head(0, 0, len(ch['isos']), 0)], [g.head(0, 0, len(ch['isos']), 0)]
    for iso, v in zip(ch['isos'], ch['cov']):
        c = g.cont(8 * (g.za - len(two)), 8, 0, iso['lfw'], len(iso['rs']), 0)
        two.append(c)
        cov.append(c)
        for r in iso['rs']:
            recs, rows = g.range2(r)
            two += recs
            if v:
                if r['k'] in UNR:
                    cov += [g.cont(8, 512, 2, 1, 0, 0), g.cont(4, 7, 0, 0, 1, 0)]
                else:
                    cov += g.range32(r, recs, rows, v)
    return two, cov if all(ch['cov']) else []


def write(path, g, two, cov, three):
    d = dict(G.BASE, za=g.za, awr=g.awr / 8.)
    body = [(2, 151, lines(two))]
    for mt, r in three:
        body.append((3, mt, lines([g.head(0, 0, 0, 0), r])))
    if cov:
        body.append((32, 151, lines(cov)))
    direc = [(1, 451, 4 + len(d['text']) + len(body) + 1, 1)] + [(mf, mt, len(l), 1) for mf, mt, l in body]
    with open(path, 'w') as f:
        f.write(G.tape([G.material(9228, [(1, 451, G.header(d, direc))] + body)]))


# ---- what was loaded ---------------------------------------------------------
KIND = {'ResonanceRange': 'radius', 'SingleLevelBreitWigner': 'slbw', 'MultiLevelBreitWigner': 'mlbw', 'ReichMoore': 'rm', 'RMatrixLimited': 'rml'}
PTS = [8, 64, 200, 512]


def e8(xs):
    return [qe(x, 8, 1e-4) for x in xs]


def radius(f, pts):
    v = [float(f(p / 8.)) if callable(f) else float(f) for p in pts]
    return dict(at=[qe(x, 8, 1e-6) for x in v], cube=[q(((x - .08) / .123) ** 3, 1000) for x in v])


def table(df, cols):
    return [[int(x) if c == 'L' else qe(x, 8, 1e-4) for c, x in zip(cols, row)] for row in df[cols].values.tolist()]


def ranges(res, pts):
    out = []
    for r in res.ranges:
        k = KIND.get(type(r).__name__, 'unr')
        o = dict(lo=qe(r.energy_min, 8), hi=qe(r.energy_max, 8))
        if k in ('radius', 'slbw', 'mlbw', 'rm'):
            ls = list(r.channel_radius)
            o.update(spin=qe(r.target_spin, 8), ls=[int(l) for l in ls], chan=[radius(r.channel_radius[l], pts) for l in ls], ls2=[int(l) for l in r.scattering_radius],
                     scat=[radius(r.scattering_radius[l], pts) for l in ls])
        if k in ('slbw', 'mlbw'):
            o.update(rows=table(r.parameters, BW), qx=[qe(r.q_value[l], 8) for l in ls], awri=qe(r.atomic_weight_ratio, 8), extra=[])
        elif k == 'rm':
            o.update(rows=table(r.parameters, RM), qx=[], awri=qe(r.atomic_weight_ratio, 8), extra=[int(r.angle_distribution), int(r.num_l_convergence)])
        elif k == 'rml':
            pp = r.particle_pairs
            o.update(ifg=int(r.reduced_width), krm=int(r.formalism),
                     pairs=[dict(m1=qe(p.first['mass'], 8), m2=qe(p.second['mass'], 8), z1=int(p.first['z']), z2=int(p.second['z']), s1=qe(p.first['spin'], 8), s2=qe(p.second['spin'], 8), q=qe(p.q_value, 8),
                                 pen=qe(p.penetrability, 8), sh=qe(p.shift, 8), mt=int(p.mt), p1=qe(p.first['parity'], 8), p2=qe(p.second['parity'], 8)) for p in pp],
                     groups=[dict(j=qe(s.spin, 8), par=s.parity, ch=[[1 + [x is c['particle_pair'] for x in pp].index(True)] + e8(c[n] for n in ('l', 'spin', 'boundary', 'effective_radius', 'true_radius')) for c in s.channels],
                                  cols=[str(c) for c in s.parameters.columns], rows=[e8(x) for x in s.parameters.values.tolist()]) for s in r.spin_groups])
        elif k == 'unr':
            p = r.parameters
            k = 'urb' if isinstance(p, list) else 'urc' if 'E' in p.columns else 'ura'
            cols = {'ura': ['L', 'J', 'd', 'amun', 'gn', 'gg', 'gf'], 'urb': ['L', 'J', 'd', 'amun', 'gn0', 'gg', 'gf'], 'urc': ['L', 'J', 'E', 'd', 'gx', 'gn0', 'gg', 'gf']}[k]
            o.update(spin=qe(r.target_spin, 8), bg=bool(r.add_to_background), scat=radius(r.scattering_radius, pts), es=e8(r.energies) if k == 'urb' else [],
                     tables=[table(x, cols) for x in (p if k == 'urb' else [p])])
        o['k'] = k
        out.append(o)
    return out


def which(res, name):
    v, exc = attempt(getattr, res, name)
    if exc:
        return -2
    return 0 if v is None else 1 + [r is v for r in res.ranges].index(True)


def covrange(c, den):
    k = c.formalism
    m = np.array(c.covariance, dtype=float)
    n = len(m)
    low = 'none' if not np.tril(m, -1).any() else 'same' if np.allclose(m, m.T) else 'other'
    return dict(k=k, lo=qe(c.energy_min, 8), hi=qe(c.energy_max, 8), mpar=int(c.mpar), lcomp=int(c.lcomp), den=den, low=low, dim=[int(x) for x in m.shape] if n else [0, 0],
                rows=table(c.parameters, RM if k == 'rm' else BW), cov=[[qe(m[a][b], den, 1e-3) for b in range(a, n)] for a in range(n)])


def dens(cov):
    """the denominators of the covariances, range by range"""
    out = []
    for i, r in enumerate(cov):
        if r['k'] == 'cont' and i > 1 and cov[i - 1]['k'] != 'x' and r['n'][0] == 1 and r['c'] == [8, 512]:
            b = cov[i + 1]
            out.append(128 * 10 ** cov[i + 3]['n'][0] if b['n'][1] == 2 else 8)
    return out


FIXED = {'rm': ['energy', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB'], 'bw': ['energy', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth']}


def sampled(c, n):
    ss = c.sample(n)
    rm = c.formalism == 'rm'
    vary = FIXED['rm' if rm else 'bw'][:c.mpar]
    cols = RM if rm else BW
    arr = np.array([s.parameters[vary].values.flatten() for s in ss])
    some = []
    for s in ss[:3]:
        some.append([[int(x) if cc == 'L' else q(x, 10000) for cc, x in zip(cols, row)] for row in s.parameters[cols].values.tolist()])
    return dict(n=len(ss), mean=qs(arr.mean(axis=0), 100), cov=qm(np.atleast_2d(np.cov(arr.T)), 100), some=some, kinds=sorted({KIND.get(type(s).__name__, '?') for s in ss}),
                lo=qe(ss[0].energy_min, 8), hi=qe(ss[0].energy_max, 8))


def bounds(rng, c, k):
    name = rng.choice((RM if k == 'rm' else BW) + ['energy'] * 3)
    v = sorted(c.parameters[name].tolist()) or [0]
    f = (lambda x: int(x)) if name == 'L' else (lambda x: int(round(8 * x)))
    lo, hi = sorted([f(rng.choice(v)), f(rng.choice(v))])
    x = rng.random()
    return [name, lo - (x < .3), hi + (x > .7)] if x > .05 else [name, 7000, 8000]


def one(log, a, ch, via, nsub, sample):
    rng = a.rng
    g = Gen(rng, za=rng.choice([92235, 95242, 26056]), awr=8 * rng.choice([1, 15, 55, 120, 233]))
    two, cov = build(g, ch)
    fn = os.path.join(a.scratch, 'tape')
    three = [(mt, g.t1(xs=[8, 256, 768, 1024, 2048, 4096], ys=[rng.randrange(1, 60) for _ in range(6)])) for mt in (2, 16, 102)]
    write(fn, g, two, cov, three)
    pts = sorted({p for r in two if r['k'] == 'tab1' for p in r['v'][::2]} | set(PTS[:1]))
    tabs = [set(r['v'][::2]) for r in two if r['k'] == 'tab1']
    for t in tabs:
        pts = [p for p in pts if p in t]

    def load():
        if via == 'nuclide':
            d = neutron.IncidentNeutron.from_endf(fn, covariance=bool(cov))
            return d.resonances, d.resonance_covariance if cov else None, d
        ev = endf.Evaluation(fn)
        res = R.Resonances.from_endf(ev)
        return res, RC.ResonanceCovariances.from_endf(ev, res) if cov else None, None

    d, exc = attempt(load)
    base = dict(awr=g.awr, two=two, thirtytwo=cov)
    ev = dict(ev='load', exc=exc, pts=pts, got=[], cov=[], resolved=0, unresolved=0, xs=[], three=[r for _, r in three], **base)
    if exc:
        log(**ev)
        return
    res, rc, nuc = d

    def look():
        return dict(got=ranges(res, pts), resolved=which(res, 'resolved'), unresolved=which(res, 'unresolved'), xs=[[qe(nuc.reactions[mt].xs['0K'](p / 8.), 8) for p in r['v'][4::2]] for mt, r in three] if nuc else [], cov=[covrange(c, n) for c, n in zip(rc.ranges, dens(cov) + [8] * 9)] if cov else [])
    got, exc = attempt(look)
    ev.update(got or {}, exc=exc and 'reading it: ' + exc)
    log(**ev)
    if not cov or exc:
        return
    for i, c in enumerate(rc.ranges):
        path, cur = [], c
        whole = table(c.file2res.parameters, RM if c.formalism == 'rm' else BW)
        for _ in range(nsub):
            b = bounds(rng, cur, cur.formalism)
            path = path + [b]
            f = 1. if b[0] == 'L' else 8.
            cur, exc = attempt(cur.subset, b[0], [b[1] / f, b[2] / f])
            e = dict(ev='subset', nth=i + 1, path=path, exc=exc, got=[], f2=[], again=[], whole=[whole, whole], **base)
            if not exc:
                x, exc = attempt(lambda: (covrange(cur, dens(cov)[i]), table(cur.file2res.parameters, RM if cur.formalism == 'rm' else BW), covrange(c, dens(cov)[i])))
                e['exc'] = exc and 'reading it: ' + exc
                if not exc:
                    e.update(got=[x[0]], f2=x[1], again=[x[2]], whole=[whole, table(c.file2res.parameters, RM if c.formalism == 'rm' else BW)])
            log(**e)
            if exc or not len(cur.parameters):
                cur = None
                break
        if sample and cur is not None:
            np.random.seed(rng.randrange(2 ** 31))
            x, exc = attempt(sampled, cur, 1500)
            log(ev='sample', nth=i + 1, path=path, n=1500, exc=exc, got=[x] if not exc else [], **base)


def run(log, a):
    rng = a.rng
    cs = load_cases(a.cases)
    if a.part == 'cases':
        for c in cs if a.thorough else rng.sample(cs, min(len(cs), 420)):
            one(log, a, c, rng.choice(['nuclide', 'ev']), 0, False)
        return
    withcov = [c for c in cs if all(c['cov'])]
    if a.part == 'subsets':
        for _ in range(3 if a.thorough else 1):
            for c in withcov:
                one(log, a, c, rng.choice(['nuclide', 'ev']), 2, False)
        return
    # sampling takes long: one range each, side by side
    pick = [c for c in withcov if len(c['isos']) == 1 and len(c['isos'][0]['rs']) == 1]
    for r in pick:
        r['isos'][0]['rs'][0]['small'] = 1
    seen = {}
    for c in rng.sample(pick, len(pick)):
        seen.setdefault((c['isos'][0]['rs'][0]['k'] == 'rm', c['cov'][0]['lcomp'], c['cov'][0]['m'], c['cov'][0]['nb']), []).append(c)
    todo = [c for key in sorted(seen) for c in seen[key][:8 if a.thorough else 2]]
    parallel(log, a, todo, lambda c, d, k: draw(a, c, d, k))


def draw(a, c, d, k):
    b, out = Args(), []
    b.rng, b.scratch, b.thorough = random.Random('%d %d' % (a.seed, k)), d, a.thorough
    one(lambda **e: out.append(e), b, c, 'ev', b.rng.choice([0, 0, 1]), True)
    return out


if __name__ == '__main__':
    main(run)
