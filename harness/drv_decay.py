"""C25: decay data and fission product yields written record by record and loaded."""
import os
from common import *
from side import parallel
from endfgen import *
with quiet():
    from ASAPy.data.decay import Decay, FissionProductYields, get_decay_modes
    from ASAPy.data.endf import Evaluation

RTYPS = [1000, 2000, 3000, 4000, 5000, 6000, 7000, 10000, 1500, 1550, 1555, 2400, 2700, 2770, 1400, 3600, 1540, 4400, 5500, 7700, 3400, 1300, 2300, 1600, 3100, 2500]
STYLES = [0, 0, 2, 3]


def rec(c, n, r=(), v=()):
    return dict(c=list(c), n=list(n), r=[list(x) for x in r], v=list(v))


def lst_(c1, c2, l1, l2, n2, v):
    return rec((c1, c2), (l1, l2, len(v), n2), (), v)


def lines(recs, style):
    out = []
    for i, r in enumerate(recs):
        c, n = [x / 1000 for x in r['c']], r['n']
        if i == 0:
            out += cont(c[0], c[1], *n, style)
        elif r['r']:
            v = [x / 1000 for x in r['v']]
            out += tab1(c[0], c[1], n[0], n[1], [tuple(x) for x in r['r']], list(zip(v[::2], v[1::2])), style)
        else:
            out += lst(c[0], c[1], n[0], n[1], n[3], [x / 1000 for x in r['v']], style)
    return out


def write(d, secs, rng, za, liso, nsub, awr):
    path = os.path.join(d, 'tape')
    h = dict(BASE, za=za, awr=awr, liso=liso, lis=liso, nsub=nsub)
    style = rng.choice(STYLES)
    body = [(8, mt, lines(r, style)) for mt, r in secs]
    direc = [(1, 451, len(h['text']) + 4 + len(body) + 1, 1)] + [(mf, mt, len(l), 1) for mf, mt, l in body]
    with open(path, 'w') as f:
        f.write(tape([material(rng.randrange(100, 9000), [(1, 451, header(h, direc))] + body)]))
    return path


def load(cls, path, way):
    if way == 0:
        return cls(path)
    if way == 1:
        return cls(Evaluation(path))
    if way == 2:
        return cls.from_endf(path)
    return cls.from_endf(Evaluation(path))


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def x(self, hi=2000000):
        return self.rng.choice([0, self.rng.randrange(1, hi), self.rng.randrange(1, hi), self.rng.randrange(1, 5000)])

    def up(self, n, hi):
        return sorted(self.rng.sample(range(1, hi), n))

    def interp(self, n):
        rng = self.rng
        cuts = sorted(rng.sample(range(2, n), min(n - 2, rng.choice([0, 0, 1, 2])))) + [n]
        return [(c, rng.randrange(1, 6)) for c in cuts]

    def spectrum(self, x):
        rng = self.rng
        out = [lst_(0, 1000 * x['s'], x['lcon'], 0, x['ner'], [self.x() for _ in range(6)])]
        if x['lcon'] != 1:
            for _ in range(x['ner']):
                v = [rng.choice([m for m in RTYPS]), 1000 * rng.randrange(0, 7 if x['s'] in (1, 2) else 2)] + [self.x(1000000) for _ in range(x['nt'] - 2)]
                out.append(lst_(self.x(9000000), self.x(), 0, 0, 0, v))
        if x['lcon']:
            n = rng.randrange(2, 9)
            xs, ys = self.up(n, 2000000), [self.x() for _ in range(n)]
            out.append(rec((rng.choice(RTYPS), 0), (0, x['lcov'], 0, n), self.interp(n), [w for p in zip(xs, ys) for w in p]))
            out[-1]['n'][2] = len(out[-1]['r'])
        if x['lcov']:
            n = rng.randrange(1, 5)
            out.append(lst_(0, 0, 0, rng.choice([2, 5]), n, [w for p in zip(self.up(n, 900000), [self.x() for _ in range(n)]) for w in p]))
        return out

    def build(self, ch):
        rng = self.rng
        z = rng.choice([rng.randrange(9, 111), 92, 53, 27])
        a = rng.randrange(2 * z, 3 * z)
        if ch['modes'] == [1000] and rng.random() < .3:
            z, a = 0, 1
        elif ch['modes'] == [7000] or ch['modes'] == [2000] and rng.random() < .2:
            z, a = 1, 2
        awr = rng.randrange(1000, 300000)
        h = rec((1000000 * z + 1000 * a, awr), (ch.get('state', ch['iso']), ch['iso'], 1 if ch['stable'] else 0, 0 if ch['stable'] else len(ch['sp'])))
        spin, par = rng.choice([0, 500, 1000, 4500, -77777]), rng.choice([-1000, 0, 1000])
        if ch['stable']:
            return [h, lst_(0, 0, 0, 0, 0, [0] * 6), lst_(spin, par, 0, 0, 0, [0] * 6)]
        out = [h, lst_(rng.choice([rng.randrange(1, 1000), rng.randrange(1000, 9000000)]), 0, 0, 0, 0, [self.x() for _ in range(2 * ch['nc'])])]
        out[1]['c'][1] = rng.randrange(0, min(out[1]['c'][0], 900000) + 1)
        ms = []
        for m in ch['modes']:
            ms += [m, 1000 * rng.choice([0, 0, 1, 2]), self.x(9000000), self.x(), self.x(1000), self.x(100)]
        out.append(lst_(spin, par, 0, 0, len(ch['modes']), ms))
        out[1]['n'][3] = 0
        for x in ch['sp']:
            out += self.spectrum(x)
        return out


def uf(u):
    return [qe(u.n, 1000, 1e-3), qe(u.s, 1000, 1e-3)]


def proj(d):
    n = d.nuclide
    g = dict(name=n['name'], z=q(n['atomic_number']), a=q(n['mass_number']), iso=q(n['isomeric_state']), state=q(n['excited_state']), awr=qe(n['mass'], 1000, 1e-3),
             stable=bool(n['stable']), spin=[] if n['spin'] is None else [qe(n['spin'], 1000, 1e-3)], parity=qe(n['parity'], 1000, 1e-3))
    g['half'] = [] if math.isinf(d.half_life.n) else uf(d.half_life)
    dc = d.decay_constant
    if math.isinf(d.half_life.n):
        g.update(dcT=q(dc.n, 1e8), rel=0, pairT=0, pairrel=0)
    else:
        T = d.half_life.n
        g.update(dcT=q(dc.n * T, 1e8), rel=q(dc.s / dc.n, 1000))
        keep = d.half_life
        d.half_life = (keep.n, keep.s)
        p = d.decay_constant
        d.half_life = keep
        g.update(pairT=q(p.n * T, 1e8), pairrel=q(p.s / p.n, 1000))
    g['energies'] = [[k] + uf(v) for k, v in d.average_energies.items()]
    g['modes'] = []
    for m in d.modes:
        to, exc = attempt(lambda: m.daughter)
        g['modes'].append(dict(modes=list(m.modes), q=uf(m.energy), br=uf(m.branching_ratio), parent=m.parent, to=exc or to))
    g['spectra'] = []
    for key, s in d.spectra.items():
        o = dict(type=key if s['type'] == key else key + '?', flag=s['continuous_flag'], fd=uf(s['discrete_normalization']), av=uf(s['energy_average']),
                 fc=uf(s['continuous_normalization']), lines=[], cont=[])
        opt = lambda di, k: uf(di[k]) if k in di else []
        for di in s.get('discrete', []):
            o['lines'].append({'e': uf(di['energy']), 'from': list(di['from_mode']), 't': di['type'] or '', 'i': uf(di['intensity']), 'pos': opt(di, 'positron_intensity'),
                               'pair': opt(di, 'internal_pair'), 'icc': opt(di, 'total_internal_conversion'), 'k': opt(di, 'k_shell_conversion'), 'l': opt(di, 'l_shell_conversion')})
        if 'continuous' in s:
            c = s['continuous']
            p = c['probability']
            again = [[[qe(v, 1000, 1e-3) for v in w] for w in c['covariance']] for _ in range(2)] if 'covariance' in c else [[]] * 2
            o['cont'].append({'from': list(c['type']), 'tab': dict(r=[[q(b), q(i)] for b, i in zip(p.breakpoints, p.interpolation)], x=qes(p.x, 1000, 1e-3), y=qes(p.y, 1000, 1e-3)),
                              'lb': q(c.get('covariance_lb', 0)), 'cov': again[1]})
        g['spectra'].append(o)
    return g


def decay(a, ch, d, k):
    rng = random.Random(a.seed * 7919 + k)
    recs = Gen(rng).build(ch)
    za = recs[0]['c'][0] // 1000
    path = write(d, [(457, recs)], rng, za, ch['iso'], 4, recs[0]['c'][1] / 1000)
    obj, exc = attempt(load, Decay, path, rng.randrange(4))
    return [dict(ev='decay', recs=recs, exc=exc, got=proj(obj) if obj is not None else {})]


def free(rng):
    """more of everything"""
    kinds = rng.sample([0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11], rng.randrange(0, 7))
    sp = []
    for s in kinds:
        lcon = rng.randrange(3)
        sp.append(dict(s=s, lcon=lcon, ner=0 if lcon == 1 else rng.randrange(1, 8), nt=rng.choice([6, 8, 12]) if s == 0 else 6, lcov=rng.randrange(2) if lcon else 0))
    return dict(stable=False, iso=rng.choice([0, 0, 1, 2, 3]), state=rng.randrange(0, 30), nc=rng.choice([3, 17]), modes=[rng.choice(RTYPS) for _ in range(rng.randrange(0, 6))], sp=sp)


def yields(a, shape, d, k):
    rng = random.Random(a.seed * 104729 + k)
    ne, np_, cum = shape
    es = sorted(rng.sample(range(1, 9000000), ne))
    z, A, iso = rng.choice([(92, 235, 0), (94, 239, 0), (95, 242, 1), (98, 252, 0), (90, 232, 0), (95, 244, 2)])

    def section():
        out = [rec((1000000 * z + 1000 * A, 233000), (ne, 0, 0, 0))]
        pool = [(zz, aa, m) for zz in range(23, 72) for aa in range(2 * zz, 3 * zz, 3) for m in (0, 1, 2)]
        for i, e in enumerate(es):
            v = []
            for zz, aa, m in sorted(rng.sample(pool, rng.randrange(1, np_ + 1) if np_ else 0)):
                v += [1000000 * zz + 1000 * aa, 1000 * m, rng.choice([0, rng.randrange(1, 60), rng.randrange(1, 1000)]), rng.randrange(0, 50)]
            out.append(lst_(e, 0, rng.choice([ne - 1, 1, 2, 3, 4, 5]), 0, len(v) // 4, v))
        return out
    ind = section()
    c = section() if cum else []
    path = write(d, [(454, ind)] + ([(459, c)] if cum else []), rng, z * 1000 + A, iso, rng.choice([11, 5]), 233.)
    o, exc = attempt(load, FissionProductYields, path, rng.randrange(4))
    got = {}
    if o is not None:
        f = lambda ys: [[[n, qe(u.n, 1000, 1e-3), qe(u.s, 1000, 1e-3)] for n, u in y.items()] for y in ys]
        got = dict(name=o.nuclide['name'], z=q(o.nuclide['atomic_number']), a=q(o.nuclide['mass_number']), iso=q(o.nuclide['isomeric_state']),
                   e=qes(o.energies, 1000, 1e-3), ind=f(o.independent), cum=f(getattr(o, 'cumulative', [])))
    return [dict(ev='yields', z=z, a=A, iso=iso, ind=ind, cum=c, exc=exc, got=got)]


def run(log, a):
    if a.part == 'modes':
        for i in list(range(1000, 10000, 100)) + [x for x in range(1000, 10000) if x % 10 and x % 100 // 10] + [10000]:
            if i < 10000 and '0' in str(i).rstrip('0'):
                continue
            if i != 10000 and i % 100 and i % 7 and not a.thorough:
                continue
            got, exc = attempt(get_decay_modes, i / 1000)
            log(ev='modes', x=i, got=got or [], exc=exc)
        return
    if a.part == 'yields':
        shapes = [(ne, n, c) for ne in range(1, 5) for n in (0, 1, 2, 7, 30) for c in (0, 1)] * (8 if a.thorough else 2)
        parallel(log, a, shapes, lambda s, d, k: yields(a, s, d, k))
        return
    cases = load_cases(a.cases)
    if not a.thorough:
        cases = a.rng.sample(cases, min(len(cases), 700))
    cases += [free(a.rng) for _ in range(1500 if a.thorough else 250)]
    parallel(log, a, cases, lambda c, d, k: decay(a, c, d, k))


main(run)
