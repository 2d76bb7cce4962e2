"""C24: thermal scattering tables written word by word, read, given further temperatures, exported and imported."""
import os
import numpy as np
import h5py
from common import *
from side import parallel
from acegen import R, U, tok, Builder
with quiet():
    from ASAPy.data import ace
    from ASAPy.data.thermal import ThermalScattering, CoherentElastic, get_thermal_name
    from ASAPy.data.univariate import Tabular, Discrete

KB = 8.6173303e-5        # eV/K
NAMES = ['lwtr', 'hh2o', 'h-h2o', 'lw', 'hwtr', 'dd2o', 'grph', 'graph', 'poly', 'hch2', 'h/zr', 'h-zr', 'hzrh', 'zr/h', 'zr-h', 'be', 'be-met', 'beo', 'be-o', 'be/o',
         'o-be', 'o/be', 'u/o2', 'u-o2', 'uuo2', 'o2/u', 'o2-u', 'ouo2', 'benz', 'c6h6', 'lmeth', 'lch4', 'smeth', 'sch4', 'hpara', 'parah', 'hortho', 'orthoh', 'dpara',
         'parad', 'dortho', 'orthod', 'fe', 'fe56', 'al', 'al27', 'sio2', 'sio2a', 'sio2b', 'si-sic', 'sisic', 'c-sic', 'csic', 'hice', 'h-ice', 'oice', 'o-ice', 'hyh2', 'h-yh2',
         'yyh2', 'y-yh2', 'n-un', 'u-un', 'grph10', 'grph30', 'od2o', 'o-d2o', 'mg', 'mg24', 'lucite', 'hcah2', 'cah', 'hw', 'gr', 'pol']
ZAS = [1001, 1002, 1003, 4009, 6000, 6012, 7014, 8016, 8017, 12024, 13027, 14028, 26054, 26056, 39089, 40090, 92235, 92238]


def up(rng, n, lo=1, hi=100000):
    return sorted(rng.sample(range(lo, hi), n))


def table(rng, d, name='lwtr', tmk=293600, pairs=None, awr=None, free=False):
    """the words of a table of a shape; free: more of everything than the shape says"""
    grow = rng.choice([1, 3, 6]) if free else 1
    ne, no, nm, en, em = d['ne'] * grow, d['no'] * grow, d['nm'] * rng.choice([1, 2]) if free else d['nm'], d['en'] * grow, d['em'] * (2 if free else 1)
    b = Builder(d['gap'])
    cont = d['mode'] == 'continuous'
    b.nxs[1] = 3
    b.nxs[2] = nm + 1 if cont else nm - 1
    b.nxs[3] = rng.randrange(0, 9) if cont else no
    b.nxs[4] = 4 if d['el'] == 'bragg' else 3
    b.nxs[5] = em - 1 if d['el'] == 'table' else -1
    b.nxs[6] = dict(equal=0, skewed=1, continuous=2)[d['mode']]
    cos = lambda n: [rng.randrange(-U, U + 1) for _ in range(n)]

    def inelastic():
        b.block(1)
        b.I(ne)
        b.R(*up(rng, ne))
        b.R(*[rng.randrange(1, 90000) for _ in range(ne)])

    def out():
        b.block(3)
        if not cont:
            for i in range(ne):
                for e in up(rng, no):
                    b.R(e, *cos(nm))
            return
        cnt = [rng.randrange(1, no + 2) for _ in range(ne)]
        at = len(b.x)
        b.I(*[0] * ne)
        b.I(*cnt)
        for i in range(ne):
            b.x += [R(5 * U + 1)] * d['gap']
            b.x[at + i] = len(b.x)
            for e, c in zip(up(rng, cnt[i]), up(rng, cnt[i], 0, U + 1)):
                b.R(e, rng.randrange(0, 90000), c, *cos(nm))

    def elastic():
        b.block(4)
        b.I(en)
        b.R(*up(rng, en, 2, 90000))
        ys = [rng.randrange(1, 90000) for _ in range(en)]
        b.R(*(sorted(ys) if d['el'] == 'bragg' else ys))

    def cosines():
        b.block(6)
        for i in range(en):
            b.R(*cos(em))
    parts = [inelastic, out] + ([elastic] if d['el'] != 'none' else []) + ([cosines] if d['el'] == 'table' else [])
    if rng.random() < .5:
        rng.shuffle(parts)
    for p in parts:
        p()
    b.nxs[0] = len(b.x)
    return dict(nxs=b.nxs, jxs=b.jxs, x=b.x, tmk=tmk, ace=name, low=name.lower(), given='', name='',
                awr=awr or rng.randrange(8, 2000), pairs=pairs if pairs is not None else [rng.choice(ZAS) for _ in range(rng.randrange(1, 4))])


def text(t):
    pairs = t['pairs'] + [0] * (16 - len(t['pairs']))
    out = ['%10s%12.6f%12s %10s\n' % (t['ace'] + '.00t', t['awr'] / 8., '%.5E' % (t['tmk'] * 1e-3 * KB * 1e-6), '01/02/2020'), '%-70s%10s\n' % ('thermal', '   mat   1')]
    for r in range(4):
        out.append(''.join('%7d%11.0f' % (pairs[4 * r + c], 0) for c in range(4)) + '\n')
    for r in range(2):
        out.append(''.join('%9d' % v for v in t['nxs'][8 * r:8 * r + 8]) + '\n')
    for r in range(4):
        out.append(''.join('%9d' % v for v in t['jxs'][8 * r:8 * r + 8]) + '\n')
    for i in range(0, len(t['x']), 4):
        out.append(''.join('%20s' % tok(v) for v in t['x'][i:i + 4]) + '\n')
    return ''.join(out)


def words(t):
    return dict(nxs=t['nxs'], jxs=t['jxs'], x=[int(v) if isinstance(v, R) else int(v) * U for v in t['x']],
                tmk=t['tmk'], low=t['low'], given=t['given'], name=t['name'], awr=t['awr'], pairs=t['pairs'])


def E(xs):
    return qes(xs, 16, 1e-3)


def V(xs, s=U):
    return qes(xs, s, 1e-3)


def dist(c):
    out = []
    if c is None:
        return out
    for e, ms in zip(c.energy_out, c.mu):
        out.append(dict(e=E(e.x), p=V(e.p, U * 1e6), c=V(e.c), k=e.interpolation, mu=[V(m.x) for m in ms], w=[[[q(p, 1e6), q(c, 1e6)] for p, c in zip(m.p, m.c)] for m in ms]))
    return out


def points(edges):
    x = [int(round(v * 16)) for v in edges]
    pts = [x[0] // 2, x[-1] + 16000, 2 * x[-1]] + [(a + b) // 2 for a, b in zip(x, x[1:]) if b - a > 1] + [a + 1 for a in x] + [x[0] - 1]
    return sorted({p for p in pts if p not in x and 0 < p < 1900000000})


def elastic(m, T):
    x = m.elastic_xs.get(T)
    if x is None:
        return dict(k='none')
    if isinstance(x, CoherentElastic):
        pts = points(x.bragg_edges)
        e = np.array(pts) / 16.
        one = [float(x(float(v))) for v in e]
        many = [float(v) for v in x(e)]
        at = [q(a * v, 16) if a == b else NAN for a, b, v in zip(one, many, e)]
        return dict(k='bragg', x=E(x.bragg_edges), y=E(x.factors), pts=pts, at=at)
    mu = m.elastic_mu_out.get(T)
    return dict(k='table', x=E(x.x), y=V(x.y), mu=[V(r) for r in mu] if mu is not None else [])


def material(m):
    ts = list(m.temperatures)
    at = []
    for T in ts:
        i = m.inelastic_xs[T]
        eo, mu = m.inelastic_e_out.get(T), m.inelastic_mu_out.get(T)
        at.append(dict(xs=dict(x=E(i.x), y=V(i.y)), eout=[E(r) for r in eo] if eo is not None else [],
                       mu=[[V(c) for c in r] for r in mu] if mu is not None else [], dist=dist(m.inelastic_dist.get(T)), el=elastic(m, T)))
    return dict(name=m.name, temps=ts, tmk=[q(k / KB, 1e3) for k in m.kTs], awr=qe(m.atomic_weight_ratio, 8), nuc=list(m.nuclides), mode=str(m.secondary_mode), at=at)


def one(t, d, k):
    fn = os.path.join(d, 'table')
    with open(fn, 'w') as f:
        f.write(text(t))

    def load():
        src = ace.get_table(fn) if k % 2 else fn
        m = ThermalScattering.from_ace(src, t['given']) if t['given'] else ThermalScattering.from_ace(src)
        return material(m)
    got, exc = attempt(load)
    return dict(ev='table', f=words(t), exc=exc, got=got or {})


def history(ops, tabs, d, how):
    for i, t in enumerate(tabs):
        with open(os.path.join(d, 't%d' % i), 'w') as f:
            f.write(text(t))
    m, n, steps, path, grp = None, 0, [], None, None
    for op, k in ops:
        fn = os.path.join(d, 't%d' % (k - 1))
        src = ace.get_table(fn) if k and (len(steps) + how) % 2 else fn

        def do():
            nonlocal m, n, path, grp
            if op == 'load':
                m = ThermalScattering.from_ace(src)
            elif op == 'add':
                m.add_temperature_from_ace(src)
            elif op == 'export':
                n += 1
                path = os.path.join(d, 'f%d.h5' % n)
                if how == 2:        # another material is in the file
                    o = ThermalScattering.from_ace(os.path.join(d, 't3' if m.name == tabs[0]['name'] else 't0'))
                    o.export_to_hdf5(path, 'w')
                m.export_to_hdf5(path, **({} if how != 1 else dict(mode='w', libver='latest')))
                grp = m.name
            else:
                if how == 2:
                    with h5py.File(path, 'r') as h:
                        m = ThermalScattering.from_hdf5(h[grp])
                else:
                    m = ThermalScattering.from_hdf5(path)
        _, exc = attempt(do)
        st = dict(op=op, k=k, exc=exc, got={})
        if exc and exc != 'ValueError':
            steps.append(st)
            break
        got, bad = attempt(material, m)
        st['got'] = got or {}
        if bad:
            st['exc'] = 'reading it: ' + bad
        steps.append(st)
        if bad:
            break
    return dict(ev='history', tabs=[words(t) for t in tabs], steps=steps)


def shape(rng, ds):
    return dict(rng.choice(ds))


def run(log, a):
    rng = a.rng
    cs = load_cases(a.cases)
    ds = [c['d'] for c in cs if c['k'] == 'shape']
    hs = [c['ops'] for c in cs if c['k'] == 'history']
    if a.part == 'tables':
        todo = []
        for d in ds:
            todo.append(table(rng, d, name=rng.choice(NAMES)))
        for _ in range(3000 if a.thorough else 300):
            t = table(rng, shape(rng, ds), name=rng.choice(NAMES + ['LWTR', 'Grph', 'lw00', 'lw01', 'xyzzy']), tmk=rng.randrange(1, 2000) * 1000 + rng.choice([0, 100, 400, 600, -300]), free=True)
            if rng.random() < .3:
                t['given'] = rng.choice(['c_H_in_H2O', 'c_Graphite', 'c_mine'])
            todo.append(t)
        parallel(log, a, todo, lambda t, d, k: [one(t, d, k)])
    elif a.part == 'histories':
        todo = []
        for ops in (hs if a.thorough else rng.sample(hs, min(len(hs), 300))) + [None] * (600 if a.thorough else 60):
            d, o = shape(rng, ds), shape(rng, ds)
            A, B = rng.sample(['lwtr', 'grph', 'poly', 'h/zr', 'benz'], 2)
            T = rng.randrange(20, 1500) * 1000
            p, w = [rng.choice(ZAS) for _ in range(rng.randrange(1, 4))], rng.randrange(8, 2000)
            tabs = [table(rng, d, A, T + x, p, w, rng.random() < .3) for x in (-400, 400, 1000 * rng.randrange(1, 400))] + [table(rng, o, B, T + 500000)]
            for t in tabs:
                t['name'] = t['full'] = dict(lwtr='c_H_in_H2O', grph='c_Graphite', poly='c_H_in_CH2', benz='c_C6H6').get(t['ace'], 'c_H_in_ZrH')
            if ops is None:
                ops, m, f = [], False, False
                for _ in range(rng.randrange(5, 12)):
                    op = rng.choice(['load'] + (['add', 'add', 'export'] if m else []) + (['import'] if f else []))
                    ops.append([op, rng.choice([1, 2, 3, 4]) if op in ('load', 'add') else 0])
                    m = m or op in ('load', 'import')
                    f = f or op == 'export'
            todo.append((ops, tabs))
        parallel(log, a, todo, lambda t, d, k: [history(t[0], t[1], d, k % 3)])
    else:
        from ASAPy.data import thermal
        for n in NAMES + [x.upper() for x in NAMES] + [x.capitalize() for x in NAMES] + ['c_H_in_H2O', 'c_Graphite', 'c_para_H', 'c_BeO', 'lw00', 'lw01', 'lw15', 'gr12', 'zzzz', 'qqq', 'j-j']:
            got, exc = attempt(get_thermal_name, n)
            low = n.lower()
            log(ev='name', name=n, low={'lw00': 'lw', 'lw01': 'lw', 'lw15': 'lw', 'gr12': 'gr'}.get(low, low), got=got or '', exc=exc)


if __name__ == '__main__':
    main(run)
