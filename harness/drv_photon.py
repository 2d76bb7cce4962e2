"""C26: photon interaction and relaxation data from evaluations and tables, and their HDF5 files."""
import os
import numpy as np
import h5py
from scipy.interpolate import CubicSpline
from common import *
from side import parallel
from endfgen import *
from acegen import R, U, tok, Builder
with quiet():
    import ASAPy.data
    from ASAPy.data import ace
    from ASAPy.data.endf import Evaluation
    from ASAPy.data.photon import IncidentPhoton, AtomicRelaxation

SHELLS = ['K', 'L1', 'L2', 'L3', 'M1', 'M2', 'M3', 'M4', 'M5', 'N1', 'N2', 'N3', 'N4', 'N5', 'N6', 'N7', 'O1', 'O2', 'O3', 'O4', 'O5', 'O6', 'O7', 'O8', 'O9',
          'P1', 'P2', 'P3', 'P4', 'P5', 'P6', 'P7', 'P8', 'P9', 'P10', 'P11', 'Q1', 'Q2', 'Q3']
TWO = ['K', 'L1', 'L2', 'L3', 'M1', 'P11', 'Q3']


def rec(c, n, r=(), v=()):
    return dict(c=list(c), n=list(n), r=[list(x) for x in r], v=list(v))


def tab(c, x, y, r):
    return rec(c, (0, 0, len(r), len(x)), r, [w for p in zip(x, y) for w in p])


def laws(rng, n, only=None):
    cuts = sorted(rng.sample(range(2, n), min(n - 2, rng.choice([0, 0, 1, 2])))) + [n]
    return [(c, only or rng.choice([2, 2, 1, 3, 4, 5])) for c in cuts]


def lines(recs, style):
    out = []
    for i, r in enumerate(recs):
        c, n = [x / 1000 for x in r['c']], r['n']
        if i == 0:
            out += cont(c[0], c[1], *n, style)
        elif r['r']:
            v = [x / 1000 for x in r['v']]
            out += tab1(c[0], c[1], n[0], n[1], [tuple(x) for x in r['r']], list(zip(v[::2], v[1::2])), style)
        else:
            out += lst(c[0], c[1], n[0], n[1], n[3], [x / 1000 for x in r['v']], style)
    return out


def write(path, secs, rng, z, nsub):
    h = dict(BASE, za=z * 1000, awr=z * 2.5, nsub=nsub, awi=0., lrp=-1, lfi=0)
    style = rng.choice([0, 0, 2, 3])
    body = [(s['mf'], s['mt'], lines(s['recs'], style)) for s in secs]
    direc = [(1, 451, len(h['text']) + 4 + len(body) + 1, 1)] + [(mf, mt, len(l), 1) for mf, mt, l in body]
    with open(path, 'w') as f:
        f.write(tape([material(z * 90, [(1, 451, header(h, direc))] + body)]))
    return path


def up(rng, n, lo, hi, step=1):
    return [step * v for v in sorted(rng.sample(range(lo, hi), n))]


def sections(rng, z, mts, ff):
    secs = []
    hi = 20000
    for mt in sorted(mts):
        n = rng.randrange(2, 9)
        x = up(rng, n, 1 if mt < 530 else rng.choice([1, 5000]), hi)
        secs.append(dict(mf=23, mt=mt, recs=[rec((1000000 * z, 2500 * z), (0, 0, 0, 0)),
                    tab((rng.randrange(1, 100000) if mt >= 534 else 0, rng.randrange(0, 1000) if 534 <= mt <= 572 else 0), x, [rng.randrange(1, hi) for _ in x], laws(rng, n))]))
    for mt in sorted(ff):
        n = rng.randrange(2, 9)
        if mt == 502:
            x, y = up(rng, n, 0, 60, 1000), [1000 * rng.randrange(0, 60) for _ in range(n)]
            t = tab((0, 1000 * z), x, y, laws(rng, n, 2) if rng.random() < .7 else laws(rng, n, 1))
        else:
            x, y = up(rng, n, 0, hi), [rng.randrange(0, hi) for _ in range(n)]
            t = tab((0, 1000 * z), x, y, laws(rng, n))
        secs.append(dict(mf=27, mt=mt, recs=[rec((1000000 * z, 2500 * z), (0, 0, 0, 0)), t]))
    return secs


def relaxation(rng, z, nos):
    out = [rec((1000000 * z, 2500 * z), (0, 0, len(nos), 0))]
    for i in nos:
        nt = rng.choice([0, 1, 2, 5])
        v = [rng.randrange(1, 9000000), 1000 * rng.randrange(1, 9), 0, 0, 0, 0]
        for _ in range(nt):
            v += [1000 * rng.randrange(1, 40), 1000 * rng.choice([0, rng.randrange(1, 40)]), rng.randrange(0, 9000000), rng.randrange(0, 1000), 0, 0]
        out.append(rec((1000 * i, 0), (0, 0, len(v), nt), (), v))
    return out


NONE = dict(k=0, x=[], y=[], r=[])
M = lambda xs: qes(xs, 1000, 1e-3)
Q = lambda xs: qs(xs, 1000)


def fun(t):
    if t is None:
        return NONE
    return dict(k=1, x=M(t.x), y=M(t.y), r=[[q(b), q(i)] for b, i in zip(t.breakpoints, t.interpolation)])


def pick(x, n=12):
    x = np.asarray(x, float).ravel()
    return [x[i] for i in sorted({int(round(k * (len(x) - 1) / (n - 1))) for k in range(n)})] + [x.sum(), len(x)]


def g6(xs):
    return ['%.6e' % float(v) for v in xs]


def pack(comp, stop, brem):
    """of the data that come with the package, some values and sums"""
    d = dict(n=[], eb=[], J=[], pz=[], se=[], I=[], sc=[], sr=[], be=[], bp=[], bd=[])
    if comp:
        d.update(n=g6(comp['n']), eb=g6(comp['eb']), pz=g6(pick(comp['pz'])), J=[g6(pick(j)) for j in comp['J']])
    if stop:
        d.update(se=g6(pick(stop['energy'])), I=g6([stop['I']]), sc=g6(pick(stop['s_collision'])), sr=g6(pick(stop['s_radiative'])))
    if brem:
        d.update(be=g6(pick(brem['electron_energy'])), bp=g6(pick(brem['photon_energy'])), bd=g6(pick(brem['dcs'], 60)))
    return d


def packobj(o):
    c = o.compton_profiles
    return pack(dict(n=c['num_electrons'], eb=c['binding_energy'], pz=c['J'][0].x, J=[j.y for j in c['J']]) if c else None, o.stopping_powers, o.bremsstrahlung)


def shells(relax, s, es):
    if relax is None:
        return []
    out = []
    for k in relax.binding_energy:
        tr = []
        if k in relax.transitions:
            for row in relax.transitions[k].itertuples(index=False):
                tr.append(['' if row[0] is None else str(row[0]), '' if row[1] is None else str(row[1]), qe(row[2], es, 1e-3), qe(row[3], s, 1e-3)])
        out.append(dict(shell=k, eb=qe(relax.binding_energy[k], es, 1e-3), n=qe(relax.num_electrons[k], s, 1e-3), tr=tr))
    return out


def readfile(path, name, ex, xs, s, es):
    """what the file has: ex, xs project energies and cross sections, s, es are scales"""
    with h5py.File(path, 'r') as f:
        kind = f.attrs['filetype']
        g = f[name]
        z2 = float(g.attrs['Z']) ** 2
        o = dict(name=name, z=q(g.attrs['Z']), kind=kind.decode() if isinstance(kind, bytes) else str(kind), energy=ex(g['energy'][()]), coh=xs(g['coherent/xs'][()]), inc=xs(g['incoherent/xs'][()]), pe=xs(g['photoelectric/xs'][()]))
        for k, n in (('pair', 'pair_production_electron'), ('nuc', 'pair_production_nuclear')):
            o[k] = dict(k=1, y=xs(g[n]['xs'][()])) if n in g else dict(k=0, y=[])
        xy = lambda d: dict(k=1, x=M(d[0]), y=M(d[1]), r=[[q(b), q(i)] for b, i in zip(d.attrs['breakpoints'], d.attrs['interpolation'])])
        c = g['coherent']
        o['re'] = xy(c['anomalous_real']) if 'anomalous_real' in c else NONE
        o['im'] = xy(c['anomalous_imag']) if 'anomalous_imag' in c else NONE
        o['iff'] = xy(g['incoherent/scattering_factor']) if 'scattering_factor' in g['incoherent'] else NONE
        if 'integrated_scattering_factor' in c:
            d = c['integrated_scattering_factor'][()]
            o['int'] = dict(k=1, x=qes(d[0], 1, 1e-3), y=qes(d[1] * 2 * z2, 1, 1e-3))
        else:
            o['int'] = dict(k=0, x=[], y=[])
        sh = g['subshells']
        o['des'] = [v.decode() for v in sh.attrs['designators']]
        o['shells'] = []
        for n in sh:
            d = sh[n]
            tr = [[q(r[0]), q(r[1]), qe(r[2], es, 1e-3), qe(r[3], s, 1e-3)] for r in d['transitions'][()]] if 'transitions' in d else []
            o['shells'].append(dict(shell=n, idx=q(d['xs'].attrs['threshold_idx']), xs=xs(d['xs'][()]), eb=qe(d.attrs['binding_energy'], es, 1e-3) if 'binding_energy' in d.attrs else -1,
                                    n=qe(d.attrs['num_electrons'], s, 1e-3) if 'num_electrons' in d.attrs else -1, tr=tr))
        comp = g['compton_profiles'] if 'compton_profiles' in g else None
        stop = g['stopping_powers'] if 'stopping_powers' in g else None
        brem = g['bremsstrahlung'] if 'bremsstrahlung' in g else None
        o['comp'] = dict(n=[], eb=[], pz=[], J=[])
        if comp is not None:
            o['comp'] = dict(n=qes(comp['num_electrons'][()], s, 1e-3), eb=qes(comp['binding_energy'][()], es, 1e-3), pz=qes(comp['pz'][()], s, 1e-3), J=[qes(r, s, 1e-3) for r in comp['J'][()]])
        o['pack'] = pack(None if comp is None else dict(n=comp['num_electrons'][()], eb=comp['binding_energy'][()], pz=comp['pz'][()], J=comp['J'][()]),
                         None if stop is None else dict({k: stop[k][()] for k in stop}, I=stop.attrs['I']),
                         None if brem is None else {k: brem[k][()] for k in brem})
    return o


def endf(z, mts, ff, nos, d, rng, extra=True):
    """an evaluation with these sections: written, loaded, projected, exported"""
    secs = sections(rng, z, mts, ff)
    fn = write(os.path.join(d, 'pa'), secs, rng, z, 3)
    rl, rfn = [], None
    if nos:
        rl = relaxation(rng, z, nos)
        rfn = write(os.path.join(d, 'ar'), [dict(mf=28, mt=533, recs=rl)], rng, z, 6)
    w = rng.randrange(3)
    src = lambda p: Evaluation(p) if p and w == 1 else p

    def load():
        if w == 2 and rfn:
            o = IncidentPhoton.from_endf(fn)
            o.atomic_relaxation = AtomicRelaxation.from_endf(rfn)
            return o
        return IncidentPhoton.from_endf(src(fn), src(rfn)) if rfn else IncidentPhoton.from_endf(src(fn))
    o, exc = attempt(load)
    return secs, rl, o, exc


def proj(o, mts):
    opt = lambda r, k: [qe(getattr(r, k), 1000, 1e-3)] if hasattr(r, k) else []
    rel = o.atomic_relaxation
    return dict(z=q(o.atomic_number), name=o.name, has=all(m in o and o[m].mt == m for m in mts) and 999 not in o,
                rx=[dict(mt=q(r.mt), xs=fun(r.xs), eb=opt(r, 'subshell_binding_energy'), fy=opt(r, 'fluorescence_yield'), ff=fun(r.scattering_factor), re=fun(r.anomalous_real), im=fun(r.anomalous_imag)) for r in o],
                relax=shells(rel, 1000, 1000), order=list(rel.subshells) if rel is not None else [], pack=packobj(o))


def one(c, d, k, seed):
    rng = random.Random(seed * 7919 + k)
    z = rng.choice([1, 6, 8, 26, 92, 98, 99, 100, rng.randrange(1, 101)])
    mts = list(c['mts'])
    nos = c['nos'] if 'nos' in c else [1, 4, 5][:c['relax']]
    if nos and 'nos' not in c:        # relaxation of every shell that has a cross section
        nos = sorted(set(nos) | {m - 533 for m in mts if m >= 534})
    secs, rl, o, exc = endf(z, mts, c['ff'], nos, d, rng)
    got, bad = attempt(proj, o, mts) if o is not None else (None, '')
    out = dict(ev='endf', z=z, secs=secs, relax=rl, exc=exc or bad, got=got or {}, fexc='', file={})
    if got:
        p = os.path.join(d, 'f.h5')

        def export():
            o.export_to_hdf5(p, *rng.choice([(), ('w',), ('a',), ('x',)]))
            return readfile(p, o.name, M if False else (lambda v: M(v)), Q, 1000, 1000)
        out['file'], out['fexc'] = attempt(export)
        out['file'] = out['file'] or {}
        again, _ = attempt(proj, o, mts)        # the export leaves the data alone
        if again != got:
            out['got'] = again or {}
            out['exc'] = '' if again else 'changed by the export'
    return [out]


# tables
def table(c, rng):
    free = c.get('free')
    n = rng.randrange(2, 12)
    b = Builder(c['gap'])
    new, comp, sub = c['new'], c['comp'], c['sub']
    b.nxs[2], b.nxs[4], b.nxs[5], b.nxs[6] = n, comp, 3 if new else 0, sub

    def logs(k):
        """logarithms, words zero below a threshold"""
        t = rng.randrange(0, k) if rng.random() < .4 else 0
        return [0] * t + [rng.randrange(-9000, 9000) or 5 for _ in range(k - t)]

    def eszg():
        b.block(1)
        b.R(*up(rng, n, -7000, 12000))
        for _ in range(4):
            b.R(*logs(n))

    def factors():
        b.block(2)
        if new:
            m = rng.randrange(2, 9)
            b.R(*up(rng, m, 0, 9000))
            b.R(*[rng.randrange(0, 90000) for _ in range(m)])
        else:
            b.R(*[rng.randrange(0, 90000) for _ in range(21)])
        b.block(3)
        if new:
            m = rng.randrange(2, 9)
            b.R(*up(rng, m, 0, 9000))
            b.R(*[rng.randrange(0, 90000) for _ in range(2 * m)])
        else:
            b.R(*[rng.randrange(0, 90000) for _ in range(110)])
        b.block(4)
        b.R(*[rng.randrange(0, 9000) for _ in range(rng.randrange(0, 5))])

    def compton():
        b.block(6)
        b.R(*[rng.randrange(1, 9 * U) for _ in range(comp)])
        b.block(7)
        b.R(*[rng.randrange(1, 100000) for _ in range(comp)])
        b.block(9)
        at = len(b.x)
        b.I(*[0] * comp)
        b.block(10)
        m = rng.randrange(2, 7)
        x = up(rng, m, 0, 90000)
        order = list(range(comp))
        if rng.random() < .5:
            rng.shuffle(order)
        for k in order:
            b.x[at + k] = b.here() - b.jxs[9] + 1
            b.I(rng.choice([2, 2, 1]), m)
            b.R(*x)
            b.R(*[rng.randrange(0, 9000) for _ in range(2 * m)])
            b.x += [R(3)] * c['gap']

    def relax():
        nos = sorted(rng.sample(range(1, 40), sub)) if rng.random() < .8 else rng.sample(range(1, 40), sub)
        b.block(11)
        b.I(*nos)
        b.block(12)
        b.R(*[rng.randrange(1, 9 * U) for _ in range(sub)])
        b.block(13)
        b.R(*[rng.randrange(1, 100000) for _ in range(sub)])
        b.block(14)
        b.R(*[rng.randrange(1, U) for _ in range(sub)])
        cnt = [(c['ntr'] + i) % 3 for i in range(sub)] if not free else [rng.randrange(0, 6) for _ in range(sub)]
        b.block(15)
        b.I(*cnt)
        b.block(16)
        for _ in range(sub):
            b.R(*logs(n))
        b.block(18)
        for t in cnt:
            p = up(rng, t, 1, U)
            for j in range(t):
                b.I(rng.randrange(1, 40), rng.choice([0, rng.randrange(1, 40)]))
                b.R(rng.randrange(1, 100000), p[j])
    parts = [eszg, factors] + ([compton] if comp else []) + ([relax] if sub else [])
    if rng.random() < .5:
        rng.shuffle(parts)
    for p in parts:
        p()
    b.nxs[0] = len(b.x)
    return b


def text(b, z):
    out = ['%10s%12.6f%12s %10s\n' % ('%d000.12p' % z, z * 2.5, '0.00000E+00', '01/02/2020'), '%-70s%10s\n' % ('photons', '   mat   1')]
    for r in range(4):
        out.append(''.join('%7d%11.0f' % (0, 0) for _ in range(4)) + '\n')
    for r in range(2):
        out.append(''.join('%9d' % v for v in b.nxs[8 * r:8 * r + 8]) + '\n')
    for r in range(4):
        out.append(''.join('%9d' % v for v in b.jxs[8 * r:8 * r + 8]) + '\n')
    for i in range(0, len(b.x), 4):
        out.append(''.join('%20s' % tok(v) for v in b.x[i:i + 4]) + '\n')
    return ''.join(out)


LE = lambda xs: [qe(math.log(v / 1e6) * U, 1, 1e-3) for v in xs]
LX = lambda xs: [NINF if v == 0 else qe(math.log(v) * U, 1, 1e-3) if v > 0 else NAN for v in xs]
UU = lambda xs: qes(xs, U, 1e-3)
EE = lambda xs: qes(xs, 16, 1e-3)


def aceproj(o):
    rx = []
    for r in o:
        t, f = r.xs, r.scattering_factor
        rx.append(dict(mt=q(r.mt), x=LE(t.x), y=LX(t.y), r=[[q(b), q(i)] for b, i in zip(t.breakpoints, t.interpolation)],
                       eb=EE([r.subshell_binding_energy]) if hasattr(r, 'subshell_binding_energy') else [],
                       ffu=[q(v, U) for v in f.x] if f is not None else [], ffm=[q(v, 1000) for v in f.x] if f is not None else [], ffy=UU(f.y) if f is not None else []))
    c = o.compton_profiles
    comp = dict(n=UU(c['num_electrons']), eb=EE(c['binding_energy']), J=[dict(law=q(j.interpolation[0]) if list(j.breakpoints) == [len(j.x)] else NAN, x=UU(j.x), y=UU(j.y)) for j in c['J']]) if c else dict(n=[], eb=[], J=[])
    return dict(z=q(o.atomic_number), name=o.name, rx=rx, relax=shells(o.atomic_relaxation, U, 16), comp=comp)


def acecase(c, d, k, seed):
    rng = random.Random(seed * 104729 + k)
    z = rng.choice([1, 6, 26, 92, rng.randrange(1, 101)])
    b = table(c, rng)
    fn = os.path.join(d, 'table')
    with open(fn, 'w') as f:
        f.write(text(b, z))

    def load():
        o = IncidentPhoton.from_ace(ace.get_table(fn) if k % 2 else fn)
        return o, aceproj(o)
    got, exc = attempt(load)
    words = dict(nxs=b.nxs, jxs=b.jxs, x=[int(v) if isinstance(v, R) else int(v) * U for v in b.x])
    out = dict(ev='ace', z=z, f=words, exc=exc, got=got[1] if got else {}, fexc='', file={})
    if got:
        p = os.path.join(d, 'f.h5')

        def export():
            got[0].export_to_hdf5(p, 'w')
            return readfile(p, got[0].name, LE, LX, U, 16)
        file, out['fexc'] = attempt(export)
        out['file'] = file or {}
    return [out]


def fingerprint(g):
    acc = []

    def visit(n, o):
        acc.append(n)
        acc.append(sorted((k, str(np.asarray(v).tolist())) for k, v in o.attrs.items()))
        if isinstance(o, h5py.Dataset):
            acc.append(g6(pick(o[()])) if o.size else [])
    g.visititems(visit)
    return json.dumps([acc, str(g.attrs['Z'])])


def groups(p):
    if not os.path.exists(p):
        return []
    with h5py.File(p, 'r') as f:
        return [[n, fingerprint(f[n])] for n in f]


def history(ops, d, k, seed):
    rng = random.Random(seed * 15485863 + k)
    z = rng.sample(range(1, 99), 2)
    objs, names, prints = [], [], []
    for i in (0, 1):
        os.makedirs(os.path.join(d, 'e%d' % i))
        _, _, o, exc = endf(z[i], [502, 504, 522, 534], [502, 504], [1], os.path.join(d, 'e%d' % i), rng)
        assert o is not None, exc
        p = os.path.join(d, 'one%d.h5' % i)
        _, exc = attempt(o.export_to_hdf5, p, 'w')
        if exc:
            return [dict(ev='history', names=['', ''], prints=['', ''], steps=[dict(el=1, mode='w', exc=exc, groups=[])])]
        objs.append(o)
        names.append(o.name)
        prints.append(groups(p)[0][1])
    p = os.path.join(d, 'all.h5')
    steps = []
    for el, mode in ops:
        _, exc = attempt(objs[el - 1].export_to_hdf5, p, mode)
        steps.append(dict(el=el, mode=mode, exc=exc, groups=groups(p)))
    return [dict(ev='history', names=names, prints=prints, steps=steps)]


def raw(z):
    """what the files of the package say of an element"""
    base = os.path.dirname(ASAPy.data.__file__)
    with h5py.File(os.path.join(base, 'compton_profiles.h5'), 'r') as f:
        g = f['%03d' % z]
        comp = dict(n=g['num_electrons'][()], eb=g['binding_energy'][()] * 1e6, pz=f['pz'][()], J=g['J'][()])
    stop = None
    if z < 99:
        with h5py.File(os.path.join(base, 'stopping_powers.h5'), 'r') as f:
            g = f['%03d' % z]
            stop = dict(energy=f['energy'][()] * 1e6, I=g.attrs['I'], s_collision=g['s_collision'][()] * 1e6, s_radiative=g['s_radiative'][()] * 1e6)
    w = open(os.path.join(base, 'BREMX.DAT')).read().split()
    n, m = int(w[37]), int(w[38])
    e = np.array([float(v) for v in w[39:39 + n]]) * 1e6
    ph = np.array([float(v) for v in w[39 + n:39 + n + m]])
    at = 39 + n + m + (z - 1) * n * m
    y = np.array([float(v) for v in w[at:at + n * m]]).reshape(n, m) / 1000
    grid = 10 ** np.linspace(3, 9, 200)
    return pack(comp, stop, dict(electron_energy=grid, photon_energy=ph, dcs=CubicSpline(np.log(e), y)(np.log(grid))))


def element(zs, d, k):
    """elements loaded one after another"""
    out = []
    rng = random.Random(k)
    for i, z in enumerate(zs):
        p = os.path.join(d, 'd%d' % i)
        os.makedirs(p)
        _, _, o, exc = endf(z, [502, 504, 522], [], [], p, rng)
        out.append(dict(ev='element', z=z, exc=exc, got=packobj(o) if o is not None else {}, raw=raw(z)))
    return out


def run(log, a):
    rng = a.rng
    cs = load_cases(a.cases)
    if a.part == 'endf':
        todo = [c['d'] for c in cs if c['d']['k'] == 'endf']
        if not a.thorough:
            todo = rng.sample(todo, min(len(todo), 250))
        for _ in range(800 if a.thorough else 120):
            sh = rng.sample(range(1, 40), rng.randrange(0, 8))
            nos = sorted(set(sh) | set(rng.sample(range(1, 40), 2))) if rng.random() < .7 else []
            todo.append(dict(mts=[502, 504, 522] + rng.sample([501, 515, 516, 517, 526, 527, 528], rng.randrange(0, 5)) + [533 + s for s in sh], ff=rng.sample([502, 504, 505, 506], rng.randrange(0, 5)), nos=nos))
        parallel(log, a, todo, lambda c, d, k: one(c, d, k, a.seed))

        def norelax(c, d, k):
            fn = write(os.path.join(d, 'pa'), sections(random.Random(k), 26, [502], []), random.Random(k), 26, 3)
            _, exc = attempt(AtomicRelaxation.from_endf, Evaluation(fn) if k else fn)
            return [dict(ev='norelax', exc=exc)]
        for k in (0, 1):
            os.makedirs(os.path.join(a.scratch, 'n%d' % k))
            for e in norelax(None, os.path.join(a.scratch, 'n%d' % k), k):
                log(**e)
    elif a.part == 'ace':
        todo = [c['d'] for c in cs if c['d']['k'] == 'ace'] * (4 if a.thorough else 1)
        for _ in range(1500 if a.thorough else 200):
            todo.append(dict(k='ace', free=True, new=rng.random() < .6, sub=rng.randrange(0, 9), comp=rng.randrange(0, 9), ntr=0, gap=rng.choice([0, 0, 1])))
        parallel(log, a, todo, lambda c, d, k: acecase(c, d, k, a.seed))
    elif a.part == 'history':
        hs = [c['hist'] for c in cs if c['d']['k'] == 'history']
        hs = rng.sample(hs, min(len(hs), 600 if a.thorough else 120))
        hs += [[[rng.choice([1, 2]), rng.choice(['w', 'a', 'x', 'r+', 'a'])] for _ in range(7)] for _ in range(40)]
        parallel(log, a, hs, lambda c, d, k: history(c, d, k, a.seed))
    else:
        zs = list(range(1, 101)) if a.thorough else sorted({1, 2, 98, 99, 100} | set(rng.sample(range(3, 98), 27)))
        rng.shuffle(zs)
        parallel(log, a, [zs[i::8] for i in range(8)], element)


main(run)
