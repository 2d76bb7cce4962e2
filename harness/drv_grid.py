"""C28: functions linearised, tables thinned, elastic cross sections at zero temperature"""
import os
import numpy as np
from common import *
from side import parallel
import acegen, endfgen as E
with quiet():
    from ASAPy.data import grid
    from ASAPy.data.function import Tabulated1D
    from ASAPy.data.neutron import IncidentNeutron

U = 1024
TOLS = [(1, 1009), (10, 1009), (126, 1009), (500, 1009)]


def lin(log, c, k, rng):
    """the abscissae and values are scaled by powers of two"""
    f, ini = c['f'], c['init']
    x0, sx, sy = rng.choice([0, 0, 1, -3, 100]), rng.choice([1., .25, 8.]), rng.choice([1., .5, 16.])
    xs = [x0 + i * sx for i in range(len(f))]
    kind = k % 3
    if kind == 0:
        fun = Tabulated1D(xs, [y * sy for y in f])
    elif kind == 1:
        fun = lambda x: np.interp(x, xs, [y * sy for y in f])
    else:
        fun = lambda x: float(np.interp(x, xs, [y * sy for y in f]))
    x = [x0 + p * sx / 2 for p in ini]
    if k % 2:
        x = np.array(x)
    kw = {} if (c['num'], c['den']) == (1, 1000) else dict(tolerance=c['num'] / c['den'])
    back = lambda X, Y: [[q((a - x0) * 2 / sx), q(b * 2 / sy)] for a, b in zip(X, Y)]
    r, exc = attempt(grid.linearize, x, fun, **kw)
    th = []
    if not exc:
        t, exc = attempt(grid.thin, r[0], r[1], **kw)
        th = [] if exc else back(*t)
    log(ev='lin', f=f, init=ini, num=c['num'], den=c['den'], exc=exc, lin=[] if r is None else back(*r), thin=th)


def thin(log, k, rng):
    n = rng.choice([1, 2, 3, 4, 5, 8, 12, 20])
    num, den = rng.choice(TOLS)
    x = sorted(rng.sample(range(0, 900), n))
    y = [rng.randrange(-400, 400)]
    slope = rng.randrange(-3, 4)
    for a, b in zip(x, x[1:]):
        if rng.random() < .25:
            slope = rng.randrange(-3, 4)
        v = y[-1] + slope * (b - a) + rng.choice([0, 0, 0, 1, -1, 20])
        y.append(v if abs(v) < 1000 else rng.randrange(-400, 400))
    if rng.random() < .2:
        y = [0 if rng.random() < .4 else v for v in y]
    X, Y = np.array(x, float) / 4, np.array(y, float) / 8
    X0, Y0 = X.copy(), Y.copy()
    r, exc = attempt(grid.thin, X, Y, tolerance=num / den)
    log(ev='thin', xy=[[a, b] for a, b in zip(x, y)], num=num, den=den, exc=exc, got=[] if exc else [[q(a, 4), q(b, 8)] for a, b in zip(*r)],
        kept=bool(np.array_equal(X, X0) and np.array_equal(Y, Y0)))


def rest(n):
    r = [[int(mt), [[T, qs(x.x if hasattr(x, 'x') else [], 64), qs(x.y if hasattr(x, 'y') else [], 64)] for T, x in rx.xs.items() if not (mt == 2 and T == '0K')]] for mt, rx in n.reactions.items()]
    return json.dumps([n.name, list(n.temperatures), [[T, qs(g, 64)] for T, g in n.energy.items() if T != '0K'], r])


def zero(c, d, number):
    rng = random.Random(c['seed'])
    ap = os.path.join(d, 'ace')
    acegen.write(ap, dict(name='26056.01c', awr=1., tz=600 * 8.6173303e-11, E=[1 * U, 2 * U], total=[5, 7], disapp=[0, 0], elastic=[5, 7], heating=[0, 0]))
    n = IncidentNeutron.from_ace(ap)
    before = rest(n)
    adds = []
    for i in range(rng.choice([1, 2, 3])):
        m = rng.choice([2, 3, 5, 8])
        x = sorted(rng.sample(range(1, 30), m))
        y = [rng.randrange(1, 30) for _ in x]
        if rng.random() < .6:       # straight pieces
            y = [1 + (v - x[0]) * 2 if v <= x[m // 2] else 1 + (x[m // 2] - x[0]) * 2 for v in x]
            y = [min(v, 32) for v in y]
        za, b = 26056, dict(E.BASE, za=26056, awr=1.)
        secs = []
        if c['file2'] == 'radius':
            s = E.cont(za, 1., 0, 0, 1, 0) + E.cont(za, 1., 0, 0, 1, 0) + E.cont(1e-5, 1e5, 0, 0, 0, 0) + E.cont(0., .5, 0, 0, 0, 0)
            secs.append((2, 151, s))
        elif c['file2'] == 'unresolved':
            # average widths that do not depend on the energy
            s = E.cont(za, 1., 0, 0, 1, 0) + E.cont(za, 1., 0, 0, 1, 0) + E.cont(1e-5, 1e5, 2, 1, 0, 0)
            s += E.cont(0., .5, 0, 0, 1, 0) + E.lst(1., 0., 0, 0, 1, [10., .5, 1., .25, .125, 0.])
            secs.append((2, 151, s))
        secs.append((3, 2, E.cont(za, 1., 0, 0, 0, 0) + E.tab1(0, 0, 0, 0, [(m, 2)], [(float(u), float(v)) for u, v in zip(x, y)])))
        p = os.path.join(d, 'endf%d' % i)
        open(p, 'w').write(E.tape([E.material(2631, [(1, 451, E.header(b, [(1, 451, 9, 1)] + [(f, t, len(s), 1) for f, t, s in secs]))] + secs)]))
        ow = rng.random() < .4
        _, exc = attempt(n.add_elastic_0K_from_endf, p, **(dict(overwrite=True) if ow else {}))
        z = n[2].xs.get('0K')
        adds.append(dict(xy=[[u, v] for u, v in zip(x, y)], overwrite=ow, exc=exc, rest=rest(n), got=[] if z is None else [[q(u), q(v)] for u, v in zip(z.x, z.y)],
                         grid=qs(n.energy['0K']) if '0K' in n.energy else []))
    return [dict(ev='zero', rest=before, adds=adds, file2=c['file2'])]


def run(log, a):
    rng = a.rng
    if a.part == 'zero':
        return parallel(log, a, [dict(seed=rng.randrange(10 ** 9), file2=('none', 'radius', 'unresolved')[k % 3]) for k in range(300 if a.thorough else 60)], zero)
    cases = load_cases(a.cases)
    rng.shuffle(cases)
    todo = cases[:8000 if a.thorough else 1500]
    for k in range(1500 if a.thorough else 300):
        n = rng.choice([8, 16, 32, 64])
        step = rng.choice([2 * n, n, n // 2, 4, 2])
        num, den = rng.choice(TOLS + [(1, 1000)])
        top = 60 if den == 1000 else 400
        f = [rng.randrange(0, top)]
        for _ in range(n):
            f.append(min(max(f[-1] + rng.choice([0, 0, 1, 2, -1, rng.randrange(-top, top)]), 0), top))
        if den == 1000:
            step = 4
        todo.append(dict(f=f, init=list(range(0, 2 * n + 1, step)), num=num, den=den))
    for k, c in enumerate(todo):
        lin(log, c, k, rng)
    for k in range(3000 if a.thorough else 500):
        thin(log, k, rng)


main(run)
