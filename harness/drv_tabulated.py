"""C06: the function classes at recorded points."""
import numpy as np
from common import *
with quiet():
    from ASAPy.data.function import Tabulated1D, Sum, Combination, Polynomial, Regions1D, sum_functions


def l2(x):
    x = float(x)
    return q(math.log2(x), 1e6) if x > 0 and math.isfinite(x) else NAN


def evaluate(log, f, t, pts, xs, mode):
    """xs: the real points; mode: how they are handed over"""
    before = [np.array(z).copy() for z in (f.x, f.y, f.breakpoints, f.interpolation)]
    if mode == 'scalar':
        r = [attempt(f, x) for x in xs]
        exc = next((e for _, e in r if e), '')
        out = None if exc else [v for v, _ in r]
        given, mut = None, False
    else:
        given = list(xs) if mode == 'list' else np.array(xs)
        out, exc = attempt(f, given)
    mut = any(not np.array_equal(p, z) for p, z in zip(before, (f.x, f.y, f.breakpoints, f.interpolation)))
    if mode == 'array':
        mut = mut or not np.array_equal(given, np.array(xs))
    log(ev='eval', t=t, pts=pts, out=[] if exc else qs(out, 1e6), lout=[] if exc else [l2(v) for v in out], exc=exc, mutated=mut)


def logtable(a, b, bp, law):
    t = dict(a=a, x=[16 * 2 ** i for i in a], b=b, y=[2 ** i for i in b], bp=bp, law=law, unit=16)
    return t


def step(rng, x):
    """x with some inner points doubled"""
    for j in range(len(x) - 2, 0, -1):
        if rng.random() < .35:
            x = x[:j] + [x[j]] + x[j:]
    return x


def lintable(rng, laws=(1, 2), n=None, steps=0.):
    n = n or rng.randrange(2, 6)
    x = sorted(rng.sample(range(0, 33), n))
    if rng.random() < steps:
        x = step(rng, x)
        n = len(x)
    y = [rng.randrange(-9, 20) for _ in x]
    bps = sorted(rng.sample(range(2, n), rng.randrange(0, n - 1))) + [n] if n > 2 else [2]
    return dict(a=[], x=x, b=[], y=y, bp=bps, law=[rng.choice(laws) for _ in bps], unit=1)


def real(t, v, base=0., delta=1.):
    return base + delta * v / t['unit']


def hair(t, x):
    """just outside"""
    e = 1e-6
    return [x[0] - e * max(abs(x[0]), 1), x[-1] + e * max(abs(x[-1]), 1), x[-1] * 2 + 100, x[0] - 1000]


def make(t, x, y, rng, ints=False):
    if len(t['law']) == 1 and t['law'][0] == 2 and rng.random() < .5:
        return Tabulated1D(x, y)
    arr = (lambda z: np.array(z, dtype=float)) if not ints else (lambda z: [int(i) for i in z])
    return Tabulated1D(arr(x), arr(y), t['bp'] if rng.random() < .5 else np.array(t['bp']), t['law'])


def modes(rng):
    return rng.choice(['array', 'array', 'list', 'scalar'])


def run(log, a):
    rng = a.rng
    cases = load_cases(a.cases)
    rng.shuffle(cases)
    n = 700 if not a.thorough else 6000
    todo = [logtable(c['a'], c['b'], c['bp'], c['law']) for c in cases[:n]]
    for _ in range(150 if not a.thorough else 1500):
        k = rng.randrange(3, 6)
        A = sorted(rng.sample(range(0, 5), k))
        if rng.random() < .4:
            A = step(rng, A)
            k = len(A)
        B = [rng.randrange(0, 5) for _ in A]
        bp = sorted(rng.sample(range(2, k), rng.randrange(0, k - 1))) + [k]
        todo.append(logtable(A, B, bp, [rng.randrange(1, 6) for _ in bp]))
    for i, t in enumerate(todo):
        x = [v / 16 for v in t['x']]
        f = make(t, x, [float(v) for v in t['y']], rng, ints=i % 3 == 0)
        pts, xs = [], []
        for j in range(len(x)):
            pts.append(dict(k='lin', v=t['x'][j])); xs.append(x[j])
            if j + 1 < len(x) and x[j] < x[j + 1]:
                d = t['x'][j + 1] - t['x'][j]
                for s in (1, 2, 3):
                    pts.append(dict(k='lin', v=t['x'][j] + d * s // 4)); xs.append(x[j] + (x[j + 1] - x[j]) * s / 4)
                for v in range(4 * t['a'][j] + 1, 4 * t['a'][j + 1]):
                    pts.append(dict(k='log', v=v)); xs.append(2 ** (v / 4))
        for h in hair(t, x):
            pts.append(dict(k='out', v=0)); xs.append(h)
        o = list(range(len(pts)))
        if i % 2:
            rng.shuffle(o)
        evaluate(log, f, t, [pts[j] for j in o], [xs[j] for j in o], modes(rng))
        out, exc = attempt(f.integral)
        log(ev='int', t=t, out=[] if exc else qs(out, 1e6), exc=exc)
    # linear tables on an affine grid, points close together
    for i in range(250 if not a.thorough else 3000):
        t = lintable(rng, steps=.5)
        base, delta = rng.choice([(0., 1.), (1., 2. ** -20), (1024., 2. ** -12), (-8., .5), (0., 1e6), (0., 2. ** -30)])
        xx = [real(t, v, base, delta) for v in t['x']]
        f = make(t, xx, [float(v) for v in t['y']], rng)
        vs = list(range(t['x'][0], t['x'][-1] + 1)) + [t['x'][0] - 1, t['x'][-1] + 1, t['x'][-1] + 5]
        rng.shuffle(vs)
        evaluate(log, f, t, [dict(k='lin', v=v) for v in vs], [real(t, v, base, delta) for v in vs], modes(rng))
        if (base, delta) == (0., 1.):
            out, exc = attempt(f.integral)
            log(ev='int', t=t, out=[] if exc else qs(out, 1e6), exc=exc)
        if i % 5 == 0:      # integer points of a table with integers
            f = Tabulated1D(np.array(t['x']), np.array(t['y']), t['bp'], t['law'])
            evaluate(log, f, t, [dict(k='lin', v=v) for v in vs], vs if i % 10 else np.array(vs), modes(rng))
    # sums, combinations, polynomials, piecewise functions
    def part(laws=(1, 2), poly=.4):
        if rng.random() < poly:
            return dict(k='poly', c=[rng.randrange(-2, 3) for _ in range(rng.randrange(1, 4))])
        t = lintable(rng, laws)
        t['y'] = [v % 7 - 3 for v in t['y']]
        return dict(k='tab', t=t)

    def obj(p):
        return Polynomial(p['c']) if p['k'] == 'poly' else Tabulated1D(np.array(p['t']['x'], float), np.array(p['t']['y'], float), p['t']['bp'], p['t']['law'])
    for i in range(250 if not a.thorough else 2500):
        fs = [part() for _ in range(rng.randrange(1, 5))]
        vs = [rng.randrange(-2, 12) for _ in range(6)]
        pts = [dict(k='lin', v=v) for v in vs]
        arr = np.array(vs, float)
        ops = [rng.choice(['add', 'subtract', 'maximum', 'minimum']) for _ in fs[1:]]
        if ops and rng.random() < .3:
            ops[0] = 'multiply'
            for p in fs[:2]:
                if p['k'] == 'poly':
                    p['c'] = p['c'][:2]
        sc = rng.random() < .3
        ev = lambda f: [f(float(x)) for x in arr] if sc else f(arr)
        out, exc = attempt(lambda: ev(Combination([obj(p) for p in fs], [getattr(np, o) for o in ops])))
        log(ev='comb', fs=fs, ops=ops, pts=pts, out=[] if exc else qs(out, 1e6), exc=exc)
        out, exc = attempt(lambda: ev(Sum([obj(p) for p in fs])))
        log(ev='comb', fs=fs, ops=['add'] * (len(fs) - 1), pts=pts, out=[] if exc else qs(out, 1e6), exc=exc)
        fs = [part((2, 2, 2, 1) if i % 3 == 0 else (2,)) for _ in range(rng.randrange(1, 5))]
        grid = sorted({v for p in fs if p['k'] == 'tab' for v in p['t']['x']})
        us = [v for v in grid if v < 14][:8] if grid else list(range(-2, 9))
        us = us or grid[:1]
        pts = [dict(k='lin', v=v) for v in us]
        out, exc = attempt(lambda: sum_functions(iter([obj(p) for p in fs]))(np.array(us, float)))
        log(ev='sumf', fs=fs, pts=pts, out=[] if exc else qs(out, 1e6), exc=exc)
        fs = [part() for _ in range(rng.randrange(1, 4))]
        lim = sorted(rng.sample(range(1, 12), len(fs) - 1))
        us = [v for v in range(-1, 13) if v not in lim]
        rng.shuffle(us)
        pts = [dict(k='lin', v=v) for v in us]
        arr = np.array(us, float)
        out, exc = attempt(lambda: ev(Regions1D([obj(p) for p in fs], [float(v) for v in lim])))
        log(ev='piece', fs=fs, limits=lim, pts=pts, out=[] if exc else qs(out, 1e6), exc=exc)


main(run)
