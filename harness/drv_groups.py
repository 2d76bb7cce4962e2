"""C01: map_groups_to_continuous on spec-generated and random group structures."""
import numpy as np, pandas as pd
from common import *
with quiet():
    from ASAPy.XsecSampler import map_groups_to_continuous
    from ASAPy import njoy

LADDERS = [
    [1e-5, 0.0253, 0.625, 4.0, 5.53e3, 1e5, 8.1873e5, 2e7, 3e7],
    [1., 2., 3., 4., 5., 6., 7., 8., 9.],
    [1e-5, 1.0000001e-5, 1e-4, 0.1, 0.3, 0.1 + 0.2, 1.5, 2.5, 20.],
]


def call(log, high, es, vals, fill, lo, hi, lo_given=True, hi_given=True, aslist=False):
    """high/es/lo/hi are floats; everything is logged as ranks"""
    pts = sorted(set(list(high) + list(es) + [lo, hi]))
    tick = {x: i + 1 for i, x in enumerate(pts)}
    G = len(high)
    hb = pd.Series(list(high), index=range(1, G + 1), dtype=float)
    mv = pd.Series(list(vals), index=range(1, G + 1), dtype=float)
    e = np.array(es, dtype=float)
    hb0, mv0, e0 = hb.copy(), mv.copy(), e.copy()
    kw = {}
    if lo_given:
        kw['min_e'] = lo
    if hi_given:
        kw['max_e'] = hi
    if fill is not None:
        kw['value_outside_of_range'] = fill
    r, exc = attempt(map_groups_to_continuous, list(e) if aslist else e, hb, mv, **kw)
    fillv = 1 if fill is None else fill
    ids = {}
    for i, v in enumerate(list(vals)):
        ids.setdefault(float(v), i + 1)
    ids.setdefault(float(fillv), G + 1)
    out = []
    if not exc:
        try:
            out = [ids.get(float(x), 0) for x in r]
        except Exception:
            out = [0]
    log(ev='map', high=[tick[x] for x in high], lo=tick[lo], hi=tick[hi], es=[tick[x] for x in es],
        vals=[ids[float(v)] for v in vals], fill=ids[float(fillv)], out=out, exc=exc,
        mutated=not (hb.equals(hb0) and mv.equals(mv0) and np.array_equal(e, e0)))


def run(log, a):
    rng = a.rng
    cases = load_cases(a.cases)
    for n, c in enumerate(cases):
        lad = LADDERS[n % len(LADDERS)]
        f = lambda t: lad[t - 1]
        G = len(c['high'])
        vals = [round(0.5 + 0.25 * g + 0.001 * rng.randrange(100), 6) for g in range(G)]
        es = [f(t) for t in range(1, 9)]
        # between the ticks too
        es += [(f(t) + f(t + 1)) / 2 for t in range(1, 8)]
        k = n % 3
        if k == 1:
            es.reverse()
        elif k == 2:
            rng.shuffle(es)
        call(log, [f(t) for t in c['high']], es, vals, [None, 1, 0, -7.5][n % 4], f(c['lo']), f(c['hi']),
             hi_given=not (c['hi'] == c['high'][0] and n % 2), aslist=n % 5 == 0)
        if n % 7 == 0:       # refused ranges
            h = [f(t) for t in c['high']]
            call(log, h, es, vals, 1, h[-1], f(c['hi']))
            if c['high'][0] > 1:
                call(log, h, es, vals, 1, f(1) / 2, f(c['high'][0] - 1) if c['high'][0] - 1 > c['high'][-1] else f(1) / 4)
    # defaults: minimum is a tenth of the lowest upper bound, maximum is the top bound
    for i in range(60 if not a.thorough else 400):
        G = rng.randrange(1, 12)
        high = sorted({round(10 ** rng.uniform(-4, 7), rng.randrange(0, 6)) + 1e-6 for _ in range(G)}, reverse=True)
        lo, hi = min(high) / 10, max(high)
        es = [lo, hi, lo * .999, hi * 1.001] + high + [10 ** rng.uniform(-6, 8) for _ in range(20)]
        rng.shuffle(es)
        call(log, high, es, [rng.uniform(0, 3) for _ in high], rng.choice([None, 0, 5.]), lo, hi, False, False)
    # real group structures of the repository
    for gs in [njoy.energy_groups_3, njoy.energy_groups_44, njoy.energy_groups_56, njoy.energy_groups_238, njoy.energy_groups_252]:
        b = sorted(float(x) for x in gs)
        high, lo = b[1:][::-1], b[0]
        for rep in range(2 if not a.thorough else 12):
            es = list(b) + [np.nextafter(x, 0) for x in rng.sample(b, min(20, len(b)))] + \
                 [np.nextafter(x, 1e9) for x in rng.sample(b, min(20, len(b)))] + [10 ** rng.uniform(-6, 8) for _ in range(60)]
            es = [float(x) for x in es]
            rng.shuffle(es)
            hi = high[0] if rep % 2 else high[0] * 1.5
            call(log, high, es, [1 + 0.001 * g for g in range(len(high))], rng.choice([1, 0]), lo, hi)
    # random structures
    for i in range(150 if not a.thorough else 3000):
        G = rng.randrange(1, 30)
        pool = sorted({rng.choice([float(rng.randrange(1, 200)), round(rng.uniform(0, 200), 3) + 1e-3, 10 ** rng.uniform(-5, 7)]) for _ in range(G + 12)})
        high = sorted(rng.sample(pool[1:], min(G, len(pool) - 1)), reverse=True)
        below = [x for x in pool if x < high[-1]] or [high[-1] / 2]
        above = [x for x in pool if x >= high[0]]
        lo, hi = rng.choice(below), rng.choice(above)
        es = [rng.choice(pool) for _ in range(rng.randrange(1, 25))] + [rng.uniform(0, 250) for _ in range(5)] + [lo, hi]
        rng.shuffle(es)
        call(log, high, es, [rng.uniform(-2, 3) for _ in high], rng.choice([None, 0, 1, 2.5]), lo, hi, aslist=i % 4 == 0)


main(run)
