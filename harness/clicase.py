"""Base files and covariance stores for the sampling command."""
import os
import numpy as np
import acegen
from acegen import U

LEVELS = {4: range(50, 92), 16: range(875, 892), 18: (19, 20, 21, 38), 103: range(600, 650), 104: range(650, 700),
          105: range(700, 750), 106: range(750, 800), 107: range(800, 850)}
CAPT = [102, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155, 182, 191, 192, 193, 197]
POOL = [5, 11, 16, 17, 22, 23, 24, 25, 28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44, 45, 51, 52, 53, 60, 91, 102, 103, 104, 105,
        106, 107, 108, 111, 112, 115, 116, 152, 153, 156, 160, 170, 181, 183, 190, 194, 198, 200,
        600, 601, 649, 650, 699, 700, 749, 750, 799, 800, 805, 849, 875, 880, 891]
NUCS = [('92235', 'U235'), ('26056', 'Fe56'), ('1001', 'H1'), ('94239', 'Pu239'), ('6000', 'C0'), ('98252', 'Cf252'),
        ('8016', 'O16'), ('100255', 'Fm255')]


def parents(mt):
    return [s for s in LEVELS if mt in LEVELS[s]]


def computed(listed):
    """sums that reading adds although the file does not list them"""
    return {s for s in LEVELS if s != 18 and s not in listed and any(l in listed for l in LEVELS[s])}


def base_file(rng, listed=None, fission=False, n=None):
    """a consistent table in units of 1/1024; listed: mt -> first grid point (or a list of mts)"""
    n = n or rng.randrange(4, 12)
    e, E = 4, []
    for i in range(n):
        E.append(e)
        e += rng.choice([4, 8, 16, 64, 512, 3, 1000])
    if listed is None:
        listed = rng.sample(POOL, rng.randrange(1, 9))
        if fission or rng.random() < .4:
            listed += rng.choice([[18], [18], [18, 19, 20, 21], [18, 19, 38]])
        for mt in list(listed):           # sums over levels that the file lists
            for s in parents(mt):
                if s != 4 and s != 18 and rng.random() < .5:
                    listed.append(s)
        if rng.random() < .15 and any(m in listed for m in LEVELS[4]):
            listed.append(4)
    if not isinstance(listed, dict):
        first = {}
        for mt in sorted(set(listed), key=lambda m: -m):    # levels before their sums
            lv = [l for l in LEVELS.get(mt, ()) if l in first]
            f = rng.choice([1, 1, 2, rng.randrange(1, n + 1)]) if mt not in (102, 18) else rng.choice([1, 1, 1, 2])
            first[mt] = min([first[l] for l in lv], default=f)
        listed = first
    used = set()

    def fresh(m, zeros):
        while True:
            y = [rng.randrange(1, 260) if m > 2 else rng.randrange(261, 420) for _ in range(m)]
            if zeros:
                for i in range(min(m, rng.randrange(0, 3))):
                    y[i] = 0
                if rng.random() < .3 and m > 3:
                    y[rng.randrange(m)] = 0
            if tuple(y) not in used and any(y):
                used.add(tuple(y))
                return y
    rows = {}
    for mt in sorted(listed, key=lambda m: (m in LEVELS or m == 101, -m)):
        f = listed[mt]
        lv = [l for l in LEVELS.get(mt, ()) if l in listed]
        if lv:
            y = [sum(rows[l][1][i - listed[l]] for l in lv if i >= listed[l]) for i in range(f, n + 1)]
            if rng.random() < .5 or tuple(y) in used:
                y = [v + rng.randrange(1, 9) for v in y]
            used.add(tuple(y))
        else:
            y = fresh(n + 1 - f, rng.random() < .5)
        rows[mt] = (f, y)
    full = lambda mt: [0] * (rows[mt][0] - 1) + rows[mt][1]
    top = [m for m in rows if not any(s in rows for s in parents(m))]
    capt = [m for m in top if m in CAPT or any(s in CAPT for s in parents(m))]
    dis = [sum(full(m)[i] for m in capt) for i in range(n)]
    el = fresh(n, False)
    tot = [el[i] + sum(full(m)[i] for m in top) for i in range(n)]
    if tuple(tot) in used:
        tot = [t + 300 for t in tot]
    rows[1], rows[2] = (1, tot), (1, el)
    if any(dis):
        rows[101] = (1, dis)
    d = dict(name='', awr=233.02, tz=2.5301e-8, E=E, total=tot, disapp=dis, elastic=el, heating=fresh(n, False),
             header=rng.choice([0, 0, 2, 3, 5]), gap=rng.choice([0, 0, 1, 3]), tail=rng.choice([0, 0, 1, 2, 3]))
    rx = []
    for mt in rows:
        if mt in (1, 2, 101):
            continue
        ty = 19 if mt in (18, 19, 20, 21, 38) else -1 if 51 <= mt <= 91 or mt in (5, 16, 17, 22, 28) and rng.random() < .5 else 0
        if mt == 18 and not fission:
            ty = 0
        r = dict(mt=mt, q=rng.randrange(-4000, 4000), ty=ty, ie=rows[mt][0], xs=rows[mt][1])
        if ty:
            r['law'] = dict(law=3, thr=rng.randrange(100), ratio=U // 2)
        if mt == 18 and fission:
            r['law'] = chi_law(rng, E)
        rx.append(r)
    order = rng.random()
    rx.sort(key=lambda r: r['mt'] if order < .7 else rng.random())
    if not fission:
        for r in rx:
            if r['mt'] in (19, 20, 21, 38):
                r['ty'] = 0
    else:
        # partial fission shares the yields of the total; keep it without emission
        for r in rx:
            if r['mt'] in (19, 20, 21, 38):
                r['ty'] = 0
        d['nu'] = nu_data(rng, E)
    d['reactions'] = rx
    return d, rows


def chi_law(rng, E):
    ein = [E[0], E[-1]] if rng.random() < .5 else sorted({E[0], E[len(E) // 2], E[-1]})
    tab, prev = [], None
    for _ in ein:
        m = rng.randrange(3, 7)
        x, v = [], rng.choice([0, 1]) * U // 4
        for _ in range(m):
            x.append(v)
            v += rng.randrange(1, 5) * U // 4
        while True:
            p = [rng.randrange(1, 120) for _ in range(m)]
            if p != prev:
                break
        prev = p
        c = [0] + sorted(rng.sample(range(1, U), m - 2)) + [U]
        tab.append(dict(intt=rng.choice([1, 2, 2]), x=x, p=p, c=c))
    return dict(law=4, ein=ein, tab=tab, ax=[E[0], E[-1]], ay=[U, U])


def nu_data(rng, E):
    def one(lo):
        m = rng.randrange(2, 5)
        x = [E[0]] + [E[0] + (E[-1] - E[0]) * i // (m - 1) for i in range(1, m)]
        y, v = [], lo
        for _ in x:
            v += rng.randrange(1, 200)
            y.append(v)
        return dict(kind='tab', x=x, y=y)
    t = one(2000)
    r = rng.random()
    if r < .2:
        p = dict(kind='tab', x=list(t['x']), y=list(t['y']))      # every copy
    else:
        p = one(2000)
        while p['y'] == t['y']:
            p = one(2000)
    return dict(prompt=p, total=t)


def groups(rng, xs, n=None):
    """upper limits (descending) and lowest limit for energies xs in eV"""
    n = n or rng.randrange(2, 5)
    c = sorted(set(float(x) for x in xs))
    cand = set()
    for i, x in enumerate(c):
        cand.add(x)
        cand.add(x * rng.choice([1.25, 1.0625, .9375]))
        if i:
            cand.add((x + c[i - 1]) / 2)
    cand = sorted(v for v in cand if v > 0)
    cand = cand + [c[-1] * 1.5, c[-1] * 2, c[-1] * 4][:max(0, n + 1 - len(cand)) + rng.randrange(3)]
    cand = sorted(set(cand))
    pick = sorted(rng.sample(cand, min(n + 1, len(cand))), reverse=True)
    if len(pick) < 3:
        pick = [c[-1] * 2 + 3, c[-1] * .75 + 1, c[0] / 2 + .5]
        pick = sorted(set(pick), reverse=True)
    return pick


def corr(rng, n):
    if rng.random() < .5:
        return np.eye(n)
    a = rng.choice([.25, .5, -.25, .75])
    return np.array([[a ** abs(i - j) for j in range(n)] for i in range(n)])


def store(path, entries):
    """entries: (zaid, mt, limits descending, means, rel, corr)"""
    import pandas as pd
    from ASAPy import AsapyCovStorage as S
    if os.path.exists(path):
        os.remove(path)
    with pd.HDFStore(path, 'w') as h:
        for za, mt, lim, mean, rel, cr in entries:
            g = len(mean)
            df = S.create_stddev_df(g)
            mean, rel = np.array(mean, float), np.array(rel, float)
            df['e high'], df['e low'] = lim[:-1], lim[1:]
            sd = np.where(mean == 0, rel, mean * rel)
            for k, v in (('x-sec(1)', mean), ('x-sec(2)', mean), ('rel.s.d.(1)', rel), ('rel.s.d(2)', rel), ('s.d.(1)', sd), ('s.d(2)', sd)):
                df[k] = v
            c = S.create_corr_df(g)
            c.loc[:, :] = cr
            S.add_stddev_to_store(h, df, za, mt, za, mt)
            S.add_corr_to_store(h, c, za, mt, za, mt)
