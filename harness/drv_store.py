"""C08, C09: the covariance store, additions to it, and matrices processed into it."""
import os, shutil
import numpy as np
import pandas as pd
import tables
from common import *
warnings.simplefilter('ignore', tables.NaturalNameWarning)
with quiet():
    from ASAPy import AsapyCovStorage as S, EndfToCov as E
    from ASAPy.XsecSampler import XsecSampler
COLS = [('low', 'e low'), ('high', 'e high'), ('x', 'x-sec(1)'), ('x2', 'x-sec(2)'), ('rel', 'rel.s.d.(1)'), ('rel2', 'rel.s.d(2)'), ('sd', 's.d.(1)'), ('sd2', 's.d(2)')]
SC = dict(low=1, high=1, x=1e3, x2=1e3, rel=1e7, rel2=1e7, sd=1e7, sd2=1e7)


def std_proj(df, exact=True):
    d = dict(rows=[int(i) for i in df.index], ncols=len(df.columns))
    for k, c in COLS:
        d[k] = qes(df[c].values, SC[k], .02) if c in df.columns else []
    return d


def corr_proj(df, scale=1e6):
    return dict(rows=[int(i) for i in df.index], cols=[int(i) for i in df.columns], d=[qs(r, scale) for r in df.values])


def dump(h):
    out = []
    for k in h.keys():
        p = k.strip('/').split('/')
        f = h[k]
        out.append(dict(k='/'.join(p[:-1]), kind='std' if p[-1] == 'std_dev' else p[-1], f=std_proj(f) if p[-1] == 'std_dev' else corr_proj(f)))
    return sorted(out, key=lambda e: (e['k'], e['kind']))


# ---- histories of additions -----------------------------------------------------
def falling(rng, n):
    return sorted(rng.sample(range(1, 100), n), reverse=True)


def spoil(rng, s, strict=True):
    s = list(s)
    i = rng.choice([0, len(s) - 2, rng.randrange(len(s) - 1)])
    k = rng.randrange(3)
    if k == 0:
        s[i + 1] = s[i]
    elif k == 1:
        s[i], s[i + 1] = s[i + 1], s[i]
    else:
        s = s[::-1]
    return s


def make_std(rng, good):
    n = rng.randrange(1 if good else 2, 7)
    df = S.create_stddev_df(n)
    low, high = falling(rng, n), falling(rng, n)
    if not good:
        w = rng.randrange(3)
        if w != 1:
            low = spoil(rng, low)
        if w != 0:
            high = spoil(rng, high)
    df['e low'], df['e high'] = [float(x) for x in low], [float(x) for x in high]
    for k, c in COLS[2:]:
        df[c] = [rng.randrange(0, 9000) / SC[k] for _ in range(n)]
    return df


def make_corr(rng, good):
    n = rng.randrange(1 if good else 2, 7)
    if good:
        df = S.create_corr_df(n)
        if rng.random() < .2:
            lab = rng.sample(range(1, 40), n)
            df = pd.DataFrame(index=pd.Index(lab), columns=lab, dtype=float)
    else:
        k = rng.randrange(4)
        rows = list(range(1, n + 1))
        if k == 0:
            cols = rows[:-1]
        elif k == 1:
            cols = rows + [n + 1]
        elif k == 2:
            cols = rows[1:] + rows[:1]
        else:
            cols = rows[:-1] + [n + 5]
        if rng.random() < .5:
            rows, cols = cols, rows
        df = pd.DataFrame(index=pd.Index(rows), columns=cols, dtype=float)
    df.loc[:, :] = np.array([[rng.randrange(-1000, 1001) / 1000 for _ in df.columns] for _ in df.index]).reshape(df.shape)
    return df


KEYSETS = [dict(a=(92235, 102, 92235, 102), b=(92235, 102, 92235, 18), c=(92235, 18, 92235, 102)),
           dict(a=(1001, 2, 1001, 2), b=(1001, 102, 1001, 102), c=(1001, 2, 1002, 2)),
           dict(a=(92235, 452, 92235, 452), b=(92235, 4, 92235, 52), c=(92238, 452, 92235, 452)),
           dict(a=(9, 22, 9, 22), b=(92, 2, 92, 2), c=(9, 2, 29, 22))]


def history(log, a, n, ops):
    rng = a.rng
    keys = KEYSETS[n % len(KEYSETS)]
    path = os.path.join(a.scratch, 'h%d.h5' % n)
    h = pd.HDFStore(path, 'w')
    log(ev='start', dump=dump(h))
    for o in ops:
        if o['op'] == 'close':
            h.close()
        elif o['op'] == 'open':
            h = pd.HDFStore(path, rng.choice(['a', 'r+']))
            log(ev='reopen', dump=dump(h))
        else:
            good = o['f'] < 9
            k = keys[o['key']]
            if rng.random() < .3:
                k = tuple(str(x) for x in k)
            df = (make_corr if o['kind'] == 'corr' else make_std)(rng, good)
            keep = df.copy()
            fn = S.add_corr_to_store if o['kind'] == 'corr' else S.add_stddev_to_store
            _, exc = attempt(fn, h, df, *k)
            pr = corr_proj(keep) if o['kind'] == 'corr' else std_proj(keep)
            log(ev='add', k='/'.join(map(str, k)), kind=o['kind'], f=pr, exc=exc, mutated=not df.equals(keep), dump=dump(h))
    if h.is_open:
        h.close()
    os.remove(path)


# ---- processing matrix files ---------------------------------------------------
def block(t, n, m, vals, mt):
    s = '\n\n\n\n%1d%-35s%5d%4d%5d%4d%4d%3d%4d%3d%4d%4d%4d\n' % (t, ' corr  -a-238', 125, mt, 125, mt, n, 10, n, 3, 0, n, m)
    for row in vals:
        s += ''.join(''.join('%10.3E' % v for v in row[i:i + 8]) + '\n' for i in range(0, len(row), 8))
    return s


def matrix(rng, n):
    b = sorted(rng.sample(range(1, 3000), n + 1), reverse=True)
    b = [v * 1000 for v in b]
    x = [rng.choice([0, rng.randrange(1, 9999), rng.randrange(1, 9999)]) for _ in range(n)]
    rel = [0 if not v and rng.random() < .8 else rng.choice([0, rng.randrange(1, 9999), 500]) for v in x]
    s = [rng.choice([0, rng.randrange(1, 31), rng.randrange(1, 31)]) for _ in range(n)]
    cov = [[0] * n for _ in range(n)]
    wild = rng.random() < .3
    for i in range(n):
        cov[i][i] = s[i] ** 2 * (-1 if wild and rng.random() < .2 else 1)
        for j in range(i + 1, n):
            m = s[i] * s[j]
            c = rng.choice([0, m, -m, rng.randrange(-m, m + 1)])
            if wild:
                c = rng.choice([c, rng.randrange(-1200, 1201), 2 * m + 1])
            cov[i][j] = cov[j][i] = c
    return dict(bounds=b, x=x, rel=rel, cov=cov)


def text(m, mt, rng):
    n = len(m['x'])
    return (block(0, n + 1, 1, [m['bounds']], mt) + block(1, n, 1, [[v / 1e3 for v in m['x']]], mt) + block(2, n, 1, [[v / 1e4 for v in m['rel']]], mt)
            + block(3, n, 0, [[v / 1e3 for v in r] for r in m['cov']], mt))


def process(log, a, n):
    rng = a.rng
    d = os.path.join(a.scratch, 'p%d' % n)
    os.makedirs(d)
    G = rng.choice([1, 2, 3, 4, 9, 17])
    fmt = rng.choice(['u235_{0}g.h5', 'all{0}.h5'])
    path = os.path.join(d, fmt.format(G))
    name = rng.choice(['covr_300.txt_{mt}_matrix.txt', 'covr_nu_300.txt_{mt}_matrix.txt'])
    log(ev='start', dump=[])
    keys = [(92235, 102), (92235, 18), (1001, 2), (92235, 452), (92235, 1018), (92235, 851)]
    rng.shuffle(keys)

    def now():
        if not os.path.exists(path):
            return []
        with pd.HDFStore(path, 'r') as h:
            return dump(h)
    if rng.random() < .4:   # entries from another source: diagonal 1000, limits exchanged
        with pd.HDFStore(path, 'a') as h:
            z = ('1002', 16, '1002', 16)
            c = make_corr(rng, True)
            c = S.create_corr_df(G)
            big = rng.choice([1000., 1., 500.])
            v = np.array([[rng.randrange(-1000, 1001) / 1000 * big for _ in range(G)] for _ in range(G)])
            keep = rng.randrange(G)
            np.fill_diagonal(v, [big if rng.random() < .6 or i == keep else 0 for i in range(G)])
            c.loc[:, :] = v
            S.add_corr_to_store(h, c, *z)
            t = S.create_stddev_df(G)
            b = sorted(rng.sample(range(1, 3000), G + 1), reverse=True)
            up, lo = [float(x) for x in b[:-1]], [float(x) for x in b[1:]]
            if rng.random() < .6:
                up, lo = lo, up
            t['e high'], t['e low'] = up, lo
            for k, cc in COLS[2:]:
                t[cc] = [rng.randrange(0, 9000) / SC[k] for _ in range(G)]
            S.add_stddev_to_store(h, t, *z)
            have = dump(h)
        log(ev='given', dump=have)
        loads = [z[:2]]
    else:
        loads = []
    for zaid, mt in keys[:rng.randrange(1, 5)] + [keys[0]]:
        m = matrix(rng, G)
        f = os.path.join(d, name.format(mt=mt))
        bad = rng.random() < .2
        t = text(m, mt, rng)
        if bad:
            t = t[:rng.randrange(len(t))]
            t = t[:t.rfind('\n') + 1] + '\n ***ERROR IN BOXR***CANNOT FIND ITYPE,MAT,MT,MAT1,MT1 =    3 9228%5d 9228%5d\n' % (mt, mt)
        open(f, 'w').write(t)
        others = set(os.listdir(d))
        _, exc = attempt(E.process_cov_to_h5, d, zaid, mt, boxer_matrix_name=name, output_h5_format=fmt)
        log(ev='process', k='%s/%s/%s/%s' % (zaid, mt, zaid, mt), bad=bad, m=m, exc=exc, files=sorted(set(os.listdir(d)) - others - {os.path.basename(path)}), dump=now())
        loads.append((zaid, mt))
    for z, mt in loads:
        if not os.path.exists(path):
            break
        with pd.HDFStore(path, rng.choice(['r', 'r+'])) as h:
            fill = rng.random() < .2
            as_s = rng.random() < .5
            pair = rng.random() < .3
            args = (str(z), str(mt)) if as_s else (int(z), mt)
            r, exc = attempt(lambda: XsecSampler.load_zaid_mt(h, *(args * 2 if pair else args), fill_corr_diag=fill))
            log(ev='load', k='%s/%s/%s/%s' % (z, mt, z, mt), fill=fill, exc=exc, std=std_proj(r[0]) if not exc else std_proj(S.create_stddev_df(1)),
                corr=corr_proj(r[1]) if not exc else dict(rows=[], cols=[], d=[]), dump=dump(h))
    shutil.rmtree(d)


def run(log, a):
    if a.part == 'process':
        for n in range(90 if not a.thorough else 900):
            process(log, a, n)
    else:
        cases = load_cases(a.cases)
        a.rng.shuffle(cases)
        for n, c in enumerate(cases[:60 if not a.thorough else 700]):
            history(log, a, n, c['ops'])


if __name__ == "__main__":
    main(run)
