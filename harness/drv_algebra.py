"""C17: conversions, the modified Cholesky factorisation, repair of stored correlations."""
import os
import numpy as np
import pandas as pd
import tables
from common import *
warnings.simplefilter('ignore', tables.NaturalNameWarning)
with quiet():
    from ASAPy import CovManipulation as C, AsapyCovStorage as S
    from ASAPy.XsecSampler import XsecSampler
np.seterr(all='ignore')


def gmw(log, m, scale=1.):
    A = np.array(m, float) * scale
    keep = A.copy()
    r, exc = attempt(C.gmw_cholesky, A)
    f = 4096
    ev = dict(ev='gmw', m=m, f=f, exc=exc, perm=[], low=[], shift=[], unit=False, tri=False, nonneg=False, resid=0, maxshift=0, tol=0, mutated=not np.array_equal(A, keep))
    if not exc:
        P, L, e = (np.asarray(x) for x in r)
        n = len(m)
        ev['unit'] = P.shape == (n, n) and bool(np.all((P == 0) | (P == 1)) and np.all(P.sum(0) == 1) and np.all(P.sum(1) == 1))
        if ev['unit']:
            ev['perm'] = [int(np.argmax(P[:, k])) + 1 for k in range(n)]
        s = scale ** .5
        ev['low'] = qm(L / s, f)
        ev['shift'] = qs(e / scale, f * f)
        ev['tri'] = bool(np.all(np.triu(L, 1) == 0))
        ev['nonneg'] = bool(np.all(e >= 0))
        M = P @ L
        big = max(np.abs(A).max(), np.abs(e).max(), 1e-300)
        ev['resid'] = q(np.abs(M @ M.T - A - np.diag(P @ e)).max() / big, 1e12)
        ev['maxshift'] = q(np.abs(e).max() / max(np.abs(A).max(), 1e-300), 1e12)
        ev['tol'] = int(n * (np.abs(L / s).max() * f + 2)) + 1
        if max(np.abs(L / s).max() ** 2 * n, np.abs(e / scale).max(), np.abs(np.array(m)).max()) * f * f > 1.9e9:
            # larger than the integers of the model checker: judge the residual only, elements with a coarser scale
            ev['f'] = f = 256
            ev['low'], ev['shift'] = qm(L / s, f), qs(e / scale, f * f)
            ev['tol'] = int(n * (np.abs(L / s).max() * f + 2)) + 1
    log(**ev)


def repair(log, a, m, i, rng):
    n = len(m)
    path = os.path.join(a.scratch, 'r.h5')
    h = pd.HDFStore(path, 'w')
    sdf, cdf = S.create_stddev_df(n), S.create_corr_df(n)
    b = sorted(rng.sample(range(1, 1000), n + 1), reverse=True)
    sd = [rng.randrange(1, 9) * 1. for _ in range(n)]
    for col in sdf.columns:
        sdf[col] = [1.] * n
    sdf['e high'], sdf['e low'], sdf['s.d.(1)'] = [float(x) for x in b[:-1]], [float(x) for x in b[1:]], sd
    mx = max(m[k][k] for k in range(n))
    M = np.array(m) / mx * rng.choice([1., 1000.])
    cdf.loc[:, :] = M
    with quiet():
        S.add_stddev_to_store(h, sdf, 92235, 102, 92235, 102)
        S.add_corr_to_store(h, cdf, 92235, 102, 92235, 102)
    before = {k: h[k].copy() for k in h.keys()}
    asked = i % 5 != 0
    x, exc = attempt(XsecSampler, h, 92235, 102) if asked else attempt(XsecSampler, h, 92235, 102, remove_negative_eig=False)
    ev = dict(ev='repair', m=m, asked=asked, exc=exc, fixed=[], mineig=0, orig=0, dist=0, changed=0, coverr=0,
              same=sorted(h.keys()) == sorted(before) and all(h[k].equals(before[k]) for k in before))
    if not exc:
        F = np.asarray(x.corr_df.values, float)
        O = np.array(m) / 4.
        keep = [k for k in range(n) if m[k][k] > 0]
        ev['fixed'] = qm(F, 1e6)
        sub, osub = F[np.ix_(keep, keep)], O[np.ix_(keep, keep)]
        ev['mineig'] = int(np.linalg.eigvalsh((sub + sub.T) / 2).min() * 1e12 > 0)
        ev['orig'] = q(np.linalg.eigvalsh(osub).min(), 1e8)
        ev['dist'] = q(np.abs(np.linalg.eigvalsh((sub + sub.T) / 2 - osub)).max(), 1e8)
        ev['changed'] = q(np.abs(F - O).max(), 1e14)
        cov, exc2 = attempt(x.calc_cov)
        if exc2:
            ev['exc'] = exc2
        else:
            want = F * np.outer(sd, sd)
            d = np.abs(cov.values - want)
            np.fill_diagonal(d, np.abs(np.diag(cov.values) - np.array(sd) ** 2))
            ev['coverr'] = q(d.max(), 1e10) + (0 if list(cov.index) == list(x.corr_df.index) and list(cov.columns) == list(x.corr_df.columns) else 999)
    h.close()
    os.remove(path)
    log(**ev)


def conversions(log, rng):
    n = rng.randrange(1, 6)
    std = [rng.randrange(1, 40) for _ in range(n)]
    corr = [[4] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            corr[i][j] = corr[j][i] = rng.randrange(-4, 5)
    s, c = np.array(std, float if rng.random() < .7 else int), np.array(corr) / 4.
    ks, kc = s.copy(), c.copy()
    cov, exc = attempt(C.correlation_to_cov, s, c)
    back = None
    if not exc:
        kv = cov.copy()
        back, exc = attempt(C.cov_to_correlation, cov)
    log(ev='cov', std=std, corr=corr, cov=[] if exc else [qes(r, 4, 1e-6) for r in kv], back=[] if exc else [qes(r, 1e6, 1e-3) for r in back],
        exc=exc, mutated=not (np.array_equal(s, ks) and np.array_equal(c, kc) and (exc != '' or np.array_equal(cov, kv))))


def run(log, a):
    rng = a.rng
    cases = [c['m'] for c in load_cases(a.cases)]
    rng.shuffle(cases)
    unit = [m for m in cases if all(m[i][i] in (0, 4) for i in range(3)) and any(m[i][i] for i in range(3))]
    for m in cases[:900 if not a.thorough else 6000]:
        gmw(log, m, 1.)
    for i, m in enumerate(cases[:120]):
        gmw(log, m, rng.choice([1e-6, .25, 1e4]))
    for _ in range(120 if not a.thorough else 900):
        n = rng.randrange(1, 6)
        m = [[0] * n for _ in range(n)]
        if rng.random() < .5:
            B = [[rng.randrange(-2, 3) for _ in range(n)] for _ in range(n)]
            m = (np.array(B) @ np.array(B).T).tolist()
        else:
            for i in range(n):
                for j in range(i + 1):
                    m[i][j] = m[j][i] = rng.randrange(-8, 9)
        gmw(log, m)
    for i, m in enumerate(unit[:260 if not a.thorough else 2000]):
        repair(log, a, m, i, rng)
    for i in range(60 if not a.thorough else 400):
        n = rng.randrange(1, 6)
        m = [[4 if p == r else 0 for p in range(n)] for r in range(n)]
        for p in range(n):
            for r in range(p):
                m[p][r] = m[r][p] = rng.choice([-4, -2, -1, 0, 0, 1, 2, 4])
        for p in range(n):
            if rng.random() < .15 and n > 1 and any(m[r][r] for r in range(n) if r != p):
                for r in range(n):
                    m[p][r] = m[r][p] = 0
        repair(log, a, m, i, rng)
    for _ in range(150 if not a.thorough else 1000):
        conversions(log, rng)


main(run)
