"""C10-C12: samples, ranks, correlations, and sample tables drawn from stores."""
import os
import numpy as np
import pandas as pd
import tables
from scipy.stats import norm
from common import *
warnings.simplefilter('ignore', tables.NaturalNameWarning)
with quiet():
    from ASAPy import CovManipulation as C, AsapyCovStorage as S
    from ASAPy import XsecSampler as X
np.seterr(all='ignore')


def cdf(distro, mean, sd, x):
    if distro == 'lognormal':
        s2 = np.log1p((sd / mean) ** 2)
        return norm.cdf((np.log(x) - np.log(mean) + s2 / 2) / np.sqrt(s2))
    if distro == 'uniform':
        return (x - mean) / (sd * 12 ** .5) + .5
    return norm.cdf((x - mean) / sd)


def strata(distro, mean, sd, x, n):
    if not sd > 0 or (distro == 'lognormal' and not mean > 0):
        return []
    return qs(np.floor(np.asarray(cdf(distro, mean, sd, np.asarray(x, float))) * n))


def rand_corr(rng, k, style=None):
    """a correlation matrix: diagonal, positive definite, or of rank one"""
    style = style if style is not None else rng.randrange(4)
    if style == 0:
        return np.eye(k)
    if style == 1:
        v = np.array([rng.choice([-1., 1.]) for _ in range(k)])
        return np.outer(v, v)
    A = np.array([[rng.gauss(0, 1) for _ in range(k)] for _ in range(k)])
    M = A @ A.T
    if style == 2:
        M += k * np.eye(k)
    s = np.sqrt(np.diag(M))
    return M / np.outer(s, s)


def sample_event(log, distro, n, mean, sd, corr, listy=False):
    k = len(mean)
    m, s, c = np.array(mean, float), np.array(sd, float), np.array(corr, float)
    keep = m.copy(), s.copy(), c.copy()
    r, exc = attempt(C.sample_with_corr, m, s, c, n, distro=distro)
    vars_ = [dict(mean0=bool(mean[i] == 0), sd0=bool(sd[i] <= 1e-30), diag0=bool(corr[i][i] == 0)) for i in range(k)]
    ev = dict(ev='sample', distro=distro, n=n, vars=vars_, exc=exc, shape=[], cols=[],
              mutated=not all(np.array_equal(x, y) for x, y in zip(keep, (m, s, c))))
    if not exc:
        r = np.asarray(r)
        ev['shape'] = [int(i) for i in r.shape]
        if ev['shape'] == [n, k]:
            for i in range(k):
                x = r[:, i]
                ev['cols'].append(dict(hold=bool(np.all(x == mean[i])), strata=strata(distro, mean[i], sd[i], x, n), positive=bool(np.all(x > 0))))
    log(**ev)


def part_strata(log, a):
    rng = a.rng
    cases = load_cases(a.cases)
    rng.shuffle(cases)
    for i, c in enumerate(cases if a.thorough else cases[:700]):
        d = c['distro']
        k = len(c['vars'])
        corr = rand_corr(rng, k)
        mean, sd = [], []
        for j, v in enumerate(c['vars']):
            m = rng.choice([1e-6, .01, .5, 3., 250.]) * rng.uniform(.5, 1.5)
            s = rng.choice([1e-4, .05, .3, 1.2]) * m
            if d != 'lognormal' and rng.random() < .2:
                m = -m
            if v['mean0']:
                m = 0.
            if v['sd0']:
                s = rng.choice([0., 1e-31, 1e-30, 1e-40])
            if v['diag0']:
                corr[j, :] = 0
                corr[:, j] = 0
            mean.append(m)
            sd.append(s)
        sample_event(log, d, [1, 2, 3, 5, 7, 12][i % 6], mean, sd, corr)
    for i in range(90 if not a.thorough else 600):
        d = ['normal', 'lognormal', 'uniform'][i % 3]
        k = rng.choice([1, 1, 2, 4, 6, 9])
        n = rng.choice([1, 4, 10, 25, 40, 90])
        corr = rand_corr(rng, k)
        mean = [rng.choice([1., 1., 1., 0.]) * rng.uniform(.01, 20) for _ in range(k)]
        sd = [rng.choice([1., 1., 1., 0.]) * (m or 1) * rng.choice([.02, .2, .7, 2.]) for m in mean]
        for j in range(k):
            if rng.random() < .15:
                corr[j, :] = corr[:, j] = 0
        sample_event(log, d, n, mean, sd, corr)
    for i in range(24):
        k, n = rng.randrange(1, 5), rng.choice([1, 2, 10, 33])
        if i % 2:
            r, exc = attempt(C.lhs_uniform_sample, k, n)
            f = lambda x, j: x
        else:
            mean = [rng.uniform(-5, 5) for _ in range(k)]
            sd = [rng.uniform(.1, 3) for _ in range(k)]
            r, exc = attempt(C.lhs_normal_sample, n, np.array(mean), np.array(sd))
            f = lambda x, j: norm.cdf((x - mean[j]) / sd[j])
        ok = not exc and np.shape(r) == (n, k)
        log(ev='unit', k=k, n=n, exc=exc, shape=[] if exc else [int(x) for x in np.shape(r)],
            strata=[qs(np.floor(f(r[:, j], j) * n)) for j in range(k)] if ok else [])


# ---- ranks and correlations ---------------------------------------------------------
def part_rank(log, a):
    rng = a.rng
    import itertools
    def both(s):
        n, k = len(s), len(s[0])
        s0 = np.array(s, float)
        r, exc = attempt(C.rank, s0)
        log(ev='rank', k=k, s=s, r=[] if exc else qm(np.asarray(r)), exc=exc)
        rk = [[0] * k for _ in range(n)]
        for j in range(k):
            p = list(range(n))
            rng.shuffle(p)
            for i in range(n):
                rk[i][j] = p[i]
        o, exc = attempt(C.order, np.array(rk), np.array(s, float))
        log(ev='order', k=k, s=s, r=rk, out=[] if exc else qm(np.asarray(o)), exc=exc)
    for n in (1, 2, 3):
        for col in itertools.product(range(3), repeat=n):
            for c2 in ([(0,) * n, tuple(range(n))] if n > 2 else itertools.product(range(3), repeat=n)):
                both([[x, y] for x, y in zip(col, c2)])
    for _ in range(120 if not a.thorough else 1500):
        n, k = rng.randrange(1, 9), rng.randrange(1, 5)
        both([[rng.randrange(-5, 6) if rng.random() < .5 else rng.randrange(-10**6, 10**6) for _ in range(k)] for _ in range(n)])
    for n in (1, 2, 5, 40, 1500):
        for k in (1, 2, 4):
            r, exc = attempt(C.col_independent_matrix, n, k)
            if n == 1:
                continue        # one score has no spread
            cols, mean, sd, maxc = [], [], [], 0
            if not exc:
                base = np.sort(np.asarray(r)[:, 0])
                for j in range(r.shape[1]):
                    ix = np.searchsorted(base, r[:, j] - 1e-12)
                    cols.append(qs(ix))
                    mean.append(q(r[:, j].mean(), 1e6))
                    sd.append(q(r[:, j].std(), 1e6))
                if k > 1:
                    maxc = q(np.abs(np.corrcoef(np.asarray(r).T) - np.eye(k)).max(), 1e4)
            log(ev='scores', n=n, k=k, cols=cols, mean=mean, sd=sd, maxc=maxc, exc=exc)


def psd(M, eps):
    return np.linalg.eigvalsh(M).min() >= eps


def corr_event(log, distro, n, c4, k, fixed, why, tol, rng):
    K = len(c4)
    corr = np.array(c4) / 4.
    mean = np.array([rng.uniform(1, 9) for _ in range(K)])
    rel = (2. ** k - 1) ** .5 if k else .01
    sd = mean * rel
    if not k and distro != 'lognormal':
        sd = mean * [rng.choice([.01, .1, .5]) for _ in range(K)]
    for i in range(K):
        if fixed[i]:
            if why == 'sd':
                sd[i] = 0
            else:
                corr[i, :] = corr[:, i] = 0
    r, exc = attempt(C.sample_with_corr, mean, sd, corr, n, distro=distro)
    got = []
    if not exc:
        x = np.asarray(r)
        if distro == 'lognormal':
            x = np.log(x)
        g = np.corrcoef(x.T) if K > 1 else np.array([[1.]])
        got = qm(np.where(np.isnan(g), 9, g), 1e4)
    log(ev='corr', distro=distro, n=n, c4=[[int(v) for v in row] for row in c4], k=k, fixed=fixed, got=got, exc=exc, tol=tol)


def part_corr(log, a):
    rng = a.rng
    import itertools
    n = 250
    pats = []
    for t in itertools.product([-4, -3, -2, 0, 2, 3, 4], repeat=3):
        M = [[4, t[0], t[1]], [t[0], 4, t[2]], [t[1], t[2], 4]]
        if psd(np.array(M) / 4., -1e-12):
            pats.append(M)
    sing = [M for M in pats if not psd(np.array(M) / 4., 1e-6)]
    reg = [M for M in pats if psd(np.array(M) / 4., 1e-6)]
    rng.shuffle(reg)
    todo = sing + (reg if a.thorough else reg[:40])
    for i, M in enumerate(todo):
        d = ['normal', 'normal', 'uniform'][i % 3]
        corr_event(log, d, n, M, 0, [False] * 3, '', 1000 if d == 'normal' else 1700, rng)
    # larger ones, block structures, fixed variables in between
    for i in range(30 if not a.thorough else 200):
        K = rng.randrange(4, 7)
        fixed = [rng.random() < .35 for _ in range(K)] if i % 2 else [False] * K
        if all(fixed):
            fixed[0] = False
        for _ in range(400):
            M = np.eye(K, dtype=int) * 4
            for p in range(K):
                for r in range(p):
                    M[p, r] = M[r, p] = rng.choice([-2, 0, 0, 1, 2, 3])
            if psd(M / 4., .02):
                break
        else:
            v = np.array([rng.choice([-1, 1]) for _ in range(K)])
            M = 4 * np.outer(v, v)
        if i % 5 == 0:
            v = np.array([rng.choice([-1, 1]) for _ in range(K)])
            M = 4 * np.outer(v, v)
        corr_event(log, 'normal', n, M.tolist(), 0, fixed, rng.choice(['sd', 'diag']), 1000, rng)
    # lognormal
    for k, step in ((0, 1), (1, 4), (2, 2), (4, 1)):
        done = 0
        for _ in range(2000):
            K = rng.choice([2, 3, 4])
            M = np.eye(K, dtype=int) * 4
            for p in range(K):
                for r in range(p):
                    M[p, r] = M[r, p] = rng.choice([v for v in (-4, -3, -2, -1, 0, 1, 2, 3) if v % step == 0])
            T = M / 4. if not k else (2. ** (k * M / 4.) - 1) / (2. ** k - 1)
            if not psd(T, .02):
                continue
            fixed = [rng.random() < .2 for _ in range(K)]
            corr_event(log, 'lognormal', n, M.tolist(), k, fixed, rng.choice(['sd', 'diag']), 1000, rng)
            done += 1
            if done >= (6 if not a.thorough else 30):
                break


# ---- sampling from a store ------------------------------------------------------------
TYPES = dict(normal=('normal', True), lognormal=('lognormal', True), uniform=('uniform', True), uncorrelated=('normal', False), loguncorrelated=('lognormal', False))


def same_frames(h, before):
    return sorted(h.keys()) == sorted(before) and all(h[k].equals(before[k]) for k in before)


def part_store(log, a):
    rng = a.rng
    np.random.seed(a.seed)
    for i in range(70 if not a.thorough else 500):
        path = os.path.join(a.scratch, 's%d.h5' % i)
        h = pd.HDFStore(path, 'w')
        mts = rng.sample([2, 4, 16, 18, 51, 102, 107, 452, 851, 1018], 2)
        truth = {}
        for mt in mts:
            G = rng.choice([1, 1, 2, 3, 5])
            c4 = np.eye(G, dtype=int) * 4
            if i % 3:
                for _ in range(300):
                    M = np.eye(G, dtype=int) * 4
                    for p in range(G):
                        for r in range(p):
                            M[p, r] = M[r, p] = rng.choice([-3, -2, 0, 2, 3])
                    if psd(M / 4., .02):
                        c4 = M
                        break
            if i % 7 == 1:
                v = np.array([rng.choice([-1, 1]) for _ in range(G)])
                c4 = 4 * np.outer(v, v)
            mean = [rng.uniform(.2, 9) for _ in range(G)]
            rel = [rng.choice([.05, .2, .4, .9]) for _ in range(G)]
            sd = [m * r for m, r in zip(mean, rel)]
            for g in range(G):
                if rng.random() < .2:
                    mean[g], sd[g] = rng.choice([(0., 1e-7), (mean[g], 0.), (0., 0.), (0., .3)])
                    rel[g] = sd[g] / mean[g] if mean[g] else 1e-7
            sdf = S.create_stddev_df(G)
            bounds = sorted(rng.sample(range(1, 10**6), G + 1), reverse=True)
            for col, v in (('e high', bounds[:-1]), ('e low', bounds[1:]), ('x-sec(1)', mean), ('x-sec(2)', [7.] * G), ('rel.s.d.(1)', rel),
                           ('rel.s.d(2)', [.5] * G), ('s.d.(1)', sd), ('s.d(2)', [3.] * G)):
                sdf[col] = [float(x) for x in v]
            cdfm = S.create_corr_df(G)
            scale = rng.choice([1., 1000.])
            diag0 = [rng.random() < .1 for _ in range(G)]
            if all(diag0):
                diag0[0] = False
            M = c4 / 4. * scale
            for g in range(G):
                if diag0[g]:
                    M[g, :] = M[:, g] = 0
            cdfm.loc[:, :] = M
            with quiet():
                S.add_stddev_to_store(h, sdf, 92235, mt, 92235, mt)
                S.add_corr_to_store(h, cdfm, 92235, mt, 92235, mt)
            truth[mt] = (G, c4, mean, sd, diag0)
        before = {k: h[k].copy() for k in h.keys()}
        mt = mts[0]
        G, c4, mean, sd, diag0 = truth[mt]
        for ty in rng.sample(sorted(TYPES), 3):
            distro, correlated = TYPES[ty]
            remove = rng.random() < .5
            n = rng.choice([1, 5, 20, 60, 200 if G < 4 else 60])
            name = rng.choice([ty, ty.upper(), ty.capitalize()]) if i % 4 == 3 else ty
            res, exc = attempt(X.sample_xsec, h, rng.choice([mt, str(mt)]) if mt in (2, 102) else mt, rng.choice([92235, '92235']), n, sample_type=name, remove_neg=remove)
            d0 = [d and correlated for d in diag0]
            ev = dict(ev='table', type=ty, distro=distro, correlated=correlated, n=n, remove=remove, exc=exc, groups=[], rows=[], cols=[], rrows=[], rcols=[],
                      finite=True, rfinite=True, relerr=0, zeroerr=0, negatives=0, got=[], c4=[[int(x) for x in r] for r in c4], tol=0, same=same_frames(h, before))
            if not exc:
                rel, full = res
                ev.update(rows=[int(x) for x in full.index], cols=[int(x) for x in full.columns], rrows=[int(x) for x in rel.index], rcols=[int(x) for x in rel.columns],
                          finite=bool(np.isfinite(full.values).all()), rfinite=bool(np.isfinite(rel.values).all()), negatives=int((full.values < 0).sum()))
                fv, rv = full.values, rel.values
                if fv.shape == rv.shape and fv.shape[0] == G:
                    for g in range(G):
                        if mean[g]:
                            ev['relerr'] = max(ev['relerr'], q(np.max(np.abs(fv[g] - rv[g] * mean[g]) / (np.abs(fv[g]) + 1e-300), initial=0), 1e12))
                        else:
                            ev['zeroerr'] += int((fv[g] != rv[g]).sum())
                        if distro == 'lognormal' or not sd[g] > 0:
                            neg = [0, 0]
                        else:
                            p = float(cdf(distro, mean[g], sd[g], 0.))
                            p = min(max(p, 0.), 1.)
                            neg = [int(np.floor(p * n + 1e-9)), int(np.ceil(p * n - 1e-9))]
                        ev['groups'].append(dict(mean0=mean[g] == 0, sd0=sd[g] <= 1e-30, diag0=d0[g], neg=neg, hold=bool((fv[g] == mean[g]).all()),
                                                 strata=strata(distro, mean[g], sd[g], fv[g], n)))
                    if n >= 200 and fv.shape[1] == n and G > 1:
                        x = np.log(fv) if distro == 'lognormal' else fv
                        # deviations below 5 % of the mean, or correlations the transformation keeps: compare in the normal space
                        if distro != 'lognormal' or not correlated:
                            gg = np.corrcoef(x)
                            ev['got'] = qm(np.where(np.isnan(gg), 9, gg), 1e4)
                            ev['tol'] = 1700
            log(**ev)
        _, exc = attempt(X.sample_xsec, h, mt, 92235, 5, sample_type=rng.choice(['gaussian', 'log', '', 'norm', 'triangular']))
        log(ev='refused', exc=exc, same=same_frames(h, before))
        h.close()
        os.remove(path)


def run(log, a):
    np.random.seed(a.seed)
    dict(strata=part_strata, rank=part_rank, corr=part_corr, store=part_store)[a.part](log, a)


main(run)
