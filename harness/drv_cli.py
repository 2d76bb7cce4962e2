"""C18, C19: what the sampling command makes of a base file and a store."""
import csv, os, random, shutil, sys
import numpy as np
from common import *
import acegen, clicase, cluster
from acegen import U

F5, F4 = 100000, 10000
DISTR = ['normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated']
ESZ = (1, 101, 2)


def unique(d, b):
    """every array that may be exchanged lies at one place only (a copy of the
    disappearance as capture, and copies of the yields, are another matter)"""
    tk = [acegen.tok(v) for v in b.x]
    names = [k for k in b.at if k != 'heating' and k != 'nu.prompt']
    if not any(d['disapp']):
        names = [k for k in names if k != 101]
    for k in names:
        p, m = b.at[k]
        hits = [i for i in range(len(tk) - m + 1) if tk[i:i + m] == tk[p:p + m]]
        ok = [p]
        # disappearance that is one reaction: both are exchanged, disappearance first
        if hits != [p] and any(d['disapp']):
            if k == 101:
                ok = [p] + [b.at[m][0] for m in clicase.CAPT if m in b.at and b.at[m][0] in hits][:1]
            elif k in clicase.CAPT:
                ok = [b.at[101][0], p]
        if k == 'nu.total' and hits != [p]:
            ok = sorted({b.at['nu.prompt'][0], p})
        if hits != ok:
            return False
    return True


def make_base(rng, twins=False, **kw):
    if twins:          # two levels with the same numbers
        d, rows = clicase.base_file(rng, **kw)
        d['name'] = '1001.80c'
        rows[52][1][:] = rows[51][1]
        return d, rows, acegen.build(d)
    for _ in range(2000):
        d, rows = clicase.base_file(rng, **kw)
        d['name'] = '1001.80c'
        b = acegen.build(d)
        if unique(d, b):
            return d, rows, b
    raise RuntimeError('no base file with distinct arrays: %r' % (kw,))


def tokens(path, nh):
    lines = open(path).read().split('\n')
    return lines[:nh], ' '.join(lines[nh:]).split()


def head_len(d):
    return 12 + (d['header'] if d['header'] else 0)


def table(path):
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def ticks(*lists):
    """common ranks of all numbers"""
    al = sorted({float(x) for l in lists for x in l})
    ix = {v: i + 1 for i, v in enumerate(al)}
    return [[ix[float(x)] for x in l] for l in lists]


def one(log, a, rng, tmp, listed=None, req=None, fission=False, finding=None, n=None):
    d, rows, b = make_base(rng, listed=listed, fission=fission, twins=finding == 'equal-arrays')
    za, sym = rng.choice(clicase.NUCS)
    d['name'] = za + '.' + rng.choice(['80c', '00c', '71c'])
    os.makedirs(tmp + '/w')
    base = tmp + '/base.ace'
    acegen.write(base, d)
    Eev = [e / U * 1e6 for e in d['E']]
    have = sorted(rows) + ([452, 1018] if fission and 18 in rows else [])
    skip = (clicase.computed(rows) if not finding else set()) | ({452, 1018} if not fission else set())
    # reactions of the store
    if req is None:
        smts = {m for m in have if rng.random() < .45} or {rng.choice(have)}
        if fission:
            smts |= {m for m in (452, 1018) if rng.random() < .8}
        smts |= {m for m in rng.sample([3, 27, 37, 151, 205, 19, 455], 2) if m not in have and m not in skip}
    else:
        smts = set(req)
    smts -= skip
    entries = []
    law = next((r['law'] for r in d['reactions'] if r['mt'] == 18 and fission), None)
    distr = rng.choice(DISTR)
    for mt in sorted(smts, key=lambda m: rng.random()):
        if mt == 452 and fission:
            xs = [e / U * 1e6 for e in d['nu']['total']['x']]
        elif mt == 1018 and fission:
            xs = [x / U * 1e6 for t in law['tab'] for x in t['x']]
        else:
            xs = Eev
        lim = clicase.groups(rng, xs)
        g = len(lim) - 1
        big = rng.random() < .15
        mean = [rng.randrange(1, 4000) / 1000 for _ in range(g)]
        rel = [rng.choice([.02, .05, .1, .2, .3 if not big else .55]) for _ in range(g)]
        if mt not in (452, 1018):
            for i in range(g):
                if rng.random() < .15:
                    mean[i], rel[i] = 0., rng.choice([1e-7, .25, .25])
        entries.append((za, mt, lim, mean, rel, clicase.corr(rng, g)))
    for mt in rng.sample([2, 18, 102, 16, 452], 2):       # other nuclides
        entries.append(('92238' if za != '92238' else '92234', mt, [3e6, 2e6, 1e6], [1., 2.], [.1, .1], np.eye(2)))
    if rng.random() < .7:          # a nuclide whose number starts alike
        entries.append((za + '1', rng.choice(have), [3e6, 2e6, 1e6], [1., 2.], [.1, .1], np.eye(2)))
    rng.shuffle(entries)
    sp = tmp + '/cov.h5'
    with quiet():
        clicase.store(sp, entries)
    ent = {e[1]: e for e in entries if e[0] == za}
    every = req is None and rng.random() < .4
    if every:
        ask = []
    elif req is None:
        ask = rng.sample(sorted(smts), rng.randrange(1, len(smts) + 1))
    else:
        ask = list(req)
    n = n or rng.choice([1, 2, 3, 3, 4, 5])
    if finding:
        distr = 'lognormal'
    argv = [base, sp, str(n)] + (['-mts'] + [str(m) for m in ask] if ask else []) + \
        (['-distribution', distr] if distr != 'normal' or rng.random() < .5 else [])
    if rng.random() < .1:
        argv += ['-num_oversamples', str(n + rng.randrange(0, 4))]
    before = (open(base, 'rb').read(), {k: sorted(v) for k, v in stored(sp).items()})
    exc = cluster.run_alone(argv, tmp + '/w', a.seed * 1000 + rng.randrange(1000))
    same = before == (open(base, 'rb').read(), {k: sorted(v) for k, v in stored(sp).items()})
    names = sorted(os.listdir(tmp + '/w'))
    smp, tab, extra = [], [], []
    for nm in names:
        if nm.startswith(sym + '_') and nm[len(sym) + 1:].isdigit():
            smp.append(int(nm[len(sym) + 1:]))
        elif nm.startswith(sym + '_') and nm.endswith('_samples.csv') and nm[len(sym) + 1:-12].isdigit():
            tab.append(int(nm[len(sym) + 1:-12]))
        else:
            extra.append(nm)
    want = [m for m in (ask or sorted(smts)) if m in have]
    tabs, cols = {}, []
    for mt in sorted(tab):
        hd, rw = table('%s/w/%s_%d_samples.csv' % (tmp, sym, mt))
        tabs[mt] = (hd, rw)
        cols.append(len([h for h in hd if h.isdigit()]))
    fd = dict(finding=finding) if finding else {}
    log(ev='run', n=n, ask=ask, store=sorted(smts), have=have, exc=exc, samples=sorted(smp), tables=sorted(tab), extra=extra,
        same=same, cols=cols, positive=distr in ('lognormal', 'loguncorrelated'), distr=distr, **fd)
    for mt in sorted(tabs):
        if mt in ent:
            table_event(log, mt, tabs[mt], ent[mt])
    for i in sorted(smp):
        file_event(log, tmp, sym, i, d, rows, b, tabs, ent, want, fission, law, Eev, fd)
    shutil.rmtree(tmp)
    return dict(exc=exc)


def stored(sp):
    import pandas as pd
    with pd.HDFStore(sp, 'r') as h:
        return {k: h[k].values.ravel().tolist() for k in h.keys()}


def num(s):
    try:
        return float(s)
    except ValueError:
        return float('nan')


def table_event(log, mt, tb, e):
    hd, rw = tb
    _, _, lim, mean, rel, _ = e
    def col(name):
        return [num(r[hd.index(name)]) for r in rw] if name in hd else []
    got = [col('e low'), col('e high'), col('xsec'), col('rel std')]
    ref = [list(lim[1:]), list(lim[:-1]), list(mean), list(rel)]
    t = ticks(*[[x for x in l if x == x] for l in got], *ref)
    sm = [int(h) for h in hd if h.isdigit()]
    vals = [num(r[hd.index(str(s))]) for s in sm for r in rw]
    log(ev='table', mt=mt, idx=[int(num(r[0])) if num(r[0]) == num(r[0]) else -1 for r in rw], low=t[0], high=t[1], mean=t[2], rel=t[3],
        slow=t[4], shigh=t[5], smean=t[6], srel=t[7], samples=sm, finite=bool(np.isfinite(vals).all()), neg=bool((np.array(vals) < 0).any()))


def factors(tb, i, scale):
    hd, rw = tb
    return [q(num(r[hd.index(str(i))]), scale) for r in rw] if str(i) in hd else []


def file_event(log, tmp, sym, i, d, rows, b, tabs, ent, want, fission, law, Eev, fd):
    nh = head_len(d)
    h0, t0 = tokens(tmp + '/base.ace', nh)
    h1, t1 = tokens('%s/w/%s_%d' % (tmp, sym, i), nh)
    at = {k: b.at[k] for k in rows if k in b.at}
    if fission:
        at['nu.total'] = b.at['nu.total']
        if d['nu']['prompt']['y'] == d['nu']['total']['y']:
            at['nu.copy'] = b.at['nu.prompt']
        for k in b.at:
            if str(k).startswith('law18.'):
                at[k] = b.at[k]
    inside = set()
    for p, m in at.values():
        inside.update(range(p, p + m))
    other = [k for k in range(max(len(t0), len(t1))) if k not in inside and (k >= len(t0) or k >= len(t1) or t0[k] != t1[k])]
    get = lambda k: [num(x) for x in t1[at[k][0]:at[k][0] + at[k][1]]]

    def mapping(mt, xs, scale):
        if mt not in want or mt not in ent or mt not in tabs:
            return dict(smp=mt in want, es=[], high=[], lo=0, hi=0, F=[], zero=[])
        lim = ent[mt][2]
        te, th, tl = ticks(xs, lim[:-1], lim[-1:])
        return dict(smp=True, es=te, high=th, lo=tl[0], hi=th[0], F=factors(tabs[mt], i, scale), zero=[m == 0 for m in ent[mt][3]])
    rr = []
    for mt in sorted(rows):
        f, y = rows[mt]
        rr.append(dict(mt=mt, first=f, b=list(y), s=qs(get(mt), U * F5), **mapping(mt, Eev[f - 1:], F5)))
    ev = dict(ev='file', i=i, header=h0 == h1, other=other[:20], rows=rr, nu=[], chi=[], **fd)
    if fission:
        t = d['nu']['total']
        ex = [e / U * 1e6 for e in t['x']]
        for k in ('nu.total', 'nu.copy'):
            if k in at:
                ev['nu'].append(dict(b=list(t['y']), s=qs(get(k), U * F4), **mapping(452, ex, F4)))
        for k, t in enumerate(law['tab']):
            ex = [e / U * 1e6 for e in t['x']]
            ev['chi'].append(dict(P=t['p'], C=t['c'], dE=[0] + [(t['x'][j] - t['x'][j - 1]) * 4 // U for j in range(1, len(t['x']))],
                                  sp=qs(get('law18.p%d' % k), 1e6), sc=qs(get('law18.c%d' % k), 1e6), **mapping(1018, ex, F4)))
    log(**ev)


def run(log, a):
    cluster.preload()
    k = 0
    if a.part == 'cases':
        cs = load_cases(a.cases)
        a.rng.shuffle(cs)
        for c in cs[:len(cs) if a.thorough else 40]:
            n = 8
            listed = {f['mt']: f['first'] for f in c['file'] if f['mt'] not in (1, 2, 101)}
            comp = clicase.computed(listed)
            req = [m for m in c['mts']]
            if any(m in (3, 27) for m in req) or (101 in req and not any(m in clicase.CAPT for m in listed)):
                req = [m for m in req if m not in (3, 27, 101)]
                if not req:
                    continue
            k += 1
            one(log, a, a.rng, '%s/c%d' % (a.scratch, k), listed=listed, req=req)
        # recorded findings, always the same input
        one(log, a, random.Random(3), a.scratch + '/f1', listed={51: 2, 52: 2, 102: 1}, req=[52], finding='equal-arrays', n=2)
        one(log, a, random.Random(3), a.scratch + '/f2', listed={600: 2, 601: 2, 102: 1}, req=[103], finding='computed-sum', n=2)
    else:
        for _ in range((160 if a.thorough else 36)):
            k += 1
            one(log, a, a.rng, '%s/c%d' % (a.scratch, k), fission=a.part == 'fission' or a.rng.random() < .2)


main(run)
