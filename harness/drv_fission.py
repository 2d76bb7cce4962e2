"""C19: histories of edits of the prompt fission spectrum and of nubar."""
import numpy as np
from common import *
import acegen, clicase
from acegen import U
with quiet():
    from ASAPy.AceIO import AceEditor

M = 1000000


class Hist:
    def __init__(self, log, a, rng, path):
        self.log, self.rng = log, rng
        d, rows = clicase.base_file(rng, fission=True, listed=rng.choice([[18, 102], [16, 18, 51, 102], [18, 19, 20, 102], [17, 18, 91]]))
        law = next(r['law'] for r in d['reactions'] if r['mt'] == 18)
        if rng.random() < .4:
            for t in law['tab']:
                t['c'][-1] = rng.choice([U, U - 24, U + 16, U // 2])
                t['c'][0] = rng.choice([0, 0, 2])
                t['c'].sort()
        if rng.random() < .5:
            d['delayed'] = dict(nu=([d['E'][0], d['E'][-1]], [16, 20]),
                                groups=[dict(rate=rng.randrange(10, 200), x=[d['E'][0], d['E'][-1]], y=[U // 2, U // 2], law=clicase.chi_law(rng, d['E']))
                                        for _ in range(rng.randrange(1, 3))])
        d['name'] = rng.choice(['92235.80c', '94239.80c', '90232.80c'])
        acegen.write(path, d)
        self.ae, exc = attempt(AceEditor, path)
        self.mts = [m for m in rows if m not in (1, 2, 101)]
        tab = [dict(p=[q(v / U, M) for v in t['p']], c=[q(v / U, M) for v in t['c']],
                    dE=[0] + [(t['x'][j] - t['x'][j - 1]) * 4 // U for j in range(1, len(t['x']))]) for t in law['tab']]
        log(ev='load', exc=exc, tab=tab, nu=[q(v / U, M) for v in d['nu']['total']['y']],
            pr=[q(v / U, M) for v in d['nu']['prompt']['y']], xs=rows[18][1], **({} if exc else self.proj()))
        self.tab = tab

    def chi(self, unadj):
        r, exc = attempt(self.ae.get_chi_distro, unadjusted=unadj)
        g, exc2 = attempt(self.ae.get_sigma, 1018, unadjusted=unadj)
        if exc or exc2:
            return dict(exc=exc or exc2, x=[], p=[], c=[], g=[])
        e, x, p, c = r
        return dict(exc='', x=[qs(t, 1 / 250000) for t in x], p=[qs(t, 1e6 * M) for t in p], c=[qs(t, M) for t in c], g=[qs(t, 1e6 * M) for t in g])

    def nu(self, unadj):
        r, exc = attempt(self.ae.get_nu_distro, unadjusted=unadj)
        g, exc2 = attempt(self.ae.get_sigma, 452, unadjusted=unadj)
        return dict(exc=exc or exc2, y=[] if exc or exc2 else qs(r[1], M), g=[] if exc or exc2 else qs(g, M))

    def proj(self):
        rx = self.ae.table.reactions[18]
        return dict(now=self.chi(False), old=self.chi(True), nun=self.nu(False), nuo=self.nu(True),
                    prn=qs(rx.products[0].yield_.y, M), xsn=qes(self.ae.get_sigma(18), U), adj=sorted(int(m) for m in self.ae.adjusted_mts))

    def op(self, kind, k):
        rng, ae = self.rng, self.ae
        via = rng.random() < .5
        if kind in ('chi', 'badchi'):
            new = [[rng.randrange(1, 300000) if rng.random() < .9 else 0 for _ in t['p']] for t in self.tab]
            if rng.random() < .2:            # the density as it is
                new = [list(t) for t in self.chi(False)['p']]
            for t in new:
                t[-1] = max(t[-1], 1000)
            if kind == 'badchi':
                how = rng.randrange(5)
                i = rng.randrange(len(new))
                if how == 0:
                    new.append(list(new[0]))
                elif how == 1:
                    new.pop()
                elif how == 2:
                    new[i].append(5)
                elif how == 3:
                    new[i].pop()
                else:
                    new[-1] = new[-1] + [7, 7]
            arg = [np.array(t, float) / M / 1e6 for t in new]
            keep = [x.copy() for x in arg]
            _, exc = attempt(ae.set_sigma, 1018, arg) if via else attempt(ae.set_chi_distro, arg)
            self.log(ev=kind, new=new, exc=exc, via=via, arg=all((x == y).all() for x, y in zip(arg, keep)), **self.proj())
        elif kind in ('nu', 'badnu'):
            m = len(self.nu(True)['y'])
            new = [rng.randrange(2 * M, 4 * M) for _ in range(m)]
            if kind == 'badnu':
                new = new + [M] if rng.random() < .5 else new[:-1]
                via = True
            _, exc = attempt(ae.set_sigma if via else ae.set_nu_distro, *([452] if via else []), np.array(new, float) / M)
            self.log(ev=kind, new=new, exc=exc, via=via, **self.proj())
        else:
            mt = rng.choice([m for m in self.mts if m != 18])
            _, exc = attempt(ae.set_sigma, mt, ae.get_sigma(mt) * 2)
            self.log(ev='sigma', exc=exc, mt=mt, **self.proj())


def run(log, a):
    cs = load_cases(a.cases)
    a.rng.shuffle(cs)
    for n, c in enumerate(cs[:1200 if a.thorough else 110]):
        h = Hist(log, a, a.rng, a.scratch + '/x.ace')
        if h.ae is None:
            continue
        for o in c['ops']:
            h.op(o['op'], o['k'])


main(run)
