"""C02, C03: histories of AceEditor."""
import copy, os
import numpy as np
from common import *
import acegen
from acegen import U
with quiet():
    from ASAPy.AceIO import AceEditor

SCALE = 4            # model units -> 1/1024, so that halves stay integers
LEAVES = [2] + [5, 11, 17] + list(range(22, 26)) + [28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44, 45] + list(range(50, 92)) + \
    [19, 20, 21, 38, 102, 108, 109] + list(range(111, 118)) + list(range(152, 201)) + list(range(600, 850)) + list(range(875, 892))
SUMS = [1, 3, 4, 16, 18, 27, 101, 103, 104, 105, 106, 107]


def grid(n):
    # unequal steps, halves exact
    e, out = 8, []
    for i in range(n):
        out.append(e)
        e += 8 * (1 + (i * 3) % 4)
    return out


def descr(rows, n, name='92235.80c', header=0, gap=0, tz=2.5301e-8):
    """rows: mt -> (first, ys in 1/1024)"""
    E = grid(n)
    z = [0] * n
    full = lambda mt: [0] * (rows[mt][0] - 1) + list(rows[mt][1]) if mt in rows else z
    rx = [dict(mt=mt, q=0, ty=0, ie=rows[mt][0], xs=rows[mt][1]) for mt in rows if mt not in (1, 2, 101)]
    return dict(name=name, awr=233.0248, tz=tz, E=E, total=full(1), disapp=full(101), elastic=full(2), reactions=rx, header=header, gap=gap)


class Hist:
    def __init__(self, log, path, rows, n, **kw):
        self.log, self.path, self.rows, self.n = log, path, rows, n
        acegen.write(path, descr(rows, n, **kw))
        self.E = np.array([e / U * 1e6 for e in grid(n)])
        self.ae, exc = attempt(AceEditor, path)
        f = [dict(mt=mt, first=rows[mt][0], y=list(rows[mt][1])) for mt in rows]
        if exc:
            log(ev='load', file=f, rows=[], adj=[], exc=exc)
        else:
            self.mts = sorted(m for m in self.ae.all_mts if m not in (452, 1018))
            log(ev='load', file=f, exc='', **self.proj(self.ae))

    def proj(self, ae):
        rows = []
        for mt in sorted(m for m in ae.all_mts if m not in (452, 1018)):
            e, exc = attempt(ae.get_energy, mt)
            y, exc2 = attempt(ae.get_sigma, mt)
            o, exc3 = attempt(ae.get_sigma, mt, unadjusted=True)
            first = 0
            if not exc and len(e):
                k = int(np.argmin(abs(self.E - e[0])))
                if np.allclose(e, self.E[k:k + len(e)], rtol=1e-9):
                    first = k + 1
            rows.append(dict(mt=mt, first=first, y=[] if exc2 else qes(y, U), o=[] if exc3 else qes(o, U)))
        return dict(rows=rows, adj=sorted(int(x) for x in ae.adjusted_mts))

    def vals(self, mt, k, deltas=(4, -2, 8)):
        o = self.orig(mt)
        return [o[i] + SCALE * deltas[(i + 1 + k) % len(deltas)] for i in range(len(o))]

    def orig(self, mt):
        return qes(self.ae.get_sigma(mt, unadjusted=True), U)

    def set(self, mt, vals):
        v = np.array([x / U for x in vals])
        _, exc = attempt(self.ae.set_sigma, mt, v)
        self.log(ev='set', mt=mt, vals=vals, exc=exc, **self.proj(self.ae))

    def bad(self, mt, k):
        try:
            m = len(self.ae.get_energy(mt))
        except Exception:
            m = 3
        size = [m + 1, max(m - 1, 0), 2 * m, 0, m + 7][k % 5]
        if size == m:
            size = m + 1
        _, exc = attempt(self.ae.set_sigma, mt, np.ones(size) * 3.25)
        self.log(ev='bad', mt=mt, exc=exc, **self.proj(self.ae))

    def unknown(self, mt):
        _, exc = attempt(self.ae.set_sigma, mt, np.ones(self.n) * 3.25)
        self.log(ev='bad', mt=mt, exc=exc, **self.proj(self.ae))
        _, exc = attempt(self.ae.get_sigma, mt)
        self.log(ev='readbad', mt=mt, exc=exc)
        _, exc = attempt(self.ae.get_sigma, mt, unadjusted=True)
        self.log(ev='readbad', mt=mt, exc=exc)

    def apply(self):
        _, exc = attempt(self.ae.apply_sum_rules)
        self.log(ev='apply', exc=exc, **self.proj(self.ae))

    def scribble(self, mt):
        for kw in (dict(), dict(unadjusted=True), dict(at_energies=self.E), dict(at_energies=self.E, unadjusted=True)):
            a, exc = attempt(self.ae.get_sigma, mt, **kw)
            if not exc and len(a):
                try:
                    a[:] = -77.
                except Exception:
                    pass
        self.log(ev='scribble', mt=mt, **self.proj(self.ae))

    def other(self, mt, vals):
        b = AceEditor(self.path)
        b.set_sigma(mt, np.array([x / U for x in vals]))
        b.apply_sum_rules()
        self.log(ev='other', mt=mt, vals=vals, rows2=self.proj(b)['rows'], **self.proj(self.ae))

    def read(self, mt, rng, unadj):
        """positions in half grid steps; 1 and 2n+1 lie outside"""
        pos = [rng.randrange(1, 2 * self.n + 2) for _ in range(rng.randrange(1, 9))]

        def en(p):
            i, h = divmod(p, 2)
            if i == 0:
                return self.E[0] / 2
            if i >= self.n:
                return self.E[-1] if not h else self.E[-1] * 2
            return self.E[i - 1] if not h else (self.E[i - 1] + self.E[i]) / 2
        es = [en(p) for p in pos]
        y, exc = attempt(self.ae.get_sigma, mt, at_energies=es if rng.random() < .5 else np.array(es), unadjusted=unadj)
        self.log(ev='read', mt=mt, pos=pos, unadj=unadj, out=[] if exc else qes(y, U, 1e-4), exc=exc)


def run_case(log, a, n, c, path):
    rng = a.rng
    rows = {int(mt): (v['first'], [SCALE * y for y in v['y']]) for mt, v in c['file'].items()}
    h = Hist(log, path, rows, 4, header=[0, 3, 0, 4][n % 4], gap=n % 3)
    if h.ae is None:
        return
    for o in c['ops']:
        op, mt, k = o['op'], o['mt'], o['k']
        if op == 'set':
            h.set(mt, h.vals(mt, k))
        elif op == 'bad':
            h.unknown(mt + 1000) if (n + k) % 3 == 0 else h.bad(mt, n + k)
        elif op == 'scribble':
            h.scribble(mt)
        elif op == 'other':
            h.other(mt, h.vals(mt, k))
        elif op == 'apply':
            h.apply()
        if rng.random() < .35:
            h.read(rng.choice(h.mts), rng, rng.random() < .4)


def random_case(log, a, n, path):
    """random file of many reactions and thresholds, random history"""
    rng = a.rng
    N = rng.randrange(3, 9)
    leaves = rng.sample(LEAVES[1:], rng.randrange(1, 7))
    if rng.random() < .7:
        leaves += rng.sample([51, 52, 53, 600, 601, 102, 16, 875, 19, 20, 91, 649, 849], 4)
    rows = {}
    for mt in set(leaves):
        f = rng.randrange(1, N + 1)
        rows[mt] = (f, [SCALE * rng.randrange(0, 400) for _ in range(N + 1 - f)])
    for s in rng.sample(SUMS, rng.randrange(0, len(SUMS))):
        rows.setdefault(s, None)
        rows[s] = (1, [SCALE * rng.randrange(0, 900) for _ in range(N)])
    for s in (1, 2):
        rows[s] = (1, [SCALE * rng.randrange(1, 900) for _ in range(N)])
    order = list(rows)
    rng.shuffle(order)
    rows = {k: rows[k] for k in order}
    h = Hist(log, path, rows, N, header=rng.choice([0, 0, 3]), gap=rng.randrange(4))
    if h.ae is None:
        return
    for _ in range(rng.randrange(2, 9)):
        x = rng.random()
        mt = rng.choice(h.mts)
        m = len(h.orig(mt))
        vals = [SCALE * rng.randrange(-50, 900) for _ in range(m)]
        if x < .45:
            h.set(mt, vals)
        elif x < .75:
            h.apply()
        elif x < .82:
            h.bad(mt, rng.randrange(5))
        elif x < .87:
            h.unknown(rng.choice([m2 for m2 in (7, 60, 999, 201) if m2 not in h.mts]))
        elif x < .93:
            h.scribble(mt)
        else:
            h.other(mt, vals)
        if rng.random() < .4:
            h.read(rng.choice(h.mts), rng, rng.random() < .4)
    h.apply()
    h.apply()


def leaves(log, a, path):
    """every ENDF reaction alone, on files with all / some of the sums"""
    rng = a.rng
    N = 3
    every = [x for x in LEAVES if x not in SUMS] + [10]
    chunks = [every[i::9] for i in range(9)]        # every file has some of each family
    files = [(list(SUMS), c) for c in chunks] + [([1, 101], c) for c in chunks]
    for _ in range(6 if not a.thorough else 60):
        files.append(([1] + [s for s in SUMS[1:] if rng.random() < .5], rng.sample(every, 40)))
    for variant, (sums, lv) in enumerate(files):
        # the ACE reader makes 16 and 103..107 itself when their levels are there
        rows = {mt: (1, [4 * (i + mt % 7 + 1) for i in range(N)]) for mt in sorted(set(lv + sums + [2]))}
        acegen.write(path, descr(rows, N))
        ae, exc = attempt(AceEditor, path)
        if exc:
            log(ev='leaf', mt=0, d=[], present=[], changed=[], adj=[], exc=exc)
            continue
        present = sorted(m for m in ae.all_mts if m not in (452, 1018))
        base = {m: ae.get_sigma(m) for m in present}
        for n, mt in enumerate(present):
            if mt == 1:
                continue
            e = copy.deepcopy(ae)
            d = [4 * rng.randrange(1, 90), -4 * (1 + mt % 2), 4 * rng.randrange(1, 9)]
            _, exc = attempt(e.set_sigma, mt, base[mt] + np.array(d) / U)
            if not exc:
                _, exc = attempt(e.apply_sum_rules)
            ch = []
            for m in present:
                y = e.get_sigma(m)
                if not np.array_equal(y, base[m]):
                    ch.append(dict(mt=m, d=qes(np.array(y) - base[m], U)))
            log(ev='leaf', mt=mt, d=d, present=present, changed=ch, adj=sorted(int(x) for x in e.adjusted_mts), exc=exc)


def temps(log, path):
    for kelvin in (293, 300, 600, 1200):
        rows = {1: (1, [4, 8]), 2: (1, [4, 8])}
        acegen.write(path, descr(rows, 2, tz=kelvin * 8.6173303e-11))
        for asked, num in [(kelvin, kelvin), (str(kelvin), kelvin), ('%dK' % kelvin, kelvin), (kelvin + 1, kelvin + 1),
                           ('%dK' % (kelvin + 7), kelvin + 7), ('29K', 29), (kelvin * 10, kelvin * 10), ('0K', 0)]:
            e, exc = attempt(AceEditor, path, temperature=asked)
            log(ev='temp', asked=num, file=kelvin, exc=exc)
        e, exc = attempt(AceEditor, path)
        log(ev='temp', asked=kelvin if not exc and e.temperature == '%dK' % kelvin else -1, file=kelvin, exc=exc)


def run(log, a):
    path = os.path.join(a.scratch, 'f.ace')
    if a.part == 'leaves':
        return leaves(log, a, path)
    cases = load_cases(a.cases)
    a.rng.shuffle(cases)
    for n, c in enumerate(cases[:220 if not a.thorough else 2500]):
        run_case(log, a, n, c, path)
    for n in range(150 if not a.thorough else 2500):
        random_case(log, a, n, path)
    temps(log, path)


main(run)
