"""C04: histories of WriteAce on synthetic ACE texts."""
import os
import numpy as np
from common import *
import acegen
from acegen import U
with quiet():
    from ASAPy.AceIO import WriteAce

# values whose 12-digit texts contain one another, or nearly
FAMILIES = [
    [1.0, -1.0, 10.0],
    [1e-10, 1e-100, -1e-10],
    [0.0, -2.5, 2.5],
    [1.00000000001, 1.0, 1.1],
    [3.25e5, 3.25e-5, 3.25],
    [1.0, 0.0, 0.5],
]


class Hist:
    def __init__(self, log, a, head, toks):
        """head: header lines, toks: token texts"""
        self.log, self.head, self.ids = log, head, {}
        self.dir = a.scratch
        self.base = os.path.join(a.scratch, 'base.ace')
        self.txt = ''.join(head) + ''.join(''.join('%20s' % t for t in toks[i:i + 4]) + '\n' for i in range(0, len(toks), 4))
        with open(self.base, 'w', newline='') as f:
            f.write(self.txt)
        self.hid = {}
        h = [self.hid.setdefault(x, len(self.hid) + 1) for x in head]
        self.w, exc = attempt(WriteAce, self.base)
        self.n = 0
        log(ev='open', head=h, toks=[self.id(t) for t in toks], exc=exc)

    def id(self, t):
        return self.ids.setdefault(t, len(self.ids) + 1)

    def replace(self, arr, new, mx, kind=0):
        conv = [list, np.array, tuple][kind % 3]
        kw = {} if mx == 1 and kind % 2 else dict(max_replaces=mx)
        _, exc = attempt(self.w.replace_array, conv(arr), conv(new), **kw)
        self.log(ev='replace', arr=[self.id('%.11E' % v) for v in arr], new=[self.id('%.11E' % v) for v in new], max=mx, exc=exc)

    def write(self, over=False):
        self.n += 1
        out = os.path.join(self.dir, 'out.ace' if over else 'out%d.ace' % (self.n % 3))
        _, exc = attempt(self.w.write_ace, out)
        got, lens, counts, toks, head = '', [], [], [], []
        if not exc:
            with open(out, newline='') as f:
                got = f.read()
            lines = got.splitlines(True)
            for x in lines[:len(self.head)]:
                head.append(self.hid.get(x, 0))
            for x in lines[len(self.head):]:
                toks += [self.ids.get(t, 0) for t in x.split()]
                counts.append(len(x.split()))
                lens.append(len(x.rstrip('\n')))
        self.log(ev='write', head=head, toks=toks, counts=counts, lens=lens, exc=exc, same=got == self.txt,
                 touched=open(self.base, newline='').read() != self.txt)


def headers(k):
    d = dict(name='1001.80c', awr=0.999167, header=[0, 3, 4, 2, 7][k % 5], comment='C04 comment 1.00000000000E+00', mat='   mat 125')
    b = acegen.Builder()
    return acegen.header(d, b).splitlines(True)


def run(log, a):
    rng = a.rng
    cases = load_cases(a.cases)
    rng.shuffle(cases)
    for n, c in enumerate(cases[:350 if not a.thorough else 4000]):
        fam = FAMILIES[n % len(FAMILIES)]
        v = lambda t: fam[t - 1]
        # model tokens may be padded by other tokens so that runs straddle line ends
        pre = ['%d' % rng.randrange(-3, 99) for _ in range(rng.randrange(0, 5))]
        post = ['%d' % rng.randrange(-3, 99) for _ in range(rng.randrange(0, 5))]
        toks = pre + ['%.11E' % v(t) for t in c['base']] + post
        h = Hist(log, a, headers(n), toks)
        if h.w is None:
            continue
        if n % 4 == 0:
            h.write()
        for o in c['ops']:
            h.replace([v(t) for t in o['arr']], [v(t) for t in o['new']], o['max'], n)
            if n % 2:
                h.write(n % 3 == 0)
        h.write()
    # whole tables: replace the arrays of their reactions, refuse others
    for n in range(60 if not a.thorough else 800):
        N = rng.randrange(2, 12)
        E = sorted(rng.sample(range(1, 4000), N))
        val = lambda: rng.choice([rng.randrange(0, 100000), rng.randrange(0, 4), 0])
        arr = lambda m: [val() for _ in range(m)]
        rx = []
        for mt in rng.sample([16, 51, 52, 102, 103, 107, 4, 18], rng.randrange(1, 6)):
            ie = rng.randrange(1, N + 1)
            rx.append(dict(mt=mt, q=rng.randrange(-5000, 5000), ie=ie, xs=arr(N + 1 - ie)))
        d = dict(name='92235.80c', awr=233.02, E=E, total=arr(N), disapp=arr(N), elastic=arr(N), reactions=rx,
                 header=rng.choice([0, 3, 5]), gap=rng.randrange(3), tail=rng.randrange(5))
        b = acegen.build(d)
        h = Hist(log, a, acegen.header(d, b).splitlines(True), [acegen.tok(x) for x in b.x])
        if h.w is None:
            continue
        if n % 3 == 0:
            h.write()
        for _ in range(rng.randrange(1, 5)):
            src = rng.choice([d['total'], d['elastic'], d['disapp'], E] + [r['xs'] for r in rx])
            src = [s / U for s in src]
            x = rng.random()
            if x < .15:
                h.replace(src, src[:-1] if rng.random() < .5 else src + [1.], 1, n)
            elif x < .3:
                h.replace(src[:-1] + [src[-1] + 0.0625] if rng.random() < .6 else [9.0 ** 9] + src, [1.0] * (len(src)), 1, n)
            elif x < .45:
                lo = rng.randrange(0, len(src))
                h.replace(src[lo:lo + 2], [7.0 + n] * len(src[lo:lo + 2]), rng.choice([1, 2, 9999]), n)
            else:
                h.replace(src, [s * 1.37 + 0.01 for s in src], rng.choice([1, 1, 1, 2, 9999]), n)
            if rng.random() < .5:
                h.write(rng.random() < .3)
        h.write()


main(run)
