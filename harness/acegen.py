"""Builds synthetic continuous-energy ACE tables.

Real values are dyadic: integers of 1/1024, exact in IEEE and, below 2^20, in the
12-digit format of ACE files too.  Energies are in units of 1/1024 MeV.
A description (plain dict, see describe()) is laid out into NXS/JXS/XSS and text.
"""
U = 1024


class R(int):
    """a real of the table, in units of 1/1024"""


def tok(v):
    if isinstance(v, R):
        return '%.11E' % (int(v) / U)
    if isinstance(v, float):
        return '%.11E' % v
    return '%d' % v


def scaled(v):
    return int(v) if isinstance(v, R) else int(v) * U


class Builder:
    def __init__(self, gap=0):
        self.x = []
        self.nxs = [0] * 16
        self.jxs = [0] * 32
        self.at = {}        # name -> (first position, number) of some arrays, counted from 0
        self.gap = gap      # unused words between blocks: pointers, not adjacency, locate data

    def here(self):
        return len(self.x) + 1

    def I(self, *v):
        self.x += [int(i) for i in v]

    def R(self, *v):
        self.x += [R(i) for i in v]

    def block(self, j):
        self.x += [R(77 * U + 7)] * self.gap
        self.jxs[j - 1] = self.here()

    def mark(self, name, n):
        if name:
            self.at[name] = (len(self.x), n)

    def tab1(self, xs, ys, bp=(), law=(), name=None):
        self.I(len(bp), *bp)
        self.I(*law)
        self.I(len(xs))
        self.R(*xs)
        self.mark(name, len(ys))
        self.R(*ys)


def build(d):
    """d: name awr tz E total disapp elastic heating reactions nu chi delayed photon gap"""
    b = Builder(d.get('gap', 0))
    E = d['E']
    n = len(E)
    rx = d.get('reactions', [])
    emit = [r for r in rx if r.get('ty', 0) != 0]
    rest = [r for r in rx if r.get('ty', 0) == 0]
    rx = emit + rest
    b.nxs[1] = int(d['name'].split('.')[0])
    b.nxs[2], b.nxs[3], b.nxs[4] = n, len(rx), len(emit)
    b.jxs[0] = 1
    b.R(*E)
    for k, m in enumerate((1, 101, 2, 'heating')):
        b.at[m] = (n * (k + 1), n)
    b.R(*d['total'])
    b.R(*d['disapp'])
    b.R(*d['elastic'])
    b.R(*d.get('heating', [0] * n))
    nu = d.get('nu')
    if nu:
        b.block(2)

        def one(t, name):
            if t['kind'] == 'poly':
                b.I(1, len(t['c']))
                b.R(*t['c'])
            else:
                b.I(2)
                b.tab1(t['x'], t['y'], t.get('bp', ()), t.get('law', ()), name)
        if 'total' in nu and 'prompt' in nu:
            p = b.here() - 1
            b.I(0)
            one(nu['prompt'], 'nu.prompt')
            b.x[p] = -(b.here() - 1 - (p + 1))
            one(nu['total'], 'nu.total')
        else:
            one(nu.get('prompt') or nu['total'], 'nu')
    b.block(3)
    b.I(*[r['mt'] for r in rx])
    b.block(4)
    b.R(*[r.get('q', 0) for r in rx])
    b.block(5)
    tyloc = b.here()
    b.I(*[r.get('ty', 0) for r in rx])
    b.block(6)
    loc = b.here()
    b.I(*[0] * len(rx))
    b.block(7)
    sig = b.jxs[6]
    for i, r in enumerate(rx):
        b.x[loc - 1 + i] = b.here() - sig + 1
        b.I(r['ie'], len(r['xs']))
        b.mark(r['mt'], len(r['xs']))
        b.R(*r['xs'])
        b.x += [R(5)] * (d.get('gap', 0) % 2)
    # angles: one locator per emitting reaction, elastic first
    b.block(8)
    loc = b.here()
    b.I(*[0] * (len(emit) + 1))
    b.block(9)
    anb = b.jxs[8]
    for i, a in enumerate([d.get('elastic_angle')] + [r.get('angle') for r in emit]):
        if a is None:
            b.x[loc - 1 + i] = 0
        elif a == 'corr':
            b.x[loc - 1 + i] = -1
        else:
            b.x[loc - 1 + i] = b.here() - anb + 1
            b.I(len(a))
            b.R(*[t['e'] for t in a])
            lc = b.here()
            b.I(*[0] * len(a))
            for k, t in enumerate(a):
                if t['kind'] == 'iso':
                    continue
                if t['kind'] == 'equi':
                    b.x[lc - 1 + k] = b.here() - anb + 1
                    b.R(*t['mu'])
                else:
                    b.x[lc - 1 + k] = -(b.here() - anb + 1)
                    b.I(t['intt'], len(t['mu']))
                    b.R(*t['mu'])
                    b.R(*t['p'])
                    b.R(*t['c'])
    # energy distributions
    b.block(10)
    loc = b.here()
    b.I(*[0] * len(emit))
    b.block(11)
    dl = b.jxs[10]
    for i, r in enumerate(emit):
        if 'yield' in r:           # energy-dependent yield lies in the DLW block
            b.x[tyloc - 1 + i] = (1 if r['ty'] > 0 else -1) * (101 + b.here() - dl)
            b.tab1(*r['yield'])
        prev = None
        for law in (r['law'] if isinstance(r.get('law'), list) else [r.get('law', dict(law=3, thr=0, ratio=U))]):
            if prev is None:
                b.x[loc - 1 + i] = b.here() - dl + 1
            else:
                b.x[prev - 1] = b.here() - dl + 1
            prev = b.here()
            put_law(b, law, dl, E, 'law%d' % r['mt'])
    # photon production
    ph = d.get('photon', [])
    if ph:
        b.nxs[5] = len(ph)
        b.block(13)
        b.I(*[p['mt'] for p in ph])
        b.block(14)
        loc = b.here()
        b.I(*[0] * len(ph))
        b.block(15)
        sp = b.jxs[14]
        for i, p in enumerate(ph):
            b.x[loc - 1 + i] = b.here() - sp + 1
            if p['mftype'] == 13:
                b.I(13, p['ie'], len(p['xs']))
                b.R(*p['xs'])
            else:
                b.I(p['mftype'], p['mt'] // 1000)
                b.tab1(p['x'], p['y'])
        b.block(16)
        loc = b.here()
        b.I(*[0] * len(ph))
        b.block(17)
        b.block(18)
        loc = b.here()
        b.I(*[0] * len(ph))
        b.block(19)
        dlp = b.jxs[18]
        for i, p in enumerate(ph):
            b.x[loc - 1 + i] = b.here() - dlp + 1
            put_law(b, p.get('law', dict(law=2, flag=0, e=U)), dlp, E)
    dly = d.get('delayed')
    if dly:
        b.block(24)
        b.I(2)
        b.tab1(*dly['nu'])
        b.nxs[7] = len(dly['groups'])
        b.block(25)
        for g in dly['groups']:
            b.R(g['rate'])
            b.tab1(g['x'], g['y'])
        b.block(26)
        loc = b.here()
        b.I(*[0] * len(dly['groups']))
        b.block(27)
        db = b.jxs[26]
        for i, g in enumerate(dly['groups']):
            b.x[loc - 1 + i] = b.here() - db + 1
            put_law(b, g['law'], db, E)
    urr = d.get('urr')
    if urr:
        b.block(23)
        b.I(len(urr['e']), urr['m'], urr['int'], urr['inel'], urr['abs'], urr['smooth'])
        b.R(*urr['e'])
        for t in urr['tab']:
            for row in t:
                b.R(*row)
    b.x += [R(3)] * d.get('tail', 0)
    b.nxs[0] = len(b.x)
    return b


def put_law(b, law, dl, E, name=None):
    """LNW LAW IDAT, applicability, then the data of the law"""
    b.I(0, law['law'], 0)
    idat = b.here() - 1
    b.tab1(law.get('ax', [E[0], E[-1]]), law.get('ay', [U, U]))
    b.x[idat - 1] = b.here() - dl + 1
    k = law['law']
    if k == 2:
        b.I(law['flag'])
        b.R(law['e'])
    elif k in (3, 33):
        b.R(law['thr'], law['ratio'])
    elif k in (7, 9):
        b.tab1(law['x'], law['y'])
        b.R(law['u'])
    elif k == 11:
        b.tab1(law['x'], law['a'])
        b.tab1(law['x2'], law['b'])
        b.R(law['u'])
    elif k in (4, 44, 61):
        b.I(len(law.get('bp', ())), *law.get('bp', ()))
        b.I(*law.get('itp', ()))
        b.I(len(law['ein']))
        b.R(*law['ein'])
        lc = b.here()
        b.I(*[0] * len(law['ein']))
        for i, t in enumerate(law['tab']):
            b.x[lc - 1 + i] = b.here() - dl + 1
            b.I(t['intt'], len(t['x']))
            b.R(*t['x'])
            b.mark(name and '%s.p%d' % (name, i), len(t['x']))
            b.R(*t['p'])
            b.mark(name and '%s.c%d' % (name, i), len(t['x']))
            b.R(*t['c'])
            if k == 44:
                b.R(*t['r'])
                b.R(*t['a'])
            elif k == 61:
                ll = b.here()
                b.I(*[0] * len(t['x']))
                for j, m in enumerate(t['mu']):
                    if m is None:
                        continue
                    b.x[ll - 1 + j] = b.here() - dl + 1
                    b.I(m['intt'], len(m['mu']))
                    b.R(*m['mu'])
                    b.R(*m['p'])
                    b.R(*m['c'])
    elif k == 66:
        b.I(law['n'])
        b.R(law['ap'])
    else:
        raise ValueError(k)


def header(d, b):
    kt = d.get('tz', 2.5301e-8)
    old1 = '%10s%12.6f%12s %10s\n' % (d['name'], d['awr'], '%.4E' % kt, d.get('date', '01/02/2020'))
    old2 = '%-70s%10s\n' % (d.get('comment', 'synthetic table'), d.get('mat', '   mat 125'))
    iz = [0] * 16
    aw = ''
    for r in range(4):
        aw += ''.join('%7d%11.0f' % (iz[4 * r + c], 0) for c in range(4)) + '\n'
    arr = ''
    for r in range(2):
        arr += ''.join('%9d' % v for v in b.nxs[8 * r:8 * r + 8]) + '\n'
    for r in range(4):
        arr += ''.join('%9d' % v for v in b.jxs[8 * r:8 * r + 8]) + '\n'
    nc = d.get('header', 0)
    if nc == 0:
        h = old1 + old2
    else:
        full = d['name'] if '.' in d['name'] else d['name'] + '.00c'
        l1 = '2.0.0 %24s   ENDFB-VII.1\n' % full
        l2 = '%12.6f %12s %10s %4d\n' % (d['awr'], '%.4E' % kt, d.get('date', '01/02/2020'), nc)
        # the comment lines end with an old style header
        h = l1 + l2 + ''.join('comment line %d of the table\n' % i for i in range(nc - 2)) + old1 + old2
    return h + aw + arr


def text(d, b=None):
    b = b or build(d)
    out = [header(d, b)]
    for i in range(0, len(b.x), 4):
        out.append(''.join('%20s' % tok(v) for v in b.x[i:i + 4]) + '\n')
    return ''.join(out)


def write(path, *ds):
    with open(path, 'w') as f:
        for d in ds:
            f.write(text(d))
    return path
