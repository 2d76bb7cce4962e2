"""C16: numbers, records and tapes read by both ENDF modules."""
import io, os
from decimal import Decimal
from pathlib import Path
import endfgen as G
from common import *
with quiet():
    from ASAPy import endf as EA
    from ASAPy.data import endf as ED
    from ASAPy import njoy as NJ

MODS = dict(A=EA, D=ED)


def canon(x):
    """a float as <<m, e>>, m * 10^e, exactly the decimal it prints as"""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return [NAN, 0]
    s, d, e = Decimal(repr(x)).as_tuple()
    m = int(''.join(map(str, d)))
    if m == 0:
        return [0, 0]
    while m % 10 == 0:
        m //= 10
        e += 1
    return [q(-m if s else m), e]


def codes(s):
    return [ord(c) for c in s]


def fields(line):
    line = line.ljust(66)
    return [codes(line[11 * i:11 * i + 11]) for i in range(6)]


def value(rng):
    """a real of at most 7 digits"""
    m = rng.choice([0, 1, -1, rng.randrange(-9999999, 9999999), rng.randrange(-99, 99)])
    return float('%de%d' % (m, rng.randrange(-12, 6)))


def number(log, f):
    s = ''.join(map(chr, f))
    for name, M in MODS.items():
        v, exc = attempt(M.float_endf, s)
        log(ev='num', mod=name, f=f, v=canon(v) if not exc else [0, 0], exc=exc)


def record(log, rng, kind, nr, n, style):
    def r():
        return value(rng)

    def i():
        return rng.choice([0, 1, -1, 7, rng.randrange(-99999, 9999999)])
    if kind in ('cont', 'head'):
        za = rng.choice([1001., 92235., 95242., 6000.])
        ls = [G.line([za if kind == 'head' else r(), abs(r()), i(), i(), i(), i()], style)]
    elif kind == 'list':
        ls = G.lst(r(), r(), i(), i(), i(), [r() for _ in range(n)], style)
    elif kind == 'tab1':
        xs = sorted({abs(value(rng)) for _ in range(4 * n)})
        while len(xs) < n:
            xs.append(xs[-1] * 2 + 1)
        cut = sorted(rng.sample(range(1, n + 3), nr - 1)) + [n] if n + 2 >= nr else list(range(1, nr + 1))
        ls = G.tab1(r(), r(), i(), i(), [(c, rng.randrange(1, 6)) for c in cut], [(float('%.6g' % x), r()) for x in xs[:n]], style)
    else:
        ls = G.tab2(r(), r(), i(), i(), i(), [(rng.randrange(1, 99999), rng.randrange(1, 23)) for _ in range(nr)], style)
    tail = '%4d%2d%3d%5d' % (125, 3, 1, 7) if rng.random() < .8 else ''
    text = ''.join(l + tail + '\n' for l in ls) + 'NEXT LINE\n'
    for name, M in MODS.items():
        f = io.StringIO(text)
        v, exc = attempt(getattr(M, 'get_%s_record' % kind), f)
        ev = dict(ev='rec', kind=kind, mod=name, lines=[fields(l) for l in ls], re=[], used=0, exc=exc)
        ev['in'] = []
        if not exc:
            rest = f.read().split('\n')
            ev['used'] = len(ls) + 1 - len([x for x in rest if x])
            if kind in ('cont', 'head'):
                ev['re'], ev['in'] = [canon(x) for x in v[:2]], [q(x) for x in v[2:]]
            elif kind == 'list':
                ev['re'], ev['in'] = [canon(x) for x in v[0][:2]] + [canon(x) for x in v[1]], [q(x) for x in v[0][2:]]
            else:
                if kind == 'tab1' and name == 'A':
                    p, x, y, b, it = v
                elif kind == 'tab1':
                    p, t = v
                    x, y, b, it = t.x, t.y, t.breakpoints, t.interpolation
                else:
                    p, t = v
                    x, y, b, it = [], [], t.breakpoints, t.interpolation
                ev['re'] = [canon(z) for z in p[:2]] + [canon(z) for pr in zip(x, y) for z in pr]
                ev['in'] = [q(z) for z in p[2:]] + [q(z) for pr in zip(b, it) for z in pr]
                if kind == 'tab1' and not len(x) == len(y):
                    ev['re'] = []
                if len(b) != len(it):
                    ev['in'] = []
        log(**ev)


def textrec(log, rng):
    s = ''.join(chr(rng.randrange(32, 127)) for _ in range(66))
    for name, M in MODS.items():
        v, exc = attempt(M.get_text_record, io.StringIO(s + ' 125 3  1    7\nnext\n'))
        log(ev='text', mod=name, line=codes(s), got=codes(v) if not exc else [], exc=exc)


def intg(log, rng):
    d = rng.choice([2, 4, 5])
    per = {2: 18, 4: 11, 5: 9}[d]
    n = rng.choice([1, 2, 3, 5, per + 1, per + 3, 2 * per + 2])
    rows = []
    for i in range(2, n + 1):
        if rng.random() < .2:
            continue
        j = 1 if rng.random() < .7 else rng.randrange(1, i)
        while j < i:
            v = [rng.choice([0, rng.randrange(-10 ** d + 1, 10 ** d - 1)]) for _ in range(min(per, i - j))]
            rows.append(dict(i=i, j=j, v=v))
            j += per
            if rng.random() < .2:
                break
    out = G.cont(0, 0, d, n, len(rows), 0)
    for r in rows:
        s = '%5d%5d ' % (r['i'], r['j'])
        for v in r['v']:
            s += ('%*d' % (d + 1, v)) if v or rng.random() < .5 else ' ' * (d + 1)
        out.append(s.ljust(66))
    f = io.StringIO(''.join(l + ' 125 3  1    7\n' for l in out) + 'NEXT LINE\n')
    v, exc = attempt(ED.get_intg_record, f)
    ev = dict(ev='intg', n=n, d=d, rows=rows, exc=exc, c=[], used=0)
    if not exc:
        ev['used'] = len(out) + 1 - len([x for x in f.read().split('\n') if x])
        ev['c'] = [[qe(x, 2 * 10 ** d) for x in r] for r in v]
    log(**ev)


SUBLIB = {10: 'Incident-neutron data', 12: 'Thermal neutron scattering data', 4: 'Radioactive decay data'}


def head(rng):
    za = rng.choice([1001, 92235, 95242, 95242, 6000, 52127])
    iso = rng.choice([0, 0, 1, 2])
    nwd = rng.choice([5, 6, 8, 5, 3, 0, 12])
    return dict(za=za, awr=float('%.6g' % abs(value(rng))), lrp=rng.choice([-1, 0, 1, 2]), lfi=rng.choice([0, 1]), nlib=rng.choice([0, 1, 2, 6, 33, 99]), nmod=rng.choice([0, 3, 12]),
                elis=abs(value(rng)), sta=rng.choice([0., 1.]), lis=rng.choice([0, 1, 3]), liso=iso, awi=rng.choice([1., 0., .9986235]), emax=rng.choice([2e7, 1.5e8, 3e7]), lrel=rng.choice([0, 1, 4]),
                nsub=rng.choice(list(SUBLIB)), nver=rng.choice([6, 7, 8]), temp=rng.choice([0., 293.6, 600.]), ldrv=rng.choice([0, 1, 2]),
                text=[''.join(rng.choice('ABCxyz 0123-/,.') for _ in range(66)) for _ in range(nwd)])


def strs(s):
    return codes(s) if isinstance(s, str) else []


def shown(e, name):
    t, i, p = e.target, e.info, e.projectile
    sub = i['sublibrary']
    if isinstance(sub, str):
        sub = next((k for k, v in SUBLIB.items() if v == sub), -2)
    return dict(z=q(t['atomic_number']), a=q(t['mass_number']), mass=canon(t['mass']), fissionable=bool(t['fissionable']), lib=str(i['library'][0]), version=q(i['library'][1]), release=q(i['library'][2]),
                modification=q(i['modification']), elis=canon(t['excitation_energy']), stable=bool(t['stable']), lis=q(t['state']), liso=q(t['isomeric_state']), format=q(i['format']),
                awi=canon(p['mass']), emax=canon(i['energy_max']), nsub=q(sub), temp=canon(t['temperature']), derived=bool(i['derived']),
                zsymam=strs(t.get('zsymam')), lab=strs(i.get('laboratory')), date=strs(i.get('date')), author=strs(i.get('author')), ref=strs(i.get('reference')), ddist=strs(i.get('date_distribution')),
                drel=strs(i.get('date_release')), dent=strs(i.get('date_entry')), ident=[strs(s) for s in i.get('identifier', [])], descr=[strs(s) for s in i.get('description', [])],
                dir=[[q(x) for x in r] for r in e.reaction_list])


def tape(log, a, rng, mats, k):
    """mats: per material a list of (mf, lines)"""
    ms, hdrs = [], []
    used = set()
    for secs in mats:
        mat = rng.choice([m for m in (125, 9228, 9437, 1, 9999, 2631) if m not in used])
        used.add(mat)
        h = head(rng)
        out, key = [], set()
        for mf, n in sorted(secs, key=lambda s: s[0]):
            mt = rng.choice([m for m in (1, 2, 18, 51, 102, 107, 452, 600, 849) if (mf, m) not in key])
            key.add((mf, mt))
            out.append((mf, mt, [G.line([value(rng) for _ in range(6)]) for _ in range(n)]))
        direc = [(1, 451, 4 + len(h['text']) + 1 + len(out), 0)] + [(mf, mt, len(ls), rng.choice([0, 1, 7, None])) for mf, mt, ls in out]
        hl = G.header(h, direc)
        hdrs.append(dict(cards=[fields(x) for x in hl[:4]], text=[codes(G.text(s)) for s in h['text']], dir=[[d[0], d[1], d[2], d[3] or 0] for d in direc]))
        ms.append(G.material(mat, [(1, 451, hl)] + out))
    text = G.tape(ms)
    if rng.random() < .25:      # without sequence numbers
        text = '\n'.join(l[:75] for l in text.split('\n'))
    lines = text.split('\n')[:-1]
    rec = [dict(mat=int(l[66:70]), mf=int(l[70:72]), mt=int(l[72:75]), txt=l) for l in lines]
    fn = os.path.join(a.scratch, 'tape')
    with open(fn, 'w') as f:
        f.write(text)
    for name, M in MODS.items():
        for how in ('path', 'all', 'obj') if k % 3 else ('all', 'path'):
            after = True
            if how == 'all':
                r, exc = attempt(M.get_evaluations, fn)
            elif how == 'path':
                r, exc = attempt(M.Evaluation, fn if k % 2 else Path(fn))
                r = [r]
            else:
                fh = open(fn)
                r, exc = attempt(M.Evaluation, fh)
                r = [r]
                if not exc:     # the next material, or the end of the tape, is next
                    nx, e2 = attempt(fh.readline)
                    i0 = 1 + len(ms[0])
                    after = not e2 and nx.rstrip('\n') == lines[i0]
                fh.close()
            got = []
            if not exc:
                for e in r:
                    got.append(dict(mat=q(e.material), secs=[dict(k=[int(x) for x in key], ls=s.split('\n')[:-1]) for key, s in e.section.items()], h=shown(e, name)))
            log(ev='tape', mod=name, how=how, exc=exc, lines=rec, got=got, after=after, hdr=hdrs)


def run(log, a):
    rng = a.rng
    cs = load_cases(a.cases)
    if a.part == 'tape':
        tapes = [c for c in cs if c['kind'] == 'tape']
        rng.shuffle(tapes)
        for k, c in enumerate(tapes[:400 if a.thorough else 45]):
            tape(log, a, rng, [[(s['mf'], s['n']) for s in m] for m in c['mats']], k)
        for k in range(120 if a.thorough else 15):
            tape(log, a, rng, [[(rng.choice([2, 3, 4, 5, 6, 12, 33, 40]), rng.randrange(1, 9)) for _ in range(rng.randrange(0, 8))] for _ in range(rng.randrange(1, 5))], k)
        return
    for c in cs:
        if c['kind'] == 'num':
            number(log, c['f'])
    for _ in range(3000 if a.thorough else 500):
        x = value(rng)
        number(log, codes(G.num(x, rng.randrange(0, 7))))
    for c in cs:
        if c['kind'] == 'rec':
            record(log, rng, c['rec'], c['nr'], c['n'], rng.choice([0, 0, 1, 2, 4, 5, 6]))
    for _ in range(100 if a.thorough else 10):
        record(log, rng, rng.choice(['list', 'tab1']), rng.randrange(1, 12), rng.randrange(12, 90), rng.choice([0, 1, 2]))
    for _ in range(20):
        textrec(log, rng)
    for _ in range(300 if a.thorough else 60):
        intg(log, rng)


main(run)
