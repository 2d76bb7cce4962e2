"""C07: the compiled converter and the matrix reader on synthetic BOXER files."""
import os, subprocess
import numpy as np
from common import *
with quiet():
    from ASAPy.EndfToCov import read_boxer_out_matrix, _BOXER_TEMPLATE_COV

VF = {7: (11, 7, '%7.4f'), 8: (10, 8, '%8.5f'), 9: (8, 9, '%9.2E'), 10: (8, 10, '%10.3E'), 11: (7, 11, '%11.4E'), 12: (6, 12, '%12.5E'),
      13: (6, 13, '%13.6E'), 14: (5, 14, '%14.7E')}
CF = {1: 80, 2: 40, 3: 26, 4: 20, 5: 16, 6: 13}


def lines(vals, per):
    return ''.join(''.join(vals[i:i + per]) + '\n' for i in range(0, len(vals), per))


def fits(vals, nvf, scale):
    _, w, f = VF[nvf]
    for m in vals:
        s = f % (m * scale)
        if len(s) > w or abs(float(s) - m * scale) > 1e-6 * max(abs(m * scale), 1e-30):
            return False
    return True


def block_text(b, scale, rng, title=' corr  -a-238'):
    out = ''
    for k, p in enumerate(b['pages']):
        ok = [f for f in VF if fits(p['v'], f, scale)]
        nvf = rng.choice(ok)
        w = max([len(str(c)) for c in p['c']] + [1])
        ncf = rng.choice([f for f in CF if f >= w])
        more = len(b['pages']) - 1 - k
        out += '%1d%-35s%5d%4d%5d%4d%4d%3d%4d%3d%4d%4d%4d\n' % (b['type'], title, b['mat'], b['mt'], b['mat1'], b['mt1'], len(p['v']), nvf,
                                                               len(p['c']), ncf, b['nrow'] if more else 0, b['nrow'], b['ncol'])
        per, _, f = VF[nvf]
        out += lines([f % (m * scale) for m in p['v']], per)
        out += lines(['%*d' % (ncf, c) for c in p['c']], CF[ncf])
    return out


# ---- a writer of its own: any valid choice of runs and pages ------------------
def encode(m, sym, rng, style):
    n, cols = len(m), len(m[0])
    cells = [(i, j) for i in range(n) for j in range(i if sym else 0, cols)]
    pages, v, c, start, k = [], [], [], 0, 0
    while k < len(cells):
        i, j = cells[k]
        if k and j == (i if sym else 0) and c and rng.random() < (.25 if style != 'one' else 0):
            pages.append(dict(v=v, c=c))
            v, c, start = [], [], i
        def above(q):
            a, b = cells[q]
            return m[a - 1][b] if a > start else 0
        def run(ok):
            q = k
            while q < len(cells) and ok(q):
                q += 1
            return q - k
        # runs may cross rows but not pages: stop at a row end sometimes
        r = run(lambda q: m[cells[q][0]][cells[q][1]] == m[i][j])
        p = run(lambda q: m[cells[q][0]][cells[q][1]] == above(q))
        pick = []
        if r:
            pick.append(('r', r))
        if p:
            pick.append(('p', p))
        if style == 'greedy':
            kind, length = max(pick, key=lambda z: z[1])
        else:
            kind, length = rng.choice(pick)
            length = rng.randrange(1, length + 1)
        if kind == 'r':
            v.append(m[i][j])
            c.append(-length)
        else:
            c.append(length)
        k += length
    pages.append(dict(v=v, c=c))
    return pages


def vec(vals, rng, style='one'):
    return dict(nrow=len(vals), ncol=1, pages=encode([[x] for x in vals], False, rng, style))


def damaged(b, rng):
    """malformed in one way"""
    b = json.loads(json.dumps(b))
    p = rng.choice(b['pages'])
    k = rng.randrange(5)
    if k == 0 and p['c']:
        p['c'].pop()
    elif k == 1:
        p['c'].append(rng.choice([1, 2]))
    elif k == 2 and p['v']:
        p['v'].pop()
    elif k == 3 and p['c']:
        p['c'][rng.randrange(len(p['c']))] = 0
    else:
        b['nrow'] += 1
    return b


def execute(a, text, stdin):
    d = os.path.join(a.scratch, 'run')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    open(os.path.join(d, 'fort.20'), 'w').write(text)
    p = subprocess.run([a.exe], cwd=d, input=stdin, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    return p.returncode, d


def case(log, a, file, sc, mat, mt):
    """sc: real = integer * sc[type]"""
    text = ''.join(block_text(b, sc[b['type']], a.rng) for b in file)
    rc, d = execute(a, text, _BOXER_TEMPLATE_COV.format(mat=mat, mt=mt))
    res, exc = None, ''
    if rc == 0:
        res, exc = attempt(lambda: read_boxer_out_matrix(os.path.join(d, 'fort.21')).get_block_data())
    e = dict(ev='boxer', file=file, mat=mat, mt=mt, failed=bool(rc or exc), bounds=[], xsec=[], sd=[], cov=[])
    if not e['failed']:
        g, x, s, c = res
        e.update(bounds=qes(np.array(g) / sc[0], 1, 1e-3), xsec=qes(np.array(x) / sc[1], 1, 1e-3), sd=qes(np.array(s) / sc[1] / sc[2], 1, 1e-3),
                 cov=[qes(np.array(r) / sc[3], 1, 1e-3) for r in np.atleast_2d(c)])
    log(**e)
    return text


def direct(log, a, file, sc, reqs):
    """requests of any type and order, and the table of contents, from the converter itself"""
    text = ''.join(block_text(b, sc[b['type']], a.rng) for b in file)
    stdin = ''.join('%d,%d,%d,%d,%d\n' % (r['type'], r['mat'], r['mt'], r['mat1'], r['mt1']) for r in reqs) + '0,0\n'
    rc, d = execute(a, text, stdin)
    got, err = [], rc != 0
    f21 = os.path.join(d, 'fort.21')
    if os.path.exists(f21):
        cur = None
        for l in open(f21):
            l = l.rstrip('\n')
            if 'ERROR' in l:
                err = True
            elif l[:1].isdigit() and len(l) > 60 and not l[1:2].strip('. ') :
                cur = dict(type=int(l[0]), rows=[])
                got.append(cur)
            elif l.strip():
                cur['rows'] += [float(l[i:i + 10]) for i in range(0, len(l), 10)]
    for g in got:
        g['rows'] = qes(np.array(g['rows']) / sc[g['type']], 1, 1e-3)
    log(ev='direct', file=file, reqs=reqs, err=err, got=got)
    rc, d = execute(a, text, '-1,0,0,0,0\n0,0\n')
    toc = []
    if os.path.exists(os.path.join(d, 'fort.22')):
        toc = [[int(x) for x in l.split()] for l in open(os.path.join(d, 'fort.22'))]
    log(ev='toc', file=file, rc=rc, toc=toc)


def run(log, a):
    a.exe = os.path.join(a.scratch, 'boxer2mat')
    src = os.path.join(os.environ.get('ASAPY_REPO', '/repo'), 'boxer2mat', 'boxer2mat.f')
    subprocess.run(['gfortran', '-std=legacy', '-w', '-O1', src, '-o', a.exe], check=True, cwd=a.scratch)
    rng = a.rng
    sc = {0: 1e4, 1: 1e-3, 2: 1e-4, 3: 1e-3, 4: 1e-3}

    def frame(n, mat, mt, cov, pad=0):
        """a complete set for one reaction around the given matrix block"""
        z = lambda lo, hi: rng.randrange(lo, hi)
        head = dict(mat=mat, mt=mt, mat1=mat, mt1=mt)
        bounds = sorted(rng.sample(range(1, 2001), n + 1))
        st = rng.choice(['one', 'greedy', 'x'])
        return [dict(vec(bounds, rng, st), type=0, **head),
                dict(vec([rng.choice([0, z(1, 9999), 1234, -z(1, 9999)]) for _ in range(n)], rng, st), type=1, **head),
                dict(vec([rng.choice([0, z(1, 9999), 500]) for _ in range(n)], rng, st), type=2, **head),
                dict(cov, type=3, **head)]
    if a.part == 'model':
        cases = load_cases(a.cases)
        rng.shuffle(cases)
        for c in cases[:450 if not a.thorough else 6000]:
            mul = rng.choice([1, 7, 999, 4999, -3])
            pages = [dict(v=[x * mul for x in p['v']], c=p['c']) for p in c['pages'] if p['c'] or p['v'] or len(c['pages']) == 1]
            b = dict(nrow=c['n'], ncol=0 if c['sym'] else c['n'], pages=pages)
            f = frame(c['n'], 125, 102, b)
            if rng.random() < .3:
                f = f[:1] + frame(rng.randrange(1, 4), 125, 2, vec([1], rng))[1:] + f[1:]
            case(log, a, f, sc, 125, 102)
        return
    for n in range(260 if not a.thorough else 3000):
        mats = [rng.randrange(1, 9999) for _ in range(2)]
        file, asked = [], []
        size = rng.choice([1, 2, 3, 5, 8, 9, 12, 17])
        for mt in rng.sample([1, 2, 4, 16, 18, 51, 102, 452, 851], rng.randrange(1, 4)):
            mat = rng.choice(mats)
            big = rng.choice([1, 9999, 30])
            base = rng.choice([[0, 1], [0, 5, -5], list(range(-9, 10))])
            m = [[rng.choice(base) * big % 9999 * (1 if rng.random() < .5 else -1) if rng.random() < .7 else 0 for _ in range(size)] for _ in range(size)]
            if rng.random() < .5 and size > 1:
                for i in range(1, size):
                    if rng.random() < .5:
                        m[i] = list(m[i - 1])
            sym = rng.random() < .6
            if sym:
                m = [[m[min(i, j)][max(i, j)] for j in range(size)] for i in range(size)]
            cov = dict(nrow=size, ncol=0 if sym else size, pages=encode(m, sym, rng, rng.choice(['one', 'greedy', 'x', 'x'])))
            f = frame(size, mat, mt, cov)
            if file and rng.random() < .7:
                f = f[1:]
            file += f
            asked.append((mat, mt))
            if rng.random() < .4:   # a cross pair in between
                o = rng.choice([3, 452, 107])
                file.append(dict(vec([3] * size, rng) if rng.random() < .5 else dict(cov), type=3, mat=mat, mt=mt, mat1=rng.choice(mats), mt1=o))
                if rng.random() < .5:
                    file.insert(len(file) - 2, file.pop())
        if n % 5 == 4:
            i = rng.randrange(len(file))
            file[i] = damaged(file[i], rng)
        mat, mt = rng.choice(asked + [(mats[0], 77)])
        case(log, a, file, sc, mat, mt)
        if n % 2 == 0:
            reqs = [dict(type=b['type'], mat=b['mat'], mt=b['mt'], mat1=b['mat1'], mt1=b['mt1']) for b in file if rng.random() < .6] or [dict(type=0, mat=1, mt=1, mat1=1, mt1=1)]
            if rng.random() < .3:
                rng.shuffle(reqs)
            if n % 5 == 4 or len(file) < 9:
                direct(log, a, file, sc, reqs)
    # limits
    for nrow, pages in ((801, [dict(v=[1], c=[-801])]), (800, [dict(v=[7], c=[-800])]),
                        (790, [dict(v=[i % 900 + 1 for i in range(790)], c=[-1] * 790)])):
        f = frame(2, 125, 102, dict(nrow=2, ncol=0, pages=[dict(v=[5], c=[-3])]))
        f[1] = dict(f[1], nrow=nrow, ncol=1, pages=pages)
        direct(log, a, f, sc, [dict(type=t, mat=125, mt=102, mat1=125, mt1=102) for t in (0, 1)])
    for k in (1880, 1881):
        for page in (0, 1):
            g = 62
            cells = g * (g + 1) // 2
            p1 = dict(v=[1 + i % 9 for i in range(g)], c=[-1] * g)
            big = dict(v=[1 + i % 7 for i in range(k)], c=[-1] * (k - 1) + [-(cells - g - k + 1)] if cells - g - k + 1 > 0 else [-1] * k)
            pages = [p1, big] if page else [dict(v=big['v'], c=big['c'][:-1] + [-(cells - k + 1)])]
            f = frame(2, 125, 102, dict(nrow=g, ncol=0, pages=pages))
            direct(log, a, f, sc, [dict(type=t, mat=125, mt=102, mat1=125, mt1=102) for t in (0, 3)])


if __name__ == "__main__":
    main(run)
