"""C15: the covariance chain with stand-ins for NJOY and the converter that fail as planned."""
import hashlib, json, os, re, shutil, signal, tempfile
import endfgen
from common import *
from side import parallel
with quiet():
    from ASAPy import EndfToCov as E
    from ASAPy import njoy as N

PY = '#!/usr/bin/python3 -ISE\n'
# both stand-ins append what they saw to calls.log; the plan says what they do
NJOY = PY + r'''
import sys, os, json, hashlib, signal
D = %r
P = json.load(open(D + '/plan.json'))
for line in sys.stdin:
    if line.strip() == 'stop':
        break
sha = lambda f: hashlib.sha1(open(f, 'rb').read()).hexdigest()[:12]
tin = {f[4:]: sha(f) for f in os.listdir('.') if f.startswith('tape')}
open(D + '/calls.log', 'a').write(json.dumps(dict(p='njoy', cwd=os.getcwd(), tin=tin)) + '\n')
k = P['k']
ev = tin.get('20', 'none')
if k == 'nkill':
    print('working', flush=True)
    os.kill(os.getppid(), 9)
    sys.exit(0)
if k != 'nnone':
    for n in P['tapes']:
        if n != P['lost'] and not (k == 'nexit' and n %% 2):
            for a in P['seen']:
                print(' module writes tape', n)
            open('tape%%d' %% n, 'w').write('T %%s %%d\n' %% (ev, n) + 'data\n' * (n %% 7))
    if k != 'nlist':
        open('output', 'w').write('L %%s\n' %% ev)
print('done' if k != 'nexit' else '***error in errorr***', flush=True)
if k == 'nexit':
    os.kill(os.getpid(), -P['how']) if P['how'] < 0 else os._exit(P['how'])
'''
BOXER = PY + r'''
import sys, os, json, signal
D = %r
P = json.load(open(D + '/plan.json'))
reqs = []
for line in sys.stdin:
    v = line.split(',')
    if len(v) < 5 or v[1].strip() == '0':
        break
    reqs.append([int(x) for x in v])
t = open('fort.20').read()
key = [t.split()[2] if t.startswith('T ') else '', reqs[0][2] if reqs else 0]
n = sum(json.loads(l).get('key') == key for l in open(D + '/calls.log'))
open(D + '/calls.log', 'a').write(json.dumps(dict(p='boxer', cwd=os.getcwd(), tape=t.split('\n')[0], reqs=reqs, key=key)) + '\n')
k = P['k'] if key == P['key'] and n == P['nth'] else 'ok'
print(' CONVERTING')
if k == 'bkill':
    open('fort.21', 'w').write('P')
    os.kill(os.getppid(), 9)
elif k == 'bpart':
    open('fort.21', 'w').write('P')
elif k == 'ok':
    open('fort.21', 'w').write('M\n%%s\n%%s' %% (json.dumps(reqs), t))
sys.stdout.flush()
if k in ('bexit', 'bpart'):
    os.kill(os.getpid(), -P['how']) if P['how'] < 0 else os._exit(P['how'])
'''
# how a program fails: exit status or signal
FAILURES = [1, 2, 77, 255, -signal.SIGKILL, -signal.SIGTERM]
TEMPS = [300, 293.6, 600, 1200.5]
GROUPS = [1e-5, 0.625, 5500., 2e7]


def content(text, mat, runs):
    """what a file holds: kind, run it was made in, tape, reaction"""
    c = dict(k='other', r=0, t=0, m=0)
    ls = text.split('\n')
    try:
        w = ls[0].split()
        if w and w[0] == 'T':
            c = dict(k='tape', r=runs.get(w[1], 0), t=int(w[2]), m=0)
        elif w and w[0] == 'L':
            c = dict(k='listing', r=runs.get(w[1], 0), t=0, m=0)
        elif ls[0] == 'P':
            c = dict(k='partial', r=0, t=0, m=0)
        elif ls[0] == 'M':
            q = json.loads(ls[1])
            t = ls[2].split()
            m = q[0][2]
            if q == [[i, mat[runs.get(t[1], 0)], m] + [mat[runs.get(t[1], 0)], m] for i in range(4)]:
                c = dict(k='matrix', r=runs.get(t[1], 0), t=int(t[2]), m=m)
    except (ValueError, IndexError, KeyError):
        pass
    return c


def folder(d, mat, runs):
    out = []
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isdir(p):
            out.append(dict(name=f, c=dict(k='folder', r=0, t=0, m=0), mx=False))
            continue
        t = open(p, errors='replace').read()
        sha = hashlib.sha1(t.encode()).hexdigest()[:12]
        c = dict(k='endf', r=runs[sha], t=0, m=0) if sha in runs else content(t, mat, runs)
        out.append(dict(name=f, c=c, mx=f.endswith('_matrix.txt')))
    return out


def chain(case, d, rng):
    """all runs of a case in one output folder; the recorded events"""
    evs = [dict(ev='start')]
    for x in ('out', 'tmp', 'cwd'):
        os.makedirs(os.path.join(d, x))
    out, tmp = os.path.join(d, 'out'), os.path.join(d, 'tmp')
    for name, text in (('njoy', NJOY), ('boxer', BOXER)):
        with open(os.path.join(d, name), 'w') as f:
            f.write(text % d)
        os.chmod(os.path.join(d, name), 0o755)
    runs, mats = {}, {0: 0}
    temps = rng.sample(TEMPS, 2)
    for r, c in enumerate(case['runs'], 1):
        mat = rng.choice([125, 9228, 9437, 9543])
        fn = os.path.join(d, 'evaluation%d' % r)
        endfgen.simple(fn, mat, text=[' 92-U -235 run %d %s' % (r, rng.random()), ' of a test', '----ENDF/B-VII.1', '-----INCIDENT NEUTRON', '------ENDF-6'])
        runs[hashlib.sha1(open(fn, 'rb').read()).hexdigest()[:12]] = r
        mats[r] = mat
        ts = temps[:c['nt']]
        rx = sorted(c['rx'])
        rng.shuffle(rx)
        with quiet():
            here = os.getcwd()
            os.chdir(os.path.join(d, 'cwd'))
            plots = rx + ([18] if c['chi'] and 18 not in rx else [])
            _, _, tout = N.make_njoy_run(fn, temperatures=ts, heatr=False, purr=False, acer=False, covr_plot_mts=plots, cov_energy_groups=GROUPS, nu=c['nu'], chi=c['chi'])
            os.chdir(here)
        names = {v: k for k, v in tout.items()}
        cov = ['covr_%s.txt' % t for t in ts] + ['covr_nu_%s.txt' % ts[-1]] * c['nu'] + ['covr_chi_%s.txt' % ts[-1]] * c['chi']
        cover = [dict(n=int(names.get(x, -1)), name=x) for x in cov]
        rest = [dict(n=int(n), name=x) for x, n in names.items() if x not in cov]
        mts = plots + [452] * c['nu'] + [1018] * c['chi']
        f = c['f']
        conv = 18 if f['m'] == 1018 else f['m']
        both = 18 in mts and 1018 in mts
        plan = dict(k=f['k'], how=rng.choice(FAILURES), tapes=[21, 22] + sorted(names.values()), lost=cover[f['t'] - 1]['n'] if f['k'] == 'nlost' else -1,
                    key=[str(cover[f['t'] - 1]['n']), conv] if f['t'] else None, nth=1 if f['m'] == 1018 and both else 0, seen=list(range(rng.choice([1, 1, 900]))))
        json.dump(plan, open(os.path.join(d, 'plan.json'), 'w'))
        calls = os.path.join(d, 'calls.log')
        open(calls, 'w').close()
        evs.append(dict(ev='run', r=r, mat=mat, cover=cover, rest=rest, mts=mts, temp=c['temp'], k=f['k']))
        ask = rx if len(rx) != 1 or rng.random() < .7 else rx[0]
        tarb = ts if len(ts) > 1 or rng.random() < .7 else ts[0]
        exc, dead = in_child(d, lambda: E.run_cover_chain(fn, ask, tarb, output_dir=out + rng.choice(['', '/']), cov_energy_groups=GROUPS, nu=c['nu'], chi=c['chi'],
                                                          use_temp_folder=c['temp'], njoy_exec=os.path.join(d, 'njoy'), boxer_exec=os.path.join(d, 'boxer')))
        for l in open(calls):
            x = json.loads(l)
            where = 'out' if os.path.realpath(x['cwd']) == os.path.realpath(out) else 'tmp' if os.path.realpath(x['cwd']).startswith(os.path.realpath(tmp) + os.sep) else 'other'
            if x['p'] == 'njoy':
                evs.append(dict(ev='njoy', where=where, endf=runs.get(x['tin'].get('20'), 0)))
            else:
                evs.append(dict(ev='boxer', where=where, c=content(x['tape'], mats, runs), reqs=x['reqs']))
        evs.append(dict(ev='end', exc=exc, dead=dead, out=folder(out, mats, runs), left=[] if dead else sorted(os.listdir(tmp))))
        for x in os.listdir(tmp):
            shutil.rmtree(os.path.join(tmp, x))
    return evs


def in_child(d, fn):
    """(exception class, killed) of a call made in a process of its own"""
    res = os.path.join(d, 'result')
    if os.path.exists(res):
        os.remove(res)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.chdir(os.path.join(d, 'cwd'))
            tempfile.tempdir = os.path.join(d, 'tmp')
            os.environ['TMPDIR'] = tempfile.tempdir
            signal.alarm(60)
            _, exc = attempt(fn)
            with open(res, 'w') as f:
                f.write(exc)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    if os.path.exists(res):
        return open(res).read(), False
    return '', True


def run(log, a):
    if a.part:
        import drv_chaincli
        return (drv_chaincli.run if a.part == 'cli' else drv_chaincli.decks)(log, a)
    cases = load_cases(a.cases)
    seen, todo = set(), []
    for c in cases:
        s = json.dumps(c, sort_keys=True)
        if s not in seen:
            seen.add(s)
            todo.append(c)
    todo.sort(key=lambda c: json.dumps(c, sort_keys=True))
    a.rng.shuffle(todo)
    one, two = [c for c in todo if len(c['runs']) == 1], [c for c in todo if len(c['runs']) > 1]
    # first of all: a run in a folder that holds what an earlier one left, or made under the same names
    def left(c):
        x, y = c['runs']
        return (not x['temp'] and not y['temp'] and x['f']['k'] in ('ok', 'bpart', 'bkill', 'nlist') and y['f']['k'] in ('ok', 'nnone', 'nlist', 'nlost', 'bnone')
                or x['f']['k'] == y['f']['k'] == 'ok' and x['rx'] == y['rx'])
    two.sort(key=lambda c: not left(c))
    todo = one[:1200 if a.thorough else 160] + two[:1300 if a.thorough else 160]
    parallel(log, a, todo, lambda c, d, k: chain(c, d, random.Random('%d %d' % (a.seed, k))))


if __name__ == '__main__':
    main(run)
