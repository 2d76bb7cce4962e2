"""The covariance command from an evaluation to a store: a stand-in for NJOY that
hands out prepared tapes, the converter compiled from the repository."""
import hashlib, json, os, random, shutil, subprocess
import cluster, deckread, endfgen
import drv_boxer as B
import drv_store as D
import pandas as pd
from common import *
from ASAPy import njoy as N
from drv_chain import parallel, folder, NJOY, BOXER

REPO = os.environ.get('ASAPY_REPO', '/repo')
SCRIPT = os.path.join(REPO, 'ASAPy', 'EndfToCov.py')
FAKE = '''#!/usr/bin/python3 -ISE
import sys, os, json, shutil
P = json.load(open(%r))
for line in sys.stdin:
    if line.strip() == 'stop':
        break
if P['k'] != 'none':
    for n, f in P['tapes'].items():
        shutil.copy(f, 'tape' + n)
    open('output', 'w').write('listing')
if P['k'] == 'exit':
    os.kill(os.getpid(), -P['how']) if P['how'] < 0 else os._exit(P['how'])
'''
NUC = [(92235, 'U235', 9228, True), (26056, 'Fe56', 2631, False), (1001, 'H1', 125, False), (94239, 'Pu239', 9437, True), (8016, 'O16', 825, False),
       (95241, 'Am241', 9543, True), (4009, 'Be9', 425, False), (100255, 'Fm255', 9936, True)]
POOL = [1, 2, 4, 16, 17, 18, 22, 51, 52, 102, 103, 107, 851]
STRUCT = {3: 'SCALE_3', 44: 'SCALE_44', 56: 'SCALE_56', 238: 'SCALE_238', 252: 'SCALE_252'}


def evaluation(path, za, mat, fiss, mf33, rng):
    d = dict(endfgen.BASE, za=za, awr=float(za % 1000), lfi=int(fiss))
    one = endfgen.cont(za, 1., 0, 0, 0, 0)
    secs = [(3, mt, one + endfgen.tab1(0, 0, 0, 0, [(2, 2)], [(1e-5, 1.), (2e7, 1.)])) for mt in (1, 2, 3, 102)]
    if fiss:
        secs = [(1, 452, one)] + secs + [(31, 452, one)]
    secs += [(33, mt, one) for mt in mf33]
    if rng.random() < .5:
        secs += [(34, 2, one), (34, 251, one)]
    if fiss:
        secs.append((35, 18, one))
    direc = [(1, 451, len(d['text']) + 5 + len(secs), 1)] + [(mf, mt, len(l), 1) for mf, mt, l in secs]
    with open(path, 'w') as f:
        f.write(endfgen.tape([endfgen.material(mat, [(1, 451, endfgen.header(d, direc))] + secs)]))


def blocks(m, mat, mt, rng):
    """the matrix m as BOXER blocks: low to high energy"""
    n = len(m['x'])
    st = rng.choice(['one', 'greedy', 'x'])
    head = dict(mat=mat, mt=mt, mat1=mat, mt1=mt)
    cov = [r[::-1] for r in m['cov'][::-1]]
    sym = n > 20 or rng.random() < .6
    return [dict(B.vec(m['bounds'][::-1], rng, st), type=0, **head), dict(B.vec(m['x'][::-1], rng, st), type=1, **head),
            dict(B.vec(m['rel'][::-1], rng, st), type=2, **head), dict(nrow=n, ncol=0 if sym else n, pages=B.encode(cov, sym, rng, st), type=3, **head)]


SCALE = {0: 1., 1: 1e-3, 2: 1e-4, 3: 1e-3}


def request(rng, k):
    za, sym, mat, fiss = rng.choice(NUC)
    avail = sorted(rng.sample(POOL, rng.choice([0, 1, 2, 3, 5]) if k % 9 == 8 else rng.choice([1, 2, 3, 5])))
    ask = []
    if rng.random() < .6:
        ask = rng.sample(avail, rng.randrange(1, len(avail) + 1)) if avail else [102]
        if k % 7 == 6:
            ask = ask + [rng.choice([3, 251, 251, 452] + [m for m in POOL if m not in avail])]
            rng.shuffle(ask)
    return dict(za=za, sym=sym, mat=mat, fiss=fiss, avail=avail, ask=ask, G=3 if k % 6 else rng.choice([44, 56]),
                temp=rng.choice([300, 600, 900, 77]), deftemp=rng.random() < .2, name=rng.choice(['', '', 'mine', 'a_b']), here=rng.random() < .4, fault=rng.choice(['', '', '', '', 'exit', 'none']), how=rng.choice([1, 77, -9, -15]),
                iwt=rng.choice([0, 2, 3, 5, 6, 9, 11, 12]))


def argv(q, ev, out, njoy, boxer):
    a = [ev, '-njoy_exec', njoy, '-boxer_exec', boxer]
    if q['G'] != 252:
        a += ['-energy_bin_structure', STRUCT[q['G']]]
    if q['iwt']:
        a += ['-njoy_spectrum_weighting', str(q['iwt'])]
    if not q['deftemp']:
        a += ['-temperature', str(q['temp'])]
    if not q['here']:
        a += ['-output_path', out]
    if q['name']:
        a += ['-output_store', q['name']]
    if q['ask']:
        a += ['-mts'] + [str(m) for m in q['ask']]
    return a


def one(q, d, k, seed, exe):
    rng = random.Random('%d cli %d' % (seed, k))
    out = os.path.join(d, 'out')
    os.makedirs(out)
    ev = os.path.join(d, 'evaluation.endf')
    evaluation(ev, q['za'], q['mat'], q['fiss'], q['avail'], rng)
    T = 300 if q['deftemp'] else q['temp']
    mts = q['ask'] or q['avail']
    plots = mts + ([18] if q['fiss'] and 18 not in mts else [])
    tout = {}
    if mts:
        here = os.getcwd()
        os.chdir(d)
        with quiet():
            _, _, tout = N.make_njoy_run(ev, temperatures=[T], heatr=False, purr=False, acer=False, covr_plot_mts=plots, cov_energy_groups=[1., 2.], nu=q['fiss'], chi=q['fiss'])
        os.chdir(here)
    entries, files = [], {}
    bounds = D.matrix(rng, q['G'])['bounds']       # one group structure a tape
    for n, name in tout.items():
        f = os.path.join(d, 'prep%d' % n)
        text = 'a plot\n'
        if name.startswith('covr'):
            want = [(452, 452)] if '_nu_' in name else [(1018, 18)] if '_chi_' in name else [(m, m) for m in mts]
            bl = []
            for mt, conv in want:
                m = dict(D.matrix(rng, q['G']), bounds=bounds)
                bad = rng.random() < .15
                if not bad:
                    bl.append(blocks(m, q['mat'], conv, rng))
                entries.append(dict(k='%d/%d/%d/%d' % ((q['za'], mt) * 2), bad=bad, m=m, mt=mt))
            rng.shuffle(bl)
            extra = [blocks(D.matrix(rng, q['G']), q['mat'], o, rng) for o in ((5, 2, 251, 3, 111) if rng.random() < .6 else (111,)) if o not in mts]
            text = ''.join(B.block_text(b, SCALE[b['type']], rng) for s in bl + extra for b in s)
        open(f, 'w').write(text)
        files[str(n)] = f
    json.dump(dict(k=q['fault'], how=q['how'], tapes=files), open(os.path.join(d, 'plan'), 'w'))
    fake = os.path.join(d, 'njoy')
    open(fake, 'w').write(FAKE % os.path.join(d, 'plan'))
    os.chmod(fake, 0o755)
    evs = [dict(ev='start', dump=[])]
    name = (q['name'] if q['name'] else q['sym'] + '_') + '%dg.h5' % q['G']
    path = os.path.join(out, name)

    def now():
        if not os.path.exists(path):
            return []
        with pd.HDFStore(path, 'r') as h:
            return D.dump(h)
    if q['name'] and rng.random() < .5 or rng.random() < .15:
        with pd.HDFStore(path, 'a') as h:
            for z in ((1001, 2, 1001, 2), (q['za'], 102, q['za'], 102)):
                D.S.add_corr_to_store(h, D.make_corr(rng, True), *z)
                D.S.add_stddev_to_store(h, D.make_std(rng, True), *z)
        evs.append(dict(ev='given', dump=now()))
    exc = cluster.run_alone(argv(q, ev, out, fake, exe), out, seed, script=SCRIPT)
    got = [f for f in os.listdir(out) if f.endswith('.h5')]
    evs.append(dict(ev='cli', exc=exc, avail=q['avail'], ask=q['ask'], fault=q['fault'] != '', entries=entries, stores=got, name=name, dump=now()))
    return evs


def run(log, a):
    exe = os.path.join(a.scratch, 'boxer2mat')
    subprocess.run(['gfortran', '-std=legacy', '-w', '-O1', os.path.join(REPO, 'boxer2mat', 'boxer2mat.f'), '-o', exe], check=True, cwd=a.scratch)
    todo = [request(a.rng, k) for k in range(400 if a.thorough else 64)]
    cluster.preload()
    parallel(log, a, todo, lambda q, d, k: one(q, d, k, a.seed, exe))


# ---- the decks the chain and the command hand to NJOY ----------------------------
def deck_one(q, d, k, seed):
    """runs the chain or the command up to the processing code and reads its deck"""
    from ASAPy import EndfToCov as E
    rng = random.Random('%d deck %d' % (seed, k))
    out = os.path.join(d, 'out')
    os.makedirs(out)
    ev = os.path.join(d, 'evaluation.endf')
    evaluation(ev, q['za'], q['mat'], q['fiss'], q['avail'], rng)
    sha = hashlib.sha1(open(ev, 'rb').read()).hexdigest()[:12]
    seen = os.path.join(d, 'deck')
    for name, text in (('njoy', NJOY.replace("    if line.strip() == 'stop':", "    open(%r, 'a').write(line)\n    if line.strip() == 'stop':" % seen)), ('boxer', BOXER)):
        open(os.path.join(d, name), 'w').write(text % d)
        os.chmod(os.path.join(d, name), 0o755)
    json.dump(dict(k='ok', tapes=list(range(21, 90)), lost=-1, seen=[], key=None, nth=0), open(os.path.join(d, 'plan.json'), 'w'))
    open(os.path.join(d, 'calls.log'), 'w').close()
    weights = None
    groups = getattr(N, 'energy_groups_%d' % q['G'])
    nu, chi = q['fiss'], q['fiss']
    if k % 2:       # the function: more choice
        temps = rng.choice([[300], [293.6, 600], [77], [1200.5, 300, 900]])
        mts = q['ask'] or q['avail']
        nu, chi = rng.random() < .5, rng.random() < .5
        iwt = rng.choice([1, 2, 3, 6, 9])
        if iwt == 1:
            weights = rng.choice([[1e-5, 1.0, 2e7, 0.5], [1e-5, 0., 0.625, 2.5, 1e3, 1.25e-3, 2e7, 1e-9]])
        here = os.getcwd()
        os.chdir(d)
        attempt(E.run_cover_chain, ev, list(mts), temps, output_dir=out, cov_energy_groups=groups, iwt_fluxweight=iwt, user_flux_weight_vals=weights, nu=nu, chi=chi,
                use_temp_folder=rng.random() < .5, njoy_exec=os.path.join(d, 'njoy'), boxer_exec=os.path.join(d, 'boxer'))
        os.chdir(here)
    else:
        temps, iwt = [300 if q['deftemp'] else q['temp']], q['iwt'] or 6
        mts = q['ask'] or q['avail']
        cluster.run_alone(argv(q, ev, out, os.path.join(d, 'njoy'), os.path.join(d, 'boxer')), out, seed, script=SCRIPT)
    o = dict(broadr=True, heatr=False, purr=False, acer=False, errorr=True, nu=nu, chi=chi, pendf=False, iwt=iwt, groups=True, weights=weights is not None,
             temps=[deckread.K(t) for t in temps], tn=['{}'.format(t) for t in temps], ta=['{:.1f}'.format(t) for t in temps],
             plots=list(mts) + ([18] if chi and 18 not in mts else []))
    if not os.path.exists(seen):
        return [dict(ev='deck', o=o, mat=q['mat'], exc='no deck', mods=[], stop=False, garbled='', same=True, tin=[], tout=[], tol=10000)]
    mods, stop, garbled = deckread.parse(open(seen).read(), groups, weights)
    tin = json.loads(open(os.path.join(d, 'calls.log')).readline())['tin']
    f = [x for x in folder(out, {0: 0, 1: q['mat']}, {sha: 1}) if x['c']['k'] == 'tape' and x['name'].startswith(('covr', 'viewr'))]
    e = dict(ev='deck', o=o, mat=q['mat'], exc='', mods=mods, stop=stop, garbled=garbled, same=True, tol=10000,
             tin=[dict(t=int(t), kind='endf' if s == sha else 'other') for t, s in tin.items() if s == sha or t == '20'],
             tout=[dict(t=x['c']['t'], name=x['name']) for x in f])
    if iwt == 4:
        e['finding'] = 'iwt-4'
    return [e]


def decks(log, a):
    todo = []
    for k in range(400 if a.thorough else 80):
        q = request(a.rng, k)
        q['avail'] = q['avail'] or [102]
        q['ask'] = [m for m in q['ask'] if m in q['avail']]
        q['G'] = a.rng.choice([3, 44, 56, 238, 252])
        todo.append(q)
    todo.append(dict(todo[0], iwt=4))
    cluster.preload()
    parallel(log, a, todo, lambda q, d, k: deck_one(q, d, k, a.seed))
