"""C14: NJOY decks written for requests, and decks handed to a stand-in for NJOY."""
import json, os, stat
import endfgen
import deckread
from common import *
with quiet():
    from ASAPy import njoy as N
    from ASAPy.data import njoy as DN

TEMPS = [293.6, 600, 1200.5, 77.0, 2400, 900.25]
GROUPS = [[1e-5, 0.625, 5500., 2e7], [1e-5, 2e7], [1e-11, 3e-9, 7.5e-9, 1.25, 30.5, 1e3, 17e6], N.energy_groups_44]
WEIGHTS = [[1e-5, 1.0, 2e7, 0.5], [1e-5, 0., 0.625, 2.5, 1e3, 1.25e-3, 2e7, 1e-9]]
PLOTS = [[18, 102], [102], [1, 2, 4, 16, 18, 102, 107]]

FAKE = '''#!%s
import sys, os, json
deck = []
for line in sys.stdin:
    deck.append(line)
    if line.strip() == 'stop':
        break
tin = {}
for f in sorted(os.listdir('.')):
    if f.startswith('tape'):
        tin[f[4:]] = open(f).read()
json.dump(dict(deck=''.join(deck), tin=tin), open(%r, 'w'))
for n in range(20, 100):
    if str(n) not in tin:
        open('tape%%d' %% n, 'w').write('%%9.2fc tape %%d\\n the text of tape %%d\\n' %% (%r + .80, n, n))
how = %d
print('done', flush=True)
os.kill(os.getpid(), -how) if how < 0 else os._exit(how)
'''


def options(a, c, rng, k):
    """a model request with concrete temperatures, groups, reactions, weights"""
    o = {x: c[x] for x in ('broadr', 'heatr', 'purr', 'acer', 'errorr', 'nu', 'chi', 'pendf', 'iwt', 'groups', 'weights')}
    temps = rng.sample(TEMPS, len(c['temps'])) if k % 3 else TEMPS[:len(c['temps'])]
    o['temps'] = [deckread.K(t) for t in temps]
    o['tn'] = ['{}'.format(t) for t in temps]
    o['ta'] = ['{:.1f}'.format(t) for t in temps]
    o['plots'] = rng.choice(PLOTS) if c['plots'] else []
    if o['iwt'] != 1 and k % 4 == 3:
        o['iwt'] = rng.choice([2, 3, 6, 9, 11])
    return o, temps


def deck(log, a, c, rng, k, mats):
    o, temps = options(a, c, rng, k)
    mat, fn = mats[k % len(mats)]
    groups = GROUPS[k % 3 if k % 11 else 3] if o['groups'] else None
    weights = WEIGHTS[k % 2] if o['weights'] else None
    error = [0.001, 0.005, 0.1][k % 3]
    kw = dict(temperatures=temps, error=error, run=False, cov_energy_groups=groups, covr_plot_mts=o['plots'] or None,
              iwt_fluxweight=o['iwt'], user_flux_weight_vals=weights, pendf='pendf.out' if o['pendf'] else None)
    kw.update({x: o[x] for x in ('broadr', 'heatr', 'purr', 'acer', 'errorr', 'nu', 'chi')})
    if os.path.exists('njoy_in.txt'):
        os.remove('njoy_in.txt')
    r, exc = attempt(N.make_njoy_run, fn, **kw)
    ev = dict(ev='deck', o=o, mat=mat, exc=exc, mods=[], stop=False, garbled='', same=False, tin=[], tout=[], tol=int(round(error * 1e7)))
    if not exc:
        text, tin, tout = r
        ev['mods'], ev['stop'], ev['garbled'] = deckread.parse(text, groups, weights)
        ev['same'] = os.path.exists('njoy_in.txt') and open('njoy_in.txt').read() == text
        ev['tin'] = [dict(t=int(t), kind='endf' if os.path.abspath(f) == os.path.abspath(fn) else 'other') for t, f in tin.items()]
        ev['tout'] = [dict(t=int(t), name=str(f)) for t, f in tout.items()]
    log(**ev)


def tables(path):
    """the tapes a file is made of"""
    if not os.path.exists(path):
        return []
    ls = open(path).read().split('\n')
    out = []
    for i in range(0, len(ls) - 1, 2):
        try:
            za, n = int(ls[i][:9].split('.')[0]), int(ls[i].split()[-1])
        except (ValueError, IndexError):
            za, n = -1, -1
        out.append(dict(t=n, za=za, rest=ls[i][6:] == '.80c tape %d' % n and i + 1 < len(ls) and ls[i + 1] == ' the text of tape %d' % n))
    return out


def run_(log, a, kind, o, temps, ev0, call, given, error, how=None):
    how = a.rng.choice([0] * 9 + [1, 77, -9, -15]) if how is None else how
    d = os.path.join(a.scratch, 'run')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    seen = os.path.join(a.scratch, 'seen.json')
    if os.path.exists(seen):
        os.remove(seen)
    fake = os.path.join(a.scratch, 'fakenjoy')
    with open(fake, 'w') as f:
        f.write(FAKE % ('/usr/bin/env python3', seen, ev0['za'], how))
    os.chmod(fake, 0o755)
    here = os.getcwd()
    os.chdir(d)
    try:
        _, exc = attempt(call, fake)
    finally:
        os.chdir(here)
    ev = dict(dict(ev='run', kind=kind, o=o, failed=how != 0, exc=exc, mods=[], stop=False, garbled='', tin=[], tout=[], tol=int(round(error * 1e7)), thermal=False, th={}, ace=[], dir=[], pendf=[]), **ev0)
    if os.path.exists(seen):
        s = json.load(open(seen))
        ev['mods'], ev['stop'], ev['garbled'] = deckread.parse(s['deck'])
        ev['tin'] = [dict(t=int(t), kind=given.get(x, 'other')) for t, x in s['tin'].items()]
        ev['ace'], ev['dir'], ev['pendf'] = (tables(os.path.join(d, x)) for x in ('my.ace', 'my.dir', 'my.pendf'))
    log(**ev)


def runs(log, a, cs, rng, mats):
    cs = [c for c in cs if not c['errorr']]
    rng.shuffle(cs)
    n = len(cs) if a.thorough else 40
    nuclides = [(92235, 0), (95242, 1), (9019, 0), (72178, 2), (1001, 0), (52127, 1), (52127, 0), (19042, 1)]
    todo = [(c, rng.choice(nuclides), k % 2) for k, c in enumerate(cs[:n])]
    todo += [(rng.choice([c for c in cs if c['acer']]), x, m) for x in nuclides for m in (0, 1)]
    for k, (c, (za, iso), m) in enumerate(todo):
        o, temps = options(a, c, rng, k)
        fn = os.path.join(a.scratch, 'ev_%d_%d' % (za, iso))
        if not os.path.exists(fn):
            endfgen.simple(fn, 1000 + za % 8000, za=za, liso=iso, lis=iso * 3)
        mat = 1000 + za % 8000
        given = {open(fn).read(): 'endf'}
        error = [0.001, 0.01][k % 2]
        mod = (N, DN)[m]
        kw = dict(temperatures=temps, error=error, ace='my.ace', xsdir='my.dir', pendf='my.pendf' if o['pendf'] else None)
        kw.update({x: o[x] for x in ('broadr', 'heatr', 'purr', 'acer')})
        base = dict(mat=mat, za=za, iso=iso)
        if mod is N:
            run_(log, a, 'N', o, temps, base, lambda fake: N.make_njoy_run(fn, run=True, errorr=False, njoy_exec=fake, **kw), given, error)
        else:
            run_(log, a, 'DN', o, temps, base, lambda fake: DN.make_ace(fn, njoy_exec=fake, **kw), given, error)
    # thermal scattering
    for k in range(140 if a.thorough else 74):
        za = rng.choice([1001, 6000, 4009])
        tmat = MODERATORS[k // 2 % len(MODERATORS)]
        nt = rng.choice([1, 2, 3])
        alltemps = rng.sample([296., 400., 500., 600.5, 77.], nt)
        el = rng.choice([None, 1, 2])
        natom, emax = rng.choice([1, 2, 3]), rng.choice([1.875, 3.5, 10.])
        fn, ft = os.path.join(a.scratch, 'n_%d' % za), os.path.join(a.scratch, 't_%d' % k)
        endfgen.simple(fn, 125, za=za)
        G = endfgen
        d = dict(G.BASE, za=tmat + 100, awr=1., nsub=12, lfi=0)
        s74 = G.cont(tmat + 100, 1., 0, 1, 0, 0) + G.lst(0, 0, 0, 0, 0, [20., 200., 4., emax, 1., float(natom)]) + G.tab2(0, 0, 0, 0, 1, [(1, 4)])
        s74 += G.tab1(alltemps[0], 0., nt - 1, 0, [(2, 4)], [(.5, 1.), (2., 2.)])
        for t in alltemps[1:]:
            s74 += G.lst(t, 0., 4, 0, 0, [1., 2.])
        secs = ([(7, 2, G.cont(tmat + 100, 1., el, 0, 0, 0) + G.lst(0, 0, 0, 0, 0, [1., 2.]))] if el else []) + [(7, 4, s74)]
        direc = [(1, 451, 13, 1)] + [(mf, mt, len(l), 1) for mf, mt, l in secs]
        with open(ft, 'w') as f:
            f.write(G.tape([G.material(tmat, [(1, 451, G.header(d, direc))] + secs)]))
        given = {open(fn).read(): 'endf', open(ft).read(): 'tsl'}
        temps = alltemps if k % 3 else rng.sample([300., 650., 1000.], rng.choice([1, 2]))
        o = dict(broadr=True, heatr=False, purr=False, acer=True, errorr=False, nu=False, chi=False, pendf=False, plots=[], iwt=9, groups=True, weights=False,
                 temps=[deckread.K(t) for t in temps], tn=['{}'.format(t) for t in temps], ta=['{:.1f}'.format(t) for t in temps])
        th = dict(mat=tmat, el=el or 0, natom=natom, emax=int(round(emax * 1000)))
        run_(log, a, 'thermal', o, temps, dict(mat=125, za=za, iso=0, thermal=True, th=th),
             lambda fake: (DN, N)[k % 2].make_ace_thermal(fn, ft, temperatures=None if k % 3 else temps, ace='my.ace', xsdir='my.dir', error=.002, njoy_exec=fake), given, .002, 0 if k < 66 else None)


FAKE2 = '''#!/usr/bin/env python3
import sys, os, json, shutil
sys.path.insert(0, %r)
import deckread
text = ''
for line in sys.stdin:
    text += line
    if line.strip() == 'stop':
        break
tin = {f[4:]: open(f).read() for f in os.listdir('.') if f.startswith('tape')}
json.dump(dict(deck=text, tin=tin), open(%r, 'w'))
have = %r
for m in deckread.parse(text)[0]:
    if m['m'] == 'reconr':
        shutil.copy(have['pendf'], 'tape%%d' %% m['t'][1])
    if m['m'] == 'acer':
        shutil.copy(have[str(m['temp'])], 'tape%%d' %% m['t'][3])
        open('tape%%d' %% m['t'][4], 'w').write('entry\\n')
'''


def froms(log, a):
    """nuclides and moderators loaded through NJOY: each temperature comes with its own table"""
    rng = a.rng
    with quiet():
        from ASAPy.data.neutron import IncidentNeutron
        from ASAPy.data.thermal import ThermalScattering
    import acegen
    import drv_thermal as DT
    U = 1024
    seen, fake = os.path.join(a.scratch, 'seen.json'), os.path.join(a.scratch, 'fake2')
    for k in range(90 if a.thorough else 30):
        thermal = k % 3 == 2
        za, iso = rng.choice([(92235, 0), (9019, 0), (26056, 0)] if thermal else [(92235, 0), (95242, 1), (9019, 0), (72178, 1), (1001, 0), (19042, 1)])
        temps = rng.sample(TEMPS, rng.choice([1, 2, 3]))
        default = not thermal and k % 5 == 4
        if default:
            temps = [293.6]
        have, marks = {}, []
        fn = os.path.join(a.scratch, 'f_%d' % za)
        endfgen.simple(fn, 1000 + za % 8000, za=za, liso=iso, lis=iso * 3)
        G = endfgen
        zero = [[rng.randrange(1, 900) for _ in range(4)] for _ in 'xy']
        zero[0] = sorted(rng.sample(range(1, 90000), 4))
        have['pendf'] = os.path.join(a.scratch, 'pendf')
        d = dict(G.BASE, za=za, awr=1.)
        s2 = G.cont(za, 1., 0, 0, 0, 0) + G.tab1(0, 0, 0, 0, [(4, 2)], [(x / 64., y / 4.) for x, y in zip(*zero)])
        with open(have['pendf'], 'w') as f:
            s1 = G.cont(za, 1., 0, 0, 0, 0) + G.tab1(0, 0, 0, 0, [(2, 2)], [(1., 7.), (2000., 9.)])
            f.write(G.tape([G.material(1000 + za % 8000, [(1, 451, G.header(d, [(1, 451, 9, 1), (3, 1, len(s1), 1), (3, 2, len(s2), 1), (3, 102, len(s1), 1)])), (3, 1, s1), (3, 2, s2), (3, 102, s1)])]))
        for i, t in enumerate(temps):
            p = have[str(deckread.K(t))] = os.path.join(a.scratch, 'ace_%d' % i)
            m = rng.randrange(1, 9000)
            marks.append(m)
            if thermal:
                tb = DT.table(rng, dict(ne=2, no=1, nm=2, en=1, em=1, el='none', mode='equal', gap=0), name='graph', tmk=deckread.K(t), pairs=[6000])
                n = tb['jxs'][0] - 1
                tb['x'][n + 3] = acegen.R(m)          # the first inelastic cross section
                open(p, 'w').write(DT.text(tb))
            else:
                acegen.write(p, dict(name='%d.%02dc' % (za, i + 1), awr=1., tz=t * 8.6173303e-11, E=[1 * U, 2 * U], total=[m, m], disapp=[0, 0], elastic=[m, m], heating=[0, 0]))
        with open(fake, 'w') as f:
            f.write(FAKE2 % (os.path.dirname(os.path.abspath(__file__)), seen, have))
        os.chmod(fake, 0o755)
        if os.path.exists(seen):
            os.remove(seen)
        if thermal:
            ft = os.path.join(a.scratch, 'ft')
            d = dict(G.BASE, za=131, awr=1., nsub=12, lfi=0)
            s74 = G.cont(131, 1., 0, 1, 0, 0) + G.lst(0, 0, 0, 0, 0, [20., 200., 4., 3.5, 1., 1.]) + G.tab2(0, 0, 0, 0, 1, [(1, 4)])
            own = temps if k % 2 else temps + [333.25]
            s74 += G.tab1(own[0], 0., len(own) - 1, 0, [(2, 4)], [(.5, 1.), (2., 2.)])
            for t in own[1:]:
                s74 += G.lst(t, 0., 4, 0, 0, [1., 2.])
            with open(ft, 'w') as f:
                f.write(G.tape([G.material(31, [(1, 451, G.header(d, [(1, 451, 9, 1), (7, 4, len(s74), 1)])), (7, 4, s74)])]))
            got, exc = attempt(ThermalScattering.from_njoy, fn, ft, None if k % 2 else temps, njoy_exec=fake)
        else:
            got, exc = attempt(IncidentNeutron.from_njoy, fn, None if default else temps, njoy_exec=fake)
        g = dict(temps=[], marks=[], zero=[], name='')
        if not exc:
            Ts = [T for T in got.temperatures if T != '0K']
            g['temps'] = [int(T[:-1]) for T in Ts]
            g['marks'] = [q((got.inelastic_xs[T].y[0] if thermal else got[2].xs[T].y[0]), U) for T in Ts]
            g['name'] = got.name
            if not thermal:
                g['zero'] = [[qs(got.energy['0K'], 64), qs(got[2].xs['0K'].x, 64), qs(got[2].xs['0K'].y, 4)]] if '0K' in got.energy else []
        s = json.load(open(seen)) if os.path.exists(seen) else dict(deck='', tin={})
        mods, stop, garbled = deckread.parse(s['deck'])
        o = dict(broadr=True, heatr=not thermal, purr=not thermal, acer=True, errorr=False, nu=False, chi=False, pendf=not thermal, plots=[], iwt=9, groups=True, weights=False,
                 temps=[deckread.K(t) for t in temps], tn=['{}'.format(t) for t in temps], ta=['{:.1f}'.format(t) for t in temps])
        given = {open(fn).read(): 'endf'}
        if thermal:
            given[open(ft).read()] = 'tsl'
        symbol = {92: 'U', 95: 'Am', 9: 'F', 72: 'Hf', 1: 'H', 19: 'K', 26: 'Fe'}[za // 1000]
        log(ev='from', thermal=thermal, mat=1000 + za % 8000, o=o, exc=exc, mods=mods, stop=stop, garbled=garbled, tol=10000, tin=[dict(t=int(t), kind=given.get(x, 'other')) for t, x in s['tin'].items()], tout=[],
            got=g, marks=marks, zero=[zero[0], zero[0], zero[1]], name='c_Graphite' if thermal else symbol + str(za % 1000) + ('_m1' if iso else ''))


MODERATORS = [1, 2, 3, 5, 7, 8, 10, 11, 12, 13, 26, 27, 31, 33, 34, 37, 39, 40, 41, 43, 44, 46, 47, 48, 49, 50, 52, 53, 55, 56, 58, 59, 75]


def run(log, a):
    os.chdir(a.scratch)
    cs = load_cases(a.cases)
    mats = []
    for mat in (9228, 125, 9437):
        fn = os.path.join(a.scratch, 'tape_%d' % mat)
        endfgen.simple(fn, mat)
        mats.append((mat, fn))
    if a.part == 'from':
        return froms(log, a)
    if a.part == 'run':
        return runs(log, a, cs, a.rng, mats)
    for k, c in enumerate(cs):
        deck(log, a, c, a.rng, k, mats)


if __name__ == "__main__":
    main(run)
