"""C13: the sampling command as a parallel job, interleaved and killed as the
schedules of Partition.tla say."""
import os, random, shutil
import numpy as np
from common import *
import acegen, clicase, cluster
from acegen import U


class Case:
    def __init__(self, a, rng, d, ns, nt, distr):
        self.dir = d
        os.makedirs(d)
        listed = rng.choice([[18, 51, 52, 102], [16, 102, 103], [102, 600, 601, 103], [17, 18, 51, 91, 102], [51, 107, 102]])
        f, rows = clicase.base_file(rng, listed=listed, n=rng.randrange(4, 9))
        za, self.sym = rng.choice(clicase.NUCS)
        f['name'] = za + '.80c'
        acegen.write(d + '/base.ace', f)
        E = [e / U * 1e6 for e in f['E']]
        mts = rng.sample([m for m in rows if m not in clicase.computed(rows)], min(nt, len(rows)))
        ent = []
        for mt in mts:
            lim = clicase.groups(rng, E, 3)
            g = len(lim) - 1
            ent.append((za, mt, lim, [rng.randrange(100, 3000) / 1000 for _ in range(g)],
                        [.6 if distr == 'normal' and rng.random() < .5 else .2 for _ in range(g)], clicase.corr(rng, g)))
        with quiet():
            clicase.store(d + '/cov.h5', ent)
        self.argv = [d + '/base.ace', d + '/cov.h5', str(ns), '-distribution', distr] + \
            (['-mts'] + [str(m) for m in mts] if rng.random() < .6 else [])
        self.seed = rng.randrange(10 ** 6)
        self.ns, self.nt, self.owner = ns, len(mts), {}
        os.makedirs(d + '/ref')
        self.exc = cluster.run_alone(self.argv, d + '/ref', self.seed)
        self.ref = self.read('ref')
        os.makedirs(d + '/ref2')
        cluster.run_alone(self.argv, d + '/ref2', self.seed)
        self.det = self.ref == self.read('ref2')

    def read(self, sub):
        out = {}
        for dp, _, fs in os.walk(os.path.join(self.dir, sub)):
            for f in fs:
                p = os.path.join(dp, f)
                out[os.path.relpath(p, os.path.join(self.dir, sub))] = open(p, 'rb').read()
        return out

    def play(self, log, np_, sched, tag):
        w = self.dir + '/w'
        os.makedirs(w)
        job = cluster.Job(np_, self.argv, w, self.seed)
        own = self.owner.get(np_, {})
        log(ev='start', np=np_, outs=sorted(self.ref), own=[dict(name=k, p=v) for k, v in sorted(own.items())],
            planned=[s['p'] for s in sched], exc=self.exc, tag=tag)
        stuck = False
        seen = {}

        def note(p):
            s = job.state[p]
            if s[0] == 'op':
                log(ev=s[1], p=p, name=s[2])
                if s[1] in ('open', 'move'):
                    seen.setdefault(s[2], p)
        try:
            job.collect()
            k = 0
            while job.alive():
                pend = job.pending()
                if not pend:
                    stuck = True
                    break
                if k < len(sched):
                    s, p = sched[k], sched[k]['p']
                    k += 1
                    if p not in pend:
                        continue
                    if s['do'] == 'die':
                        log(ev='die', p=p, at=list(job.state[p][1:]))
                        job.die(p)
                        continue
                else:
                    p = sorted(pend)[0]
                note(p)
                job.grant(p)
        except TimeoutError:
            stuck = True
        for p in range(np_):
            if job.state[p][0] == 'end':
                log(ev='end', p=p, exc=job.state[p][1])
        job.kill()
        got = self.read('w')
        log(ev='final', stuck=stuck, det=self.det, files=[dict(name=n, same=got[n] == self.ref.get(n)) for n in sorted(got)])
        if np_ not in self.owner:
            self.owner[np_] = {n: p for n, p in seen.items() if n in self.ref}
        shutil.rmtree(w)


def run(log, a):
    cluster.preload()
    rng = a.rng
    cs = load_cases(a.cases)
    by = {}
    for c in cs:
        by.setdefault((c['np'], c['ns'], c['nt']), []).append(c['sched'])
    n = 0
    for key in sorted(by):
        scheds = []
        for s in by[key]:
            if s not in scheds:
                scheds.append(s)
        rng.shuffle(scheds)
        m = {True: 69, False: 14}[key == (2, 2, 1)] * (4 if a.thorough else 1)
        n += 1
        c = Case(a, rng, '%s/k%d' % (a.scratch, n), key[1], key[2], rng.choice(['lognormal', 'loguncorrelated', 'uniform']))
        c.play(log, key[0], [], 'plain')
        for s in scheds[:m]:
            c.play(log, key[0], s, 'case')
        shutil.rmtree(c.dir)
    # larger jobs, random schedules
    for _ in range(24 if a.thorough else 5):
        n += 1
        np_, ns = rng.randrange(1, 9), rng.randrange(1, 10)
        c = Case(a, rng, '%s/k%d' % (a.scratch, n), ns, rng.randrange(1, 4), rng.choice(['lognormal', 'normal', 'normal', 'uncorrelated']))
        c.play(log, np_, [], 'plain')
        for _ in range(3):
            s = [dict(p=rng.randrange(np_), do='step') for _ in range(60)]
            if rng.random() < .5:
                s.insert(rng.randrange(20), dict(p=rng.randrange(np_), do='die'))
            c.play(log, np_, s, 'random')
        shutil.rmtree(c.dir)


main(run)
