"""Runs TLC and the drivers, and turns their results into verdict and evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
REPO = os.environ.get('ASAPY_REPO', '/repo')
PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='asapy_%s_' % prop)
        self.states = self.transitions = self.events = 0
        self.mc_runs, self.samples, self.fails, self.assume = [], [], [], []
        self.actions = {}
        self.kinds = {}
        self.findings = []

    # ---- processes -------------------------------------------------------
    def java(self, module, cfg, env=None, args=(), timeout=800, mem='3g', workers=1, tag=''):
        meta = tempfile.mkdtemp(dir=self.scratch, prefix='tlc_')
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-XX:ParallelGCThreads=2', '-Djava.io.tmpdir=' + meta,
               '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
               '-config', os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s %s' % (module, tag))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def driver(self, script, out, cases=None, part='', timeout=800, extra=()):
        d = tempfile.mkdtemp(dir=self.scratch, prefix='drv_')
        e = dict(os.environ)
        e.update(MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(self.scratch, 'mpl'), PYTHONDONTWRITEBYTECODE='1',
                 PYTHONPATH=REPO + os.pathsep + HARN, PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
                 OMP_NUM_THREADS='1', TMPDIR=d, HOME=d, ASAPY_REPO=REPO)
        cmd = [PY, os.path.join(HARN, script), '--out', out, '--seed', str(self.seed), '--tier', self.tier,
               '--scratch', d, '--part', part, *extra]
        if cases:
            cmd += ['--cases', cases]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise MachineryError('driver %s timed out' % script)
        if p.returncode:
            raise MachineryError('driver %s failed:\n%s' % (script, p.stdout[-4000:]))
        shutil.rmtree(d, ignore_errors=True)

    # ---- model checking of the design -----------------------------------
    def model(self, module, cfg=None, timeout=800, workers=4, emit=None, args=(), env=None, mem='3g', append=False):
        """exhaustive (or -simulate) run; the specification's own invariants must hold.
        Lines printed as "CASE <json>" are the behaviours handed to the drivers."""
        cfg = cfg or module + '.cfg'
        t = time.time()
        rc, out = self.java(module, cfg, env=env, args=args, timeout=timeout, workers=workers, mem=mem)
        if rc != 0:
            raise MachineryError('model checking of %s failed (exit %d):\n%s' % (module, rc, out[-3000:]))
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        if m:
            gen, dis = map(int, m[-1])
        else:
            m2 = re.findall(r'(\d+) states checked', out.replace(',', ''))
            gen = dis = int(m2[-1]) if m2 else 0
        self.states += dis
        self.transitions += gen
        n = 0
        if emit:
            with open(emit, 'a' if append else 'w') as f:
                for line in out.splitlines():
                    if line.startswith('"CASE '):
                        f.write(json.loads(line)[5:] + '\n')
                        n += 1
        self.mc_runs.append(dict(module=module, config=cfg, distinct_states=dis, states_generated=gen,
                                 cases_emitted=n, seconds=round(time.time() - t, 1)))
        return n

    # ---- trace validation -------------------------------------------------
    def validate(self, module, trace, cfg=None, chunk=None, timeout=800, procs=6, env=None, mem='2500m', reset=None):
        """every recorded event is judged by the trace specification.  chunk splits
        stateless traces; a trace with histories is split before events e with reset(e)."""
        cfg = cfg or 'Trace.cfg'
        lines = [l for l in open(trace) if l.strip()]
        for l in lines:
            if l.startswith('{"ev":"crash"'):
                self.fails.append((module, ['the code raised where the specification has no exception'], l.strip(), trace, len(lines)))
        lines = [l for l in lines if not l.startswith('{"ev":"crash"')]
        if not lines:
            if self.fails:
                return
            raise MachineryError('empty trace for ' + module)
        parts, cur = [], []
        for l in lines:
            if chunk and len(cur) >= chunk and (reset is None or reset(json.loads(l))):
                parts.append(cur)
                cur = []
            cur.append(l)
        parts.append(cur)
        files, base = [], 0
        for i, p in enumerate(parts):
            fn = os.path.join(self.scratch, '%s_%d_%d.ndjson' % (module, len(self.mc_runs), i))
            with open(fn, 'w') as f:
                f.writelines(p)
            files.append((fn, base, p))
            base += len(p)

        def one(t):
            fn, b, p = t
            rc, out = self.java(module, cfg, env=dict(env or {}, TRACE=fn), args=('-deadlock',), timeout=timeout, mem=mem)
            return t, rc, out
        with ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(one, files))
        for (fn, b, p), rc, out in res:
            fails = [(int(a), c.replace('\\"', '"')) for a, c in re.findall(r'^"FAIL (\d+) \{(.*)\}"$', out, re.M)]
            done = re.findall(r'<<"DONE", (\d+)>>', out)
            if rc == 0 and done and int(done[-1]) == len(p):
                pass
            elif rc in (75, 76, 77, 12, 13, 14) or 'TLC threw an unexpected exception' in out or 'Error: ' in out:
                # the specification cannot evaluate the event: not a behaviour it describes
                m = re.findall(r'(\d+) states generated', out)
                l = min(int(m[-1]) if m else 1, len(p))
                if rc in (150, 151, 152, 153, 255) and 'valuat' not in out and 'Attempted' not in out:
                    raise MachineryError('TLC failed on %s (exit %d):\n%s' % (module, rc, out[-3000:]))
                fails.append((max(l, 1), '"unexplainable event"'))
                sys.stderr.write(out[-1500:] + '\n')
            else:
                raise MachineryError('TLC gave no verdict on %s (exit %d):\n%s' % (module, rc, out[-3000:]))
            self.events += len(p)
            for l, c in sorted(set(fails)):
                self.fails.append((module, [x.strip().strip('"') for x in c.split(',')], p[l - 1].strip(), fn, l))
        for l in lines:
            k = json.loads(l).get('ev', '')
            self.kinds[k] = self.kinds.get(k, 0) + 1
        for l in (lines[0], lines[len(lines) // 2], lines[-1]):
            self.samples.append((module + ': ' + l.strip())[:700])

    def mapproc(self, fns, procs=6):
        with ThreadPoolExecutor(procs) as ex:
            for f in [ex.submit(fn) for fn in fns]:
                f.result()

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ---- verdict ------------------------------------------------------------
    def finish(self, level='model_checking'):
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        rc = 0
        known, fails = {}, []
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=%s case=(\S+) (.*)' % self.prop, l)
            if m:
                known[m.group(1)] = m.group(2)
        for f in self.fails:
            # an event of the one input a finding names
            k = json.loads(f[2]).get('finding')
            if k in known:
                self.findings.append(k)
            else:
                fails.append(f)
        self.fails = fails
        for k in sorted(set(self.findings)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]))
        if self.fails:
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for module, clauses, line, fn, l in self.fails:
                key = (module, tuple(clauses))
                if key in seen:
                    continue
                seen.add(key)
                rp = os.path.join(rdir, '%s_%d.json' % (self.prop, len(seen)))
                with open(rp, 'w') as f:
                    json.dump(dict(property=self.prop, spec=module, line=l, clauses=clauses, event=json.loads(line),
                                   seed=self.seed, tier=self.tier,
                                   history=[json.loads(x) for x in open(fn).read().splitlines()[max(0, l - 40):l]]), f)
                if len(seen) <= 10:
                    print('  %s clause %s at event %s' % (module, ', '.join(clauses), line[:300]))
                if len(seen) == 1:
                    first = rp
            print('VIOLATION property=%s replay=%s' % (self.prop, first))
            rc = 1
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.events, samples=self.samples[:12],
                                model_runs=self.mc_runs, events_by_kind=self.kinds),
                  known_findings=sorted(set(self.findings)), assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.fails))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d model states, %d transitions, %d events of the implementation judged, %d rejected, %.1f s' % (
            self.prop, self.states, self.transitions, self.events, len(self.fails), time.time() - self.t0))
        return rc

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
