"""Runs the sampling command as a parallel job of forked processes whose every
step on an output file waits for a grant, so that a schedule of the
specification decides the interleaving and who dies where.

MPI is a stand-in: a communicator whose messages go through the parent.
"""
import builtins, io, os, pickle, random, select, signal, struct, sys, time, traceback, types, warnings
import numpy as np

REPO = os.environ.get('ASAPY_REPO', '/repo')


def preload():
    """third-party modules only: the code under test is imported by each process"""
    import importlib
    for m in ('pandas', 'tables', 'scipy.linalg', 'scipy.stats', 'scipy.special', 'scipy.interpolate', 'scipy.integrate',
              'matplotlib', 'matplotlib.pyplot', 'matplotlib.gridspec', 'matplotlib.cm', 'h5py', 'lxml.etree', 'argparse'):
        try:
            importlib.import_module(m)
        except Exception:
            pass


class Gone(BaseException):
    pass


class Port:
    """length-prefixed pickles over a pair of pipes"""
    def __init__(self, rfd, wfd):
        self.r, self.w = rfd, wfd

    def put(self, o):
        b = pickle.dumps(o)
        b = struct.pack('>I', len(b)) + b
        while b:
            b = b[os.write(self.w, b):]

    def get(self):
        h = self._n(4)
        return pickle.loads(self._n(struct.unpack('>I', h)[0]))

    def _n(self, n):
        b = b''
        while len(b) < n:
            c = os.read(self.r, n - len(b))
            if not c:
                raise Gone()
            b += c
        return b


class Comm:
    def __init__(self, port, rank, size):
        self.port, self.rank, self.size, self.seq = port, rank, size, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _ask(self, *m):
        self.port.put(m)
        return self.port.get()

    def _all(self, x):
        self.seq += 1
        return self._ask('all', self.seq, x)

    def bcast(self, obj=None, root=0):
        self.seq += 1
        return self._ask('bcast', self.seq, root, obj if self.rank == root else None)

    def barrier(self):
        self._all(None)

    Barrier = barrier

    def allgather(self, obj=None):
        return self._all(obj)

    def gather(self, obj=None, root=0):
        r = self._all(obj)
        return r if self.rank == root else None

    def scatter(self, obj=None, root=0):
        return self._all(obj)[root][self.rank]

    def reduce(self, obj, op=None, root=0):
        r = self.allreduce(obj)
        return r if self.rank == root else None

    def allreduce(self, obj, op=None):
        r = self._all(obj)
        s = r[0]
        for x in r[1:]:
            s = s + x if op is None else op(s, x)
        return s

    def send(self, obj, dest=0, tag=0):
        self._ask('send', dest, tag, obj)

    def recv(self, source=0, tag=0, **k):
        return self._ask('recv', source, tag)

    def Abort(self, code=1):
        os._exit(code)


def fake_mpi(comm):
    m = types.ModuleType('mpi4py')
    M = types.ModuleType('mpi4py.MPI')
    m.MPI, M.COMM_WORLD, M.COMM_SELF = M, comm, Comm(None, 0, 1)
    M.ANY_SOURCE, M.ANY_TAG, M.SUM, M.Comm, M.Intracomm = -1, -1, None, Comm, Comm
    M.Is_initialized = lambda: True
    M.Finalize = M.Init = lambda: None
    M.Get_processor_name = lambda: 'node'
    M.Wtime = time.time
    m.__path__ = []
    sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = m, M


def hook_files(port, cwd):
    """every step on an output file waits for a grant"""
    real = io.open
    real_os = {k: getattr(os, k) for k in ('rename', 'replace', 'remove', 'unlink', 'link', 'symlink')}

    def rel(p):
        try:
            p = os.path.realpath(os.fspath(p))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p[len(cwd) + 1:] if p.startswith(cwd + os.sep) else None

    def ask(kind, name):
        port.put(('op', kind, name))
        if port.get() == 'die':
            os._exit(137)

    class Guarded:
        def __init__(self, f, name):
            object.__setattr__(self, '_f', f)
            object.__setattr__(self, '_name', name)

        def __getattr__(self, k):
            return getattr(self._f, k)

        def __setattr__(self, k, v):
            setattr(self._f, k, v)

        def __enter__(self):
            self._f.__enter__()
            return self

        def __exit__(self, *a):
            self.close()

        def __iter__(self):
            return iter(self._f)

        def close(self):
            if not self._f.closed:
                ask('close', self._name)
                self._f.close()

    def opener(file, mode='r', *a, **k):
        m = k.get('mode', mode)
        name = rel(file) if not isinstance(file, int) else None
        if name is None or not isinstance(m, str) or not set(m) & set('wax+'):
            return real(file, mode, *a, **k)
        ask('open', name)
        return Guarded(real(file, mode, *a, **k), name)

    builtins.open = io.open = opener

    def two(fn):
        def f(src, dst, *a, **k):
            n = rel(dst)
            if n is not None:
                ask('move', n)
            return fn(src, dst, *a, **k)
        return f

    def one(fn):
        def f(p, *a, **k):
            n = rel(p)
            if n is not None:
                ask('remove', n)
            return fn(p, *a, **k)
        return f
    for k in ('rename', 'replace', 'link', 'symlink'):
        setattr(os, k, two(real_os[k]))
    for k in ('remove', 'unlink'):
        setattr(os, k, one(real_os[k]))


def determine(seed):
    """the same draws in every run with this seed"""
    np.random.seed(seed)
    random.seed(seed)
    real, RS, cnt = np.random.default_rng, np.random.RandomState, [seed]

    def nxt():
        cnt[0] += 1
        return cnt[0]
    np.random.default_rng = lambda s=None: real(nxt() if s is None else s)


def child(port, rank, size, argv, cwd, seed, script, hooked):
    os.chdir(cwd)
    os.environ['PWD'] = cwd
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    lg = os.open(os.environ.get('CLUSTER_LOG', os.devnull), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(lg, 1)
    os.dup2(lg, 2)
    sys.stdout = os.fdopen(1, 'w', closefd=False)
    sys.stderr = os.fdopen(2, 'w', closefd=False)
    warnings.simplefilter('ignore')
    fake_mpi(Comm(port, rank, size))
    if hooked:
        hook_files(port, cwd)
    determine(seed + 7919 * rank)
    sys.argv = [script] + list(argv)
    import runpy
    exc = ''
    try:
        runpy.run_path(script, run_name='__main__')
    except SystemExit as e:
        exc = '' if e.code in (None, 0) else 'SystemExit'
    except BaseException as e:
        traceback.print_exc()
        exc = type(e).__name__
    sys.stdout.flush()
    sys.stderr.flush()
    port.put(('end', exc))
    os._exit(0)


class Job:
    """one parallel run; step() grants"""
    def __init__(self, size, argv, cwd, seed, script=None, hooked=True, timeout=120):
        self.size, self.cwd = size, os.path.realpath(cwd)
        script = script or os.path.join(REPO, 'ASAPy', 'XsecSampler.py')
        self.ports, self.pids = {}, {}
        self.state = {}          # rank -> ('run',) | ('op',kind,name) | ('end',exc) | ('dead',) | collective
        self.box, self.root = {}, {}
        self.end = time.time() + timeout
        for r in range(size):
            a, b = os.pipe()
            c, d = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(b)
                    os.close(c)
                    for p in self.ports.values():
                        os.close(p.r)
                        os.close(p.w)
                    child(Port(a, d), r, size, argv, self.cwd, seed, script, hooked)
                except Gone:
                    pass
                finally:
                    os._exit(99)
            os.close(a)
            os.close(d)
            self.ports[r], self.pids[r], self.state[r] = Port(c, b), pid, ('run',)

    def alive(self):
        return [r for r in self.state if self.state[r][0] not in ('end', 'dead')]

    def collect(self):
        """until every process waits for a grant, or is over"""
        while True:
            self.match()
            run = [r for r in self.state if self.state[r][0] == 'run']
            if not run:
                return
            left = self.end - time.time()
            ready, _, _ = select.select([self.ports[r].r for r in run], [], [], max(left, 0))
            if not ready:
                self.kill()
                raise TimeoutError('parallel run does not finish')
            for r in run:
                if self.ports[r].r in ready:
                    try:
                        self.state[r] = self.ports[r].get()
                    except Gone:
                        self.state[r] = ('end', 'Died')
                    if self.state[r][0] == 'end':
                        os.waitpid(self.pids[r], 0)
                        self.close(r)

    def close(self, r):
        os.close(self.ports[r].r)
        os.close(self.ports[r].w)

    def reply(self, r, x):
        self.state[r] = ('run',)
        self.ports[r].put(x)

    def match(self):
        """messages between processes"""
        for r in list(self.state):
            s = self.state[r]
            if s[0] == 'bcast':
                if r == s[2]:
                    self.root[s[1], s[2]] = s[3]
                if (s[1], s[2]) in self.root:
                    self.reply(r, self.root[s[1], s[2]])
            elif s[0] == 'send':
                self.box.setdefault((r, s[1], s[2]), []).append(s[3])
                self.reply(r, None)
            elif s[0] == 'recv':
                for k in list(self.box):
                    if k[1] == r and s[1] in (-1, k[0]) and s[2] in (-1, k[2]) and self.box[k]:
                        self.reply(r, self.box[k].pop(0))
                        break
        al = self.alive()
        w = [r for r in al if self.state[r][0] == 'all']
        if w and len(w) == len(al) and len({self.state[r][1] for r in w}) == 1:
            vals = [self.state[r][2] if r in w else None for r in range(self.size)]
            for r in w:
                self.reply(r, vals)

    def pending(self):
        return {r: s for r, s in self.state.items() if s[0] == 'op'}

    def stuck(self):
        return bool(self.alive()) and not self.pending() and all(self.state[r][0] != 'run' for r in self.state)

    def grant(self, r):
        self.reply(r, 'go')
        self.collect()

    def die(self, r):
        self.ports[r].put('die')
        os.waitpid(self.pids[r], 0)
        self.close(r)
        self.state[r] = ('dead',)
        self.collect()

    def kill(self):
        for r in self.alive():
            try:
                os.kill(self.pids[r], signal.SIGKILL)
                os.waitpid(self.pids[r], 0)
            except OSError:
                pass
            self.close(r)
            self.state[r] = ('dead',)


def run_alone(argv, cwd, seed, hooked=False, timeout=120, script=None):
    """the command on its own; returns '' or the exception's name"""
    j = Job(1, argv, cwd, seed, script=script, hooked=hooked, timeout=timeout)
    j.collect()
    while j.pending():
        j.grant(0)
    if j.alive():
        j.kill()
        return 'Stuck'
    return j.state[0][1]
