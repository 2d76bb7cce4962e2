"""Shared by the drivers: they run the real code of /repo and record what it did.

A driver never judges.  It projects what the code did to small integers and
strings, one JSON object per line; the TLA+ trace specifications judge.
"""
import argparse, contextlib, io, json, math, os, random, sys, traceback, warnings

NAN, PINF, NINF, BIG = 2000000001, 2000000002, 2000000003, 2000000004
LIM = 1999999999


def q(x, scale=1):
    """nearest integer of x*scale, or a sentinel TLC can compare"""
    try:
        x = float(x)
    except Exception:
        return NAN
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    r = round(x * scale)
    return int(r) if abs(r) <= LIM else BIG


def qs(xs, scale=1):
    return [q(x, scale) for x in xs]


def qm(m, scale=1):
    return [[q(x, scale) for x in r] for r in m]


class Args:
    pass


def main(run):
    """entry point of every driver: run(log, args)"""
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--cases')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--scratch', required=True)
    ap.add_argument('--part', default='')
    ap.add_argument('--replay', help='a trace line to run again')
    a = ap.parse_args()
    a.thorough = a.tier == 'thorough'
    a.rng = random.Random(a.seed * 1000003 + sum(map(ord, a.part)))
    warnings.simplefilter('ignore')
    with open(a.out, 'w') as f:
        log = Log(f)
        try:
            run(log, a)
        except Exception as e:
            # an exception of the code under test where the specification has none
            tb, where = e.__traceback__, ''
            repo = os.environ.get('ASAPY_REPO', '/repo') + os.sep
            while tb:
                fn = tb.tb_frame.f_code.co_filename
                if fn.startswith(repo):
                    where = '%s:%s' % (fn[len(repo):], tb.tb_frame.f_code.co_name)
                tb = tb.tb_next
            if not where:
                raise
            traceback.print_exc()
            log(ev='crash', exc=type(e).__name__, where=where, after=log.n)
    print('EVENTS', log.n)


class Log:
    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self, **ev):
        self.f.write(json.dumps(ev, separators=(',', ':')) + '\n')
        self.n += 1


@contextlib.contextmanager
def quiet():
    """swallow what the code under test prints"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def attempt(fn, *a, **k):
    """(result, '') or (None, exception class name)"""
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(*a, **k), ''
    except KeyboardInterrupt:
        raise
    except BaseException as e:      # SystemExit included: the code under test may exit
        return None, type(e).__name__


def load_cases(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


INEXACT = 2000000005


def qe(x, scale=1, eps=1e-5):
    """like q, but a value that is not (nearly) an integer of the scale is a sentinel"""
    r = q(x, scale)
    if abs(r) <= LIM and abs(float(x) * scale - r) > eps:
        return INEXACT
    return r


def qes(xs, scale=1, eps=1e-5):
    return [qe(x, scale, eps) for x in xs]
