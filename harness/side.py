"""drivers that run many independent cases side by side"""
import json, os, shutil, sys, traceback


def parallel(log, a, todo, fn, workers=8):
    """fn(case, directory, number) -> events, in forked workers; the events are recorded in order"""
    pids = []
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                with open(os.path.join(a.scratch, 'w%d' % w), 'w') as f:
                    for k in range(w, len(todo), workers):
                        d = os.path.join(a.scratch, 'case%d' % k)
                        os.makedirs(d)
                        f.write(json.dumps([k, fn(todo[k], d, k)]) + '\n')
                        shutil.rmtree(d)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(rc)
        pids.append(pid)
    bad = [p for p in pids if os.waitpid(p, 0)[1]]
    if bad:
        raise RuntimeError('a worker failed')
    got = []
    for w in range(workers):
        got += [json.loads(l) for l in open(os.path.join(a.scratch, 'w%d' % w))]
    for _, evs in sorted(got, key=lambda x: x[0]):
        for e in evs:
            log(**e)
