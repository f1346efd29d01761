"""Worker process: executes its share of the cases of one check."""
import fcntl
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def execute(mod, key, ctx, timeout):
    """Run one case.  Returns None or (kind, message)."""
    import numpy as np
    from .lib import Violation, Harness
    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with np.errstate(all='ignore'):
            mod.run(key, ctx)
        return None
    except Violation as e:
        return 'violation', '{}\n{}'.format(e, ctx.where())
    except Harness:
        raise
    except CaseTimeout:
        return 'hang', 'no result within {} s\n{}'.format(timeout, ctx.where())
    except Exception:
        return ('exception', 'unexpected exception on valid input\n' +
                ctx.where() + traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)


def claim(outdir):
    """Next case nobody has taken yet."""
    with open(os.path.join(outdir, 'next'), 'a+') as f:
        fcntl.lockf(f, fcntl.LOCK_EX)
        f.seek(0)
        n = int(f.read() or 0)
        f.seek(0)
        f.truncate()
        f.write(str(n + 1))
        f.flush()
    return n


def main(argv):
    prop, tier, w, nw, outdir, limit = (argv[0], argv[1], int(argv[2]),
                                        int(argv[3]), argv[4], float(argv[5]))
    t0 = time.time()
    from . import lib
    mod = importlib.import_module('mc.props.' + prop.lower())
    from .engine import load_findings
    ctx = lib.Ctx(prop, tier, load_findings(prop))
    res = dict(ok=True, states=0, transitions=0, cases_done=0, cases_total=0,
               violations=[], samples=[], complete=False, known={},
               counters={}, bounds=mod.BOUNDS(tier),
               assumptions=getattr(mod, 'ASSUMPTIONS', []),
               rule=getattr(mod, 'RULE', ''))
    stop = os.path.join(outdir, 'STOP')
    cur = os.path.join(outdir, 'w{}.cur'.format(w))
    stopped = False
    mine = None
    if os.path.exists(cur):
        # Restarted after a crash: repeat the case that was being executed.
        with open(cur) as f:
            mine = json.load(f)[0]
    if mine is None:
        mine = claim(outdir)
    for i, key in enumerate(mod.cases(tier)):
        res['cases_total'] = i + 1
        if stopped or i != mine:
            continue
        if os.path.exists(stop) or time.time() - t0 > limit:
            stopped = True
            continue
        with open(cur, 'w') as f:
            json.dump([i, key], f)
        ctx.begin(key)
        t1 = time.time()
        out = execute(mod, key, ctx, 180 if tier == 'quick' else 1200)
        kind = key[0] if isinstance(key[0], str) else 'case'
        ctx.count('cpu_s:' + kind, time.time() - t1)
        ctx.count('cases:' + kind)
        res['cases_done'] += 1
        if len(res['samples']) < 2:
            res['samples'].append(dict(case=key, trace=ctx.trail[-6:]))
        if out is not None:
            v = dict(id='{}-{}'.format(w, i), key=key, index=i, worker=w,
                     nworkers=nw, kind=out[0], message=out[1])
            res['violations'].append(v)
            with open(os.path.join(outdir, 'viol-{}.tmp'.format(w)), 'w') as f:
                json.dump(v, f, default=str)
            os.rename(os.path.join(outdir, 'viol-{}.tmp'.format(w)),
                      os.path.join(outdir, 'viol-{}.json'.format(w)))
            open(stop, 'a').close()
            stopped = True
        else:
            mine = claim(outdir)
    res['complete'] = not stopped
    res['states'], res['transitions'] = ctx.nstates(), ctx.transitions
    res['known'], res['counters'] = ctx.known, ctx.counters
    tmp = os.path.join(outdir, 'w{}.json.tmp'.format(w))
    with open(tmp, 'w') as f:
        json.dump(res, f, default=str)
    os.rename(tmp, tmp[:-4])


if __name__ == '__main__':
    main(sys.argv[1:])
