"""Bounded exhaustive exploration engine (parent process).

A check module ``mc.props.cXX`` provides

    BOUNDS(tier)  -> dict describing the bound (goes into the evidence)
    cases(tier)   -> deterministic generator of JSON-able case keys
    run(key, ctx) -> explores everything below that key on the real code

The parent starts W worker processes.  Every worker enumerates the same
sequence of keys and claims the next index nobody has taken, so the union is
the complete sequence, independent of timing.  A worker that hits a
violation writes a replay file and raises the stop flag.
"""
import json
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
REPO = '/repo'
TECH = ('explicit bounded state-space exploration of the implementation '
        '(every case of the stated bound is executed against an independent '
        'dense reference model)')


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8',
             PYTHONPATH=REPO + os.pathsep + VERIF, PYTHONWARNINGS='ignore')
    return e


def load_findings(prop):
    """Known findings of `prop`: list of (marker, text)."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line.startswith('finding: property={} '.format(prop)):
            rest = line.split(' ', 2)[2]
            marker, _, text = rest.partition(' ')
            out.append((marker.partition('=')[2], text))
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nw = int(os.environ.get('VERIF_WORKERS', '8'))
    limit = float(os.environ.get('VERIF_LIMIT_S',
                                 '780' if tier == 'quick' else '36000'))
    outdir = os.path.join(VERIF, 'out', '{}-{}-{}'.format(prop, tier, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    replays = os.path.join(VERIF, 'out', 'replay')
    os.makedirs(replays, exist_ok=True)
    t0 = time.time()

    def start(w):
        log = open(os.path.join(outdir, 'w{}.log'.format(w)), 'w')
        return subprocess.Popen(
            [PY, '-m', 'mc.worker', prop, tier, str(w), str(nw), outdir,
             str(limit)], cwd=VERIF, env=env(), stdout=log, stderr=log,
            stdin=subprocess.DEVNULL)
    procs = [start(w) for w in range(nw)]
    restarted = set()

    def killall(*_):
        for p in procs:
            if p.poll() is None:
                p.kill()
        sys.exit(2)
    signal.signal(signal.SIGTERM, killall)
    signal.signal(signal.SIGINT, killall)
    grace = None
    while any(p.poll() is None or (p.poll() != 0 and w not in restarted)
              for w, p in enumerate(procs)):
        time.sleep(0.05)
        now = time.time()
        stop = os.path.exists(os.path.join(outdir, 'STOP'))
        for w, p in enumerate(procs):
            # A worker that died without a result gets a second chance, so
            # that only a reproducible crash counts.
            if p.poll() not in (None, 0) and w not in restarted \
                    and grace is None and not stop:
                restarted.add(w)
                procs[w] = start(w)
        if grace is None and (stop or now - t0 > limit):
            grace = now
            open(os.path.join(outdir, 'STOP'), 'a').close()
        if grace is not None:
            restarted.update(range(nw))
        if grace is not None and now - grace > (3 if stop and now - t0 < limit
                                                else 60):
            for p in procs:
                if p.poll() is None:
                    p.kill()
    results, crashes = [], []
    for w, p in enumerate(procs):
        path = os.path.join(outdir, 'w{}.json'.format(w))
        if os.path.exists(path):
            results.append(json.load(open(path)))
        elif grace is None:
            crashes.append((w, p.returncode,
                            open(os.path.join(outdir, 'w{}.log'.format(w)))
                            .read()[-2000:]))
    violations = [v for r in results for v in r['violations']]
    # Violations written by workers which were stopped later
    vfiles = sorted(f for f in os.listdir(outdir) if f.startswith('viol-'))
    seen = {v['id'] for v in violations}
    for f in vfiles:
        v = json.load(open(os.path.join(outdir, f)))
        if v['id'] not in seen:
            violations.append(v)
    for w, rc, text in crashes:
        # The interpreter itself died (or the code under test could not be
        # imported) while executing cases on valid input.
        cur = os.path.join(outdir, 'w{}.cur'.format(w))
        key = json.load(open(cur))[1] if os.path.exists(cur) else None
        violations.append(dict(id='crash-{}'.format(w), key=key, worker=w,
                               nworkers=nw, kind='crash',
                               message='worker ended with {}: {}'.format(
                                   rc, text)))
    coverage = dict(states=0, transitions=0, traces_validated_against_impl=0)
    outcomes, samples, kf, cases_total, cases_done = 0, [], {}, 0, 0
    sets = {}
    for r in results:
        coverage['states'] += r['states']
        coverage['transitions'] += r['transitions']
        coverage['traces_validated_against_impl'] += r['cases_done']
        cases_total = max(cases_total, r['cases_total'])
        cases_done += r['cases_done']
        samples += r['samples'][:2]
        for k, n in r['known'].items():
            kf[k] = kf.get(k, 0) + n
        for k, n in r['counters'].items():
            sets[k] = sets.get(k, 0) + n
    exhaustive = (len(results) == nw and all(r['complete'] for r in results)
                  and not violations)
    first = results[0] if results else {}
    coverage.update(
        cases_in_bound=cases_total, cases_executed=cases_done,
        exhaustive=exhaustive, bounds=first.get('bounds', {}),
        counters=sets, samples=samples[:6],
        rule=first.get('rule', ''))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=coverage,
              assumptions=first.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations),
              known_findings=kf)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.{}.tmp'.format(prop))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for marker, text in load_findings(prop):
        if kf.get(marker):
            print('KNOWN-FINDING: property={} {} ({} cases)'.format(
                prop, text, kf[marker]))
    print('{} {}: {} of {} cases, {} states, {} transitions, exhaustive={} '
          'in {:.1f} s'.format(prop, tier, cases_done, cases_total,
                               coverage['states'], coverage['transitions'],
                               exhaustive, time.time() - t0))
    if violations:
        violations.sort(key=lambda v: (v.get('index') is None,
                                       v.get('index') or 0))
        for n, v in enumerate(violations[:3]):
            path = os.path.join(replays, '{}-{}-{}.json'.format(
                prop, os.getpid(), n))
            v.update(property=prop, tier=tier)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('case {}: {}'.format(json.dumps(v.get('key')),
                                       v['message'][:1500]))
            print('VIOLATION property={} replay={}'.format(prop, path))
        print('replay with: {}/bin/replay {}'.format(VERIF, path))
        cleanup(outdir)
        return 1
    if not results or any(not r.get('ok') for r in results):
        # No worker may end without a verdict
        print('check error: worker without result')
        for w in range(nw):
            sys.stdout.write(open(os.path.join(
                outdir, 'w{}.log'.format(w))).read()[-500:])
        return 2
    cleanup(outdir)
    return 0


def cleanup(outdir):
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    os.rmdir(outdir)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
