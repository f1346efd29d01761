"""C12 state format conversions and reductions equal dense partial traces."""
import itertools as it

import numpy as np

import mpnum as mp

from .. import fine, scale
from ..lib import (all_ranks, apply_gauge, build, cform_error, close, dense, fp,
                   gauges, global_to_local_ref, local_to_global_ref, maxabs,
                   rejects, snapshot, tensor, tol_of, unchanged, verify)

RULE = ('all dimension / ancilla / rank vectors of the alphabet x value classes '
        'x gauges; all windows, start and stop sequences and supports; all '
        'words of gauge operations between the results of an iterator')
ASSUMPTIONS = ['values are representatives of the listed classes',
               'supports are sets (no repeated site)']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                long_chains='9, 25, 60 sites; 6 sites of dimension 5',
                sites='1..{}'.format(4 if q else 5), dims='1..3 per site',
                ancilla='1..3 per site', ranks='1..3', value_classes='r c i F z o m M n',
                start_stop_sequences='all of length 1, 2; windows of every width',
                interleaved_words='all words with one operation per result')


DIMS = {1: [(1,), (2,), (3,)],
        2: [(2, 2), (3, 2), (1, 2), (2, 1), (1, 1), (2, 3)],
        3: [(2, 2, 2), (2, 1, 2), (3, 2, 1), (1, 2, 3), (2, 3, 2)],
        4: [(2, 2, 2, 2), (2, 1, 1, 2), (1, 2, 3, 2)],
        5: [(2, 1, 2, 1, 2), (2, 2, 2, 2, 2)]}
ANC = {1: [(1,), (2,), (4,)],
       2: [(1, 1), (2, 2), (3, 1), (1, 2)],
       3: [(1, 1, 1), (2, 2, 2), (3, 1, 2), (1, 2, 1)],
       4: [(1, 1, 1, 1), (2, 2, 1, 2), (1, 2, 2, 1)],
       5: [(1, 1, 1, 1, 1), (2, 1, 1, 2, 1)]}
RANKS = {1: [()], 2: [(1,), (2,), (3,)], 3: [(1, 1), (2, 2), (1, 3), (3, 2)],
         4: [(1, 1, 1), (2, 2, 2), (2, 3, 1)], 5: [(2, 2, 2, 2), (1, 3, 1, 2)]}


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5 if q else 6):
        for dims, rk in it.product(DIMS[n], RANKS[n]):
            for cls in 'rciFzomMn':
                yield ('mps', dims, rk, cls)
                yield ('mpo', dims, rk, cls)
                if n < 4:
                    yield ('sel', dims, rk, cls)
            for anc in ANC[n]:
                if n == 5 and max(anc) > 1 and dims == (2,) * 5:
                    continue
                for cls in 'rcFmM' + 'iz' * (rk == RANKS[n][-1]):
                    yield ('pmps', dims, anc, rk, cls)
    for n in (2, 3) if q else (2, 3, 4):
        for fmt in ('mps', 'pmps', 'mpdo', 'mpsmpo'):
            for w in range(1, n + 1):
                for cls in 'rcm':
                    yield ('inter', fmt, n, w, cls)
    for key in scale.CHAINS:
        yield ('scale',) + key
    yield ('reject',)
    for key in fine.keys(['v2', 'v3', 'v4']):
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c12(ctx, *key)


def run_scale(ctx, *key):
    scale.c12(ctx, *key)


def dm_of_pmps(arr, n):
    """Dense density matrix (local legs i1 j1 ..) of a dense PMPS array"""
    a = local_to_global_ref(arr, n)
    d, anc = a.shape[:n], a.shape[n:]
    m = a.reshape((int(np.prod(d)), -1))
    rho = np.dot(m, m.conj().T).reshape(d + d)
    return global_to_local_ref(rho, n)


def dm_of_mps(arr):
    n = arr.ndim
    return global_to_local_ref(np.multiply.outer(arr, arr.conj()), n)


def ptrace(rho, keep):
    """Partial trace of a local form density matrix; own code"""
    n = rho.ndim // 2
    for s in reversed(range(n)):
        if s not in keep:
            rho = np.trace(rho, axis1=2 * s, axis2=2 * s + 1)
    return rho


def positive(ctx, rho, what, tol):
    """Local form density matrix is Hermitian and PSD"""
    n = rho.ndim // 2
    g = local_to_global_ref(rho, n)
    m = g.reshape((int(np.prod(g.shape[:n])), -1))
    sc = maxabs(m)
    ctx.check(maxabs(m - m.conj().T) <= tol * sc, what + ': not Hermitian')
    w = np.linalg.eigvalsh(m.astype(complex))
    ctx.check(w.min() >= -10 * tol * sc, lambda: '{}: eigenvalue {}'.format(
        what, w.min()))


def check_mpo(ctx, mpo, want, what, dims, tol):
    scale = maxabs(want)
    verify(ctx, mpo, want, what, [(d, d) for d in dims], scale, tol)
    ctx.state(what.split(' ')[0], dims, fp(want))


def check_pmps(ctx, pm, want, what, dims, tol):
    ctx.check(isinstance(pm, mp.MPArray), what + ': not an MPArray')
    ctx.check(len(pm) == len(dims) and all(x == 2 for x in pm.ndims),
              lambda: '{}: shape {}'.format(what, pm.shape))
    ctx.check(tuple(s[0] for s in pm.shape) == tuple(dims),
              lambda: '{}: system dimensions {} expected {}'.format(
                  what, pm.shape, dims))
    got = dm_of_pmps(dense(pm), len(pm))
    scale = maxabs(want)
    ctx.check(close(got, want, scale, tol), lambda: '{}: wrong state, deviation '
              '{} of {}'.format(what, maxabs(got - want), scale))
    positive(ctx, got, what, max(tol, 1e-8))
    err = cform_error(pm.lt, max(tol, 1e-7))
    ctx.check(err is None, lambda: '{}: {}'.format(what, err))
    tr = ptrace(want, ()).real
    ctx.check(abs(mp.norm(pm.copy()) ** 2 - tr) <= 100 * tol * abs(tr) + 1e-290,
              lambda: '{}: norm {} trace {}'.format(what, mp.norm(pm), tr))
    ctx.state(what.split(' ')[0], dims, fp(want))


def gauge_set(n, ctx):
    gs = [g for g in gauges(n, full=False) if g != 'scal']
    return gs + ['scal']


def run_mps(ctx, dims, rk, cls):
    n = len(dims)
    dims = tuple(dims)
    shape = [(d,) for d in dims]
    for g in gauge_set(n, ctx):
        if g == 'scal' and cls == 'i':
            continue
        psi, ref = build(shape, rk, cls, 'mps')
        if cls == 'i' and not maxabs(ref):
            ctx.count('cancelling')     # exact zero by cancellation
            return
        ref = ref * apply_gauge(psi, g)
        tol = tol_of(psi.dtype)
        rho = dm_of_mps(ref)
        snap = snapshot(psi)
        what = 'mps dims {} gauge {}'.format(dims, g)
        p = mp.mps_to_pmps(psi)
        ctx.step('mps_to_pmps ' + what)
        verify(ctx, p, ref.reshape(sum(((d, 1) for d in dims), ())),
               'mps_to_pmps', [(d, 1) for d in dims], tol=tol)
        back = mp.pmps_to_mps(p)
        ctx.step('pmps_to_mps')
        verify(ctx, back, ref, 'pmps_to_mps', shape, tol=tol)
        o = mp.mps_to_mpo(psi)
        ctx.step('mps_to_mpo')
        check_mpo(ctx, o, rho, 'mps_to_mpo', dims, tol)
        positive(ctx, dense(o), 'mps_to_mpo', tol)
        for w in range(1, n + 1):
            wins = [(a, a + w) for a in range(n - w + 1)]
            pm = list(mp.reductions_mps_as_pmps(psi, w))
            mo = list(mp.reductions_mps_as_mpo(psi, w))
            rd, fmt = mp.reductions(psi, 'mps', width=w)
            rd = list(rd)
            ctx.step('reductions width {} {}'.format(w, what))
            ctx.check(fmt == 'pmps', 'format of reductions(mps)')
            for lst in (pm, mo, rd):
                ctx.check(len(lst) == len(wins),
                          'number of reductions of width {}'.format(w))
            for (a, b), x, y, z in zip(wins, pm, mo, rd):
                want = ptrace(rho, range(a, b))
                nm = '{} window {}'.format(what, (a, b))
                check_pmps(ctx, x, want, 'reductions_mps_as_pmps ' + nm,
                           dims[a:b], tol)
                check_mpo(ctx, y, want, 'reductions_mps_as_mpo ' + nm,
                          dims[a:b], tol)
                check_pmps(ctx, z, want, 'reductions ' + nm, dims[a:b], tol)
        unchanged(ctx, psi, snap, 'reductions ' + what, max(tol, 1e-8))


def run_mpo(ctx, dims, rk, cls):
    """General (not positive) operators"""
    n = len(dims)
    dims = tuple(dims)
    shape = [(d, d) for d in dims]
    for g in gauge_set(n, ctx):
        if g == 'scal' and cls == 'i':
            continue
        op, ref = build(shape, rk, cls, 'mpo')
        if cls == 'i' and not maxabs(ref):
            ctx.count('cancelling')     # exact zero by cancellation
            return
        ref = ref * apply_gauge(op, g)
        tol = tol_of(op.dtype)
        scale = maxabs(ref) * np.prod(dims)
        snap = snapshot(op)
        what = 'mpo dims {} gauge {}'.format(dims, g)
        for w in range(1, n + 1):
            wins = [(a, a + w) for a in range(n - w + 1)]
            res = list(mp.reductions_mpo(op, w))
            rd, fmt = mp.reductions(op, 'mpdo', width=w)
            rd = list(rd)
            ctx.step('reductions_mpo width {} {}'.format(w, what))
            ctx.check(fmt == 'mpdo', 'format of reductions(mpdo)')
            ctx.check(len(res) == len(wins) == len(rd), 'number of reductions')
            for (a, b), x, y in zip(wins, res, rd):
                want = ptrace(ref, range(a, b))
                for nm, r in (('reductions_mpo', x), ('reductions', y)):
                    verify(ctx, r, want, '{} {} window {}'.format(nm, what, (a, b)),
                           shape[a:b], scale, tol)
                ctx.state('mpo', dims, a, b, fp(want))
        unchanged(ctx, op, snap, 'reductions ' + what, max(tol, 1e-8))


def run_pmps(ctx, dims, anc, rk, cls):
    n = len(dims)
    dims = tuple(dims)
    shape = list(zip(dims, anc))
    for g in gauge_set(n, ctx):
        if g == 'scal' and cls == 'i':
            continue
        pm, ref = build(shape, rk, cls, 'pm')
        if cls == 'i' and not maxabs(ref):
            ctx.count('cancelling')     # exact zero by cancellation
            return
        ref = ref * apply_gauge(pm, g)
        tol = tol_of(pm.dtype)
        rho = dm_of_pmps(ref, n)
        snap = snapshot(pm)
        what = 'pmps {} gauge {}'.format(shape, g)
        o = mp.pmps_to_mpo(pm)
        ctx.step('pmps_to_mpo ' + what)
        check_mpo(ctx, o, rho, 'pmps_to_mpo', dims, tol)
        positive(ctx, dense(o), 'pmps_to_mpo', tol)
        # dense density matrix
        big = [d for d in dims if d > 1]
        arr = mp.pmps_dm_to_array(pm)
        ctx.step('pmps_dm_to_array')
        loc = rho.reshape([d for d in dims for _ in (0, 1) if d > 1])
        ctx.check(close(arr, loc, tol=tol), 'pmps_dm_to_array ' + what)
        if len(set(big)) == 1:
            arr = mp.pmps_dm_to_array(pm, global_=True)
            ctx.step('pmps_dm_to_array global')
            ctx.check(close(arr, local_to_global_ref(loc, len(big)), tol=tol),
                      'pmps_dm_to_array global_ ' + what)
        for w in range(1, n + 1):
            wins = [(a, a + w) for a in range(n - w + 1)]
            res = list(mp.reductions_pmps(pm, w))
            rd, fmt = mp.reductions(pm, 'pmps', width=w)
            rd = list(rd)
            ctx.step('reductions_pmps width {} {}'.format(w, what))
            ctx.check(fmt == 'pmps', 'format of reductions(pmps)')
            ctx.check(len(res) == len(wins) == len(rd), 'number of reductions')
            for (a, b), x, y in zip(wins, res, rd):
                want = ptrace(rho, range(a, b))
                check_pmps(ctx, x, want, 'reductions_pmps {} window {}'.format(
                    what, (a, b)), dims[a:b], tol)
                check_pmps(ctx, y, want, 'reductions {} window {}'.format(
                    what, (a, b)), dims[a:b], tol)
        # supports
        for k in range(1, n + 1):
            for sup in it.combinations(range(n), k):
                want = ptrace(rho, sup)
                a, b = min(sup), max(sup) + 1
                dd = tuple(dims[s] if s in sup else 1 for s in range(a, b))
                w1 = want.reshape([x for d in dd for x in (d, d)])
                forms = [list(sup)]
                if g == 'raw':
                    forms += [tuple(reversed(sup)), set(sup), frozenset(sup),
                              np.array(sup)]
                    if b - a == k:
                        forms.append(range(a, b))
                for f in forms:
                    r = mp.pmps_reduction(pm, f)
                    nm = 'pmps_reduction {} {!r}'.format(what, f)
                    ctx.step(nm)
                    check_pmps(ctx, r, w1, nm, dd, tol)
        unchanged(ctx, pm, snap, 'reductions ' + what, max(tol, 1e-8))


FUN = {
    'mps': (mp.reductions_mps_as_pmps, check_pmps),
    'mpsmpo': (mp.reductions_mps_as_mpo, check_mpo),
    'pmps': (mp.reductions_pmps, check_pmps),
    'mpdo': (mp.reductions_mpo, check_mpo)}


def make(fmt, dims, rk, cls, label):
    """(state, dense density operator in local form)"""
    n = len(dims)
    if fmt.startswith('mps'):
        s, ref = build([(d,) for d in dims], rk, cls, label)
        return s, dm_of_mps(ref)
    if fmt == 'pmps':
        s, ref = build([(d, 1 + i % 2) for i, d in enumerate(dims)], rk, cls, label)
        return s, dm_of_pmps(ref, n)
    s, ref = build([(d, d) for d in dims], rk, cls, label)
    return s, ref


def run_sel(ctx, dims, rk, cls):
    """Every selection of start and stop sites, in every order"""
    n = len(dims)
    dims = tuple(dims)
    wins = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    for fmt in FUN:
        fun, chk = FUN[fmt]
        for k in (1, 2) + (3,) * (n == 2):
            for seq in it.product(wins, repeat=k):
                if ctx.quick and k > 1 and cls not in ('c' if n == 3 else 'rc'):
                    continue
                st, rho = make(fmt, dims, rk, cls, 'sel')
                if cls == 'i' and not maxabs(rho):
                    return
                tol = tol_of(st.dtype)
                starts, stops = zip(*seq)
                calls = [dict(startsites=starts, stopsites=stops)]
                if len({b - a for a, b in seq}) == 1:
                    w = seq[0][1] - seq[0][0]
                    calls += [dict(width=w, startsites=list(starts)),
                              dict(width=w, startsites=iter(starts))]
                if k == 1:
                    calls.append(dict(startsites=iter(starts),
                                      stopsites=iter(stops)))
                for kw in calls:
                    res = list(fun(st, **kw))
                    what = 'reductions[{}] {} {}'.format(fmt, seq, sorted(kw))
                    ctx.step(what)
                    ctx.check(len(res) == k, what + ': number of results')
                    for (a, b), r in zip(seq, res):
                        want = ptrace(rho, range(a, b))
                        if fmt == 'mpdo':
                            verify(ctx, r, want, what,
                                   [(d, d) for d in dims[a:b]],
                                   maxabs(rho) * np.prod(dims), tol)
                        else:
                            chk(ctx, r, want, what, dims[a:b], tol)
                if fmt != 'mpsmpo':
                    md = 'mps' if fmt == 'mps' else fmt
                    res, f2 = mp.reductions(st, md, startsites=starts,
                                            stopsites=stops)
                    ctx.check(f2 == ('mpdo' if fmt == 'mpdo' else 'pmps'),
                              'format of reductions')
                    ctx.check(len(list(res)) == k, 'reductions: number')


OPS = {
    'none': lambda s: None,
    'norm': lambda s: mp.norm(s),
    'canl': lambda s: s.canonicalize(left='afull'),
    'canr': lambda s: s.canonicalize(right='afull'),
    'comp': lambda s: s.compress(),
    'sv': lambda s: list(s.singularvals()),
}


def run_inter(ctx, fmt, n, w, cls):
    """Gauge operations between the results of an iterator"""
    dims = (2, 3, 2, 2)[:n]
    fun, chk = FUN[fmt]
    wins = [(a, a + w) for a in range(n - w + 1)]
    names = sorted(OPS) + ['res*', 'again']
    for seq in [wins, wins[::-1], wins[:1] * 2, [wins[-1], wins[0], wins[-1]]]:
        for word in it.product(names, repeat=len(seq)):
            st, rho = make(fmt, dims, (2, 3, 2)[:n - 1], cls, 'int')
            snap = snapshot(st)
            gen = fun(st, startsites=[a for a, _ in seq], width=w)
            done = []
            second = []
            for (a, b), op in zip(seq, word):
                # op before the result is requested
                if op == 'res*':
                    for r, _ in done:
                        r *= 2.
                    done = []
                elif op == 'again':
                    second += list(fun(st, width=w))
                else:
                    OPS[op](st)
                done.append((next(gen), (a, b)))
            ctx.step('{} {} {}'.format(fmt, seq, word))
            ctx.check(next(gen, None) is None, 'too many results')
            what = 'reductions[{}] {} with {}'.format(fmt, seq, word)
            for r, (a, b) in done + list(zip(second, wins)):
                want = ptrace(rho, range(a, b))
                if fmt == 'mpdo':
                    ctx.check(close(dense(r), want,
                                    maxabs(rho) * np.prod(dims)), lambda:
                              '{}: wrong operator on {}'.format(what, (a, b)))
                elif fmt == 'mpsmpo':
                    ctx.check(close(dense(r), want),
                              lambda: '{}: wrong state on {}'.format(what, (a, b)))
                else:
                    ctx.check(close(dm_of_pmps(dense(r), b - a), want),
                              lambda: '{}: wrong state on {}'.format(what, (a, b)))
            unchanged(ctx, st, snap, what)
            ctx.state('inter', fmt, n, w, seq, word)


def run_reject(ctx):
    def b(shape, rk, lbl='rj'):
        return build(shape, rk, 'r', lbl)[0]
    psi = b([(2,)] * 3, (2, 2))
    pm = b([(2, 2)] * 3, (2, 2))
    rej = [
        ('unknown mode', lambda: mp.reductions(psi, 'foo', width=1)),
        ('nothing given', lambda: list(mp.reductions_mpo(pm))),
        ('nothing given', lambda: list(mp.reductions_pmps(pm))),
        ('only stop', lambda: list(mp.reductions_mpo(pm, stopsites=[1]))),
        ('only start', lambda: list(mp.reductions_mpo(pm, startsites=[1]))),
        ('width and stop', lambda: list(mp.reductions_mpo(
            pm, width=1, startsites=[0], stopsites=[2]))),
        ('outside', lambda: list(mp.reductions_mpo(pm, width=2, startsites=[2]))),
        ('outside', lambda: list(mp.reductions_pmps(pm, width=2, startsites=[2]))),
        ('outside', lambda: list(mp.reductions_mps_as_mpo(
            psi, width=2, startsites=[2]))),
        ('empty', lambda: list(mp.reductions_mpo(pm, startsites=[1], stopsites=[1]))),
        ('empty', lambda: list(mp.reductions_pmps(pm, startsites=[1], stopsites=[1]))),
        ('reversed', lambda: list(mp.reductions_mpo(pm, startsites=[2], stopsites=[1]))),
        ('reversed', lambda: list(mp.reductions_pmps(pm, startsites=[2], stopsites=[1]))),
        ('mps as mpo', lambda: list(mp.reductions_mpo(psi, 1))),
        ('pmps as mps', lambda: mp.mps_to_pmps(pm)),
        ('ancilla', lambda: mp.pmps_to_mps(pm)),
        ('mps', lambda: mp.pmps_to_mps(psi)),
        ('no support', lambda: mp.pmps_reduction(pm, [])),
        ('support', lambda: mp.pmps_reduction(pm, [3])),
        ('support', lambda: mp.pmps_reduction(pm, [-1])),
    ]
    for name, fun in rej:
        ctx.step('reject ' + name)
        rejects(ctx, fun, name)
