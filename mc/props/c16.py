"""C16 samples follow the exact outcome distribution."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from ..draws import TooMany, Unsupported, explore, lowest
from ..lib import (apply_gauge, close, fp, mpo_from_matrix, mpp_from_elements,
                   povm_elements, rejects, snapshot, unchanged)
from .c15 import DIMS, MEAS, born, measurement, spec_of, state

RULE = ('all sequences of answers of the random generator (every alternative '
        'of every draw) for all (measurement, state, method, group size, mode, '
        'number of samples) of the bound')
ASSUMPTIONS = ['the generator is only used through draws from finite '
               'distributions; continuous draws, which the code does not use, '
               'would be explored on a grid with a looser tolerance (chains of '
               'one and two sites) and with the least draw',
               'outcomes whose conditional probability is below 1e-9 are '
               'not followed']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(sites='1..4, 6', dims='2..3 per site', outcomes='1..6 per site (255 '
                'on one site)', samples='0..2 (3 for two outcomes)',
                methods='cond with every group size 1..n+1, direct',
                modes='mps pmps mpdo auto', paths_per_case='5000')


STATES = [('mps', 'r'), ('pmps', 'c'), ('mpdo', 'c'), ('mps', 'basis'),
          ('mps', 'ghz'), ('mpdo', 'cls'), ('mps', 'low'), ('pmps', 'ghz')]
SPECS = {1: ['x', 'z', 'p', 'g'],
         2: ['xy', 'zz', 'pg', '1y', 'g1', 'z1', [(2, 2)], [(3, 1)], [(1, 3)]],
         3: ['xyz', 'zzz', '1y1', 'x1y', '11z', 'p11', 'z1z', [(2, 2), 'y'],
             ['x', (2, 3)], [(2, 1, 2)], [(2, 2, 2)]],
         4: ['zhzx', '1gy1', 'z11x', [(2, 2), (2, 2)], ['h', (2, 1), 'x'],
             [(2, 1, 1, 2)]]}


def the_state(fmt, kind, dims):
    n = len(dims)
    D = int(np.prod(dims))
    if kind in ('r', 'c'):
        return state(fmt, dims, (2,) * (n - 1), kind, 'c16')
    if kind == 'cls':     # diagonal mixed state with exact zeros
        p = np.array([(i * i + 1) % 5 for i in range(D)], dtype=float)
        rho = np.diag(p / p.sum())
        return mpo_from_matrix(rho, dims), rho
    v = np.zeros(D, dtype=complex)
    if kind == 'basis':
        v[(D * 2) // 3] = 1
        rho = np.outer(v, v)
        idx = np.unravel_index((D * 2) // 3, dims)
        s = mp.MPArray([np.eye(d)[i].reshape((1, d) + (1,) * (fmt == 'pmps') + (1,))
                        for d, i in zip(dims, idx)])
        return s, rho
    elif kind == 'ghz':
        v[0], v[-1] = .6, .8j
    elif kind == 'low':   # one outcome is rare
        v[:] = 1e-3
        v[D // 2] = 1.
        v /= np.linalg.norm(v)
    rho = np.outer(v, v.conj())
    s = mp.MPArray.from_array(v.reshape(dims), ndims=1)
    if fmt == 'pmps':
        s = mp.MPArray([np.array(t)[:, :, None, :] for t in s.lt])
    return s, rho


def kindof(si):
    """State with impossible or rare outcomes (in the computational basis)"""
    return si >= 3


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5):
        dl = DIMS[n] if (not q or n < 3) else DIMS[n][:2]
        for dims, spec in it.product(dl, SPECS[n]):
            for si in range(len(STATES)):
                # quick: generic states for every measurement, the special
                # ones where outcomes can be impossible
                if q and n > 2 and kindof(si) and 'z' not in str(spec):
                    continue
                yield ('dist', dims, spec, si)
    for spec in ('zx1zzy', 'zzzzzz', 'z11z1x', '1zz111'):
        for si in (0, 1, 2, 4):
            yield ('dist', (2,) * 6, spec, si)
    for n in (1, 2, 3):
        for si in range(len(STATES)):
            yield ('list', n, si)
    for n in (1, 2, 3, 4):
        for spec in SPECS[n]:
            yield ('pack', n, spec)
            yield ('seed', n, spec)
    for K in (2, 254, 255, 256):
        yield ('many', K)
    yield ('packbig',)
    for n in (1, 2, 3):
        yield ('reject', n)


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def records(p, nsd, n_samples):
    """{tuple of packed outcomes: probability}"""
    out = {}
    for c in it.product(range(len(p)), repeat=n_samples):
        w = float(np.prod([p[k] for k in c]))
        out[c] = 0. if min([p[k] for k in c] or [1.]) <= 1e-13 else w
    return out


def as_record(arr, nsd):
    if not nsd:
        return tuple(0 for _ in arr)
    return tuple(int(np.ravel_multi_index(tuple(int(x) for x in row), nsd))
                 for row in arr)


def compare(ctx, runs, tol, want, what):
    got = {}
    for rec, w in runs:
        got[rec] = got.get(rec, 0.) + w
    ctx.count('paths', len(runs))
    for rec in set(got) | set(want):
        g, e = got.get(rec, 0.), want.get(rec, 0.)
        ctx.check(abs(g - e) <= max(tol, 1e-8),
                  lambda: '{}: record {} has probability {} over all draws, '
                  'expected {}'.format(what, rec, g, e))
    if want and tol <= 1e-8:
        zero = [r for r in got if want.get(r, 0.) == 0.]
        ctx.check(not zero, lambda: '{}: impossible record {} produced'.format(
            what, zero))


def draws_of(ctx, m, s, nsd, n_samples, kw, what, exact_zeros=()):
    def one(rng):
        arr = m.sample(rng, s, n_samples, **kw)
        ctx.transitions += 1
        ctx.check(isinstance(arr, np.ndarray) and arr.shape ==
                  (n_samples, len(nsd)), lambda: '{}: shape {}'.format(
                      what, np.shape(arr)))
        ctx.check(arr.dtype == np.uint8, lambda: '{}: dtype {}'.format(
            what, arr.dtype))
        ctx.check(bool((arr < np.array(nsd)[None, :]).all()),
                  lambda: '{}: outcome out of range {}'.format(what, arr))
        return as_record(arr, nsd)
    try:
        rec, cont = lowest(one)
        # the least answer a uniform generator can give never selects an
        # outcome whose probability is exactly zero
        ctx.check(not cont or all(k not in exact_zeros for k in rec), lambda:
                  '{}: impossible record {} produced by the draw 0.0'.format(
                      what, rec))
        if cont and (n_samples > 1 or len(nsd) > 2 or len(m) > 2):
            # a grid over several continuous draws would be too coarse
            ctx.count('continuous_draws_skipped')
            return None, None
        return explore(one)
    except Unsupported:
        ctx.count('unsupported_draws')
    except TooMany:
        ctx.count('too_many_paths')
    return None, None


def configs(n, fmt):
    # two physical legs mean an operator unless the mode says otherwise
    modes = ['pmps', 'pmps'] if fmt == 'pmps' else ['auto', fmt]
    for g in range(1, n + 2):
        yield dict(method='cond', n_group=g, mode=modes[g % 2])
    for mode in modes:
        yield dict(method='direct', mode=mode)
    yield dict(mode=modes[0])


def run_dist(ctx, dims, spec, si):
    dims, spec = tuple(dims), spec_of(spec)
    fmt, kind = STATES[si]
    m, el, out = measurement(spec, dims)
    nsd = tuple(d for d in out if d > 1)
    if not nsd:
        return
    s, rho = the_state(fmt, kind, dims)
    p = born(el, rho).real.clip(0)
    K = len(p)
    ctx.state(fp(p))
    ctx.check(m.nsoutdims == nsd, 'nsoutdims')
    zeros = ()
    if kind == 'basis' and all(x in ('z', '1') for x in spec):
        zeros = set(k for k in range(K) if p[k] == 0.)
    gl = fp(np.random.get_state()[1]), np.random.get_state()[2]
    s0, m0 = snapshot(s), snapshot(m)
    for kw in configs(len(nsd), fmt):
        for ns in (1, 2, 3):
            if ns > 1 and (K**ns > (16 if ctx.quick else 150) or (
                    ns == 3 and K > 2)):
                continue
            ctx.step('sample', ns, sorted(kw.items()))
            what = 'sample({}, {})'.format(ns, kw)
            runs, tol = draws_of(ctx, m, s, nsd, ns, kw, what, zeros)
            if runs is not None:
                compare(ctx, runs, tol, records(p, nsd, ns), what)
    unchanged(ctx, s, s0, 'state after sampling')
    unchanged(ctx, m, m0, 'measurement after sampling')
    ctx.check(gl == (fp(np.random.get_state()[1]), np.random.get_state()[2]),
              'sampling changed the global random state')


def run_list(ctx, n, si):
    fmt, kind = STATES[si]
    dims = DIMS[n][0]
    s, rho = the_state(fmt, kind, dims)
    specs = {1: ['x', 'g', 'z'], 2: ['xy', '1z', [(3, 1)]],
             3: ['z1z', '1h1', [(2, 1, 2)]]}[n]
    ms = [measurement(spec_of(x), dims) for x in specs]
    for sel in [(0,), (0, 1), (1, 0), (1, 2), (2, 1), (1, 1), (2, 0)]:
        lst = mpp.MPPovmList([ms[i][0] for i in sel])
        nsds = [tuple(d for d in ms[i][2] if d > 1) for i in sel]
        want = {(): 1.}
        for i in sel:
            p = born(ms[i][1], rho).real
            p[p <= 1e-13] = 0.
            want = {a + (k,): w * p[k] for a, w in want.items()
                    for k in range(len(p))}
        for meth, g in (('cond', 1), ('cond', 2), ('direct', 1)):
            ctx.step('list.sample', sel, meth, g)

            def one(rng):
                got = list(lst.sample(rng, s, 1, meth, g, fmt))
                ctx.transitions += 1
                ctx.check(len(got) == len(sel), 'number of sample arrays')
                rec = ()
                for a, nsd in zip(got, nsds):
                    ctx.check(a.shape == (1, len(nsd)), lambda: 'shape {}'.format(
                        a.shape))
                    rec += as_record(a, nsd)
                return rec
            try:
                runs, tol = explore(one)
            except (Unsupported, TooMany):
                ctx.count('unsupported_draws')
                continue
            compare(ctx, runs, tol, want, 'MPPovmList.sample {} {}'.format(sel, meth))
        # packing of lists
        full = [np.array(list(np.ndindex(*nsd)), dtype=np.uint8) for nsd in nsds]
        packed = list(lst.pack_samples(full))
        for a, nsd in zip(packed, nsds):
            ctx.check(np.array_equal(a, np.arange(int(np.prod(nsd)))),
                      'list packing')
        back = list(lst.unpack_samples(packed))
        ctx.check(len(back) == len(sel) and all(
            np.array_equal(x, y) for x, y in zip(back, full)), 'list unpacking')
        rejects(ctx, lambda: list(lst.pack_samples(full + full)),
                'packing with wrong number of sample arrays')
        rejects(ctx, lambda: list(lst.unpack_samples(packed[1:])),
                'unpacking with wrong number of sample arrays')


def run_pack(ctx, n, spec):
    spec = spec_of(spec)
    for dims in DIMS[n]:
        m, el, out = measurement(spec, dims)
        nsd = tuple(d for d in out if d > 1)
        if not nsd:
            continue
        K = int(np.prod(nsd))
        full = np.array(list(np.ndindex(*nsd)))
        for dt in (np.uint8, int, np.int16):
            ctx.step('pack', dims, str(dt))
            got = m.pack_samples(full.astype(dt))
            ctx.check(np.array_equal(got, np.arange(K)), lambda: 'packing {}'.format(
                got))
            for perm in (np.arange(K)[::-1], np.arange(K).repeat(2)):
                ctx.check(np.array_equal(m.pack_samples(full[perm].astype(dt)), perm),
                          'packing is not row-wise')
        back = m.unpack_samples(np.arange(K))
        ctx.check(np.array_equal(back, full) and back.dtype == np.uint8,
                  lambda: 'unpacking {}'.format(back))
        back = m.unpack_samples(np.arange(K)[::-1].astype(np.int32))
        ctx.check(np.array_equal(back, full[::-1]), 'unpacking reversed')
        for dt in (np.uint8, np.int8, np.int16, np.uint32, np.int64):
            got = m.pack_samples(full, dtype=dt)
            ctx.check(got.dtype == dt and np.array_equal(got.astype(int),
                      np.arange(K)), lambda: 'packing as {}: {} {}'.format(
                          dt, got.dtype, got))
        # every single out-of-range digit is refused
        for j in range(len(nsd)):
            bad = full[:1].copy()
            bad[0, j] = nsd[j]
            rejects(ctx, lambda: m.pack_samples(bad), 'outcome {} on site {} of {}'
                    .format(nsd[j], j, nsd))
        rejects(ctx, lambda: m.unpack_samples(np.array([K])), 'packed value {}'.format(
            K))
        rejects(ctx, lambda: m.unpack_samples(np.array([-1])), 'packed value -1')
        rejects(ctx, lambda: m.pack_samples(np.zeros((1, len(nsd) + 1), int)),
                'too many columns')


def run_packbig(ctx):
    """Packed range exceeds small integers"""
    m = mpp.pauli_mpp(3, 2)
    full = np.array(list(np.ndindex(6, 6, 6)), dtype=np.uint8)
    got = m.pack_samples(full)
    ctx.check(np.array_equal(got, np.arange(216)), 'packing 216 outcomes')
    ctx.check(np.array_equal(m.pack_samples(full, dtype=np.uint8), np.arange(216)),
              'packing 216 outcomes as uint8')
    for n, dt in ((3, np.int8), (4, np.uint8), (6, np.int16), (7, np.uint16)):
        m = mpp.pauli_mpp(n, 2)
        top = np.full((1, n), 5, dtype=np.uint8)
        ctx.check(m.pack_samples(top)[0] == 6**n - 1, 'top outcome')
        ctx.check(m.pack_samples(top, dtype=np.int64)[0] == 6**n - 1, 'top outcome')
        rejects(ctx, lambda: m.pack_samples(top, dtype=dt),
                'outcome {} as {}'.format(6**n - 1, dt))
        low = np.zeros((1, n), dtype=np.uint8)
        low[0, -1] = 3
        ctx.check(m.pack_samples(low, dtype=dt)[0] == 3, 'low outcome')
        rejects(ctx, lambda: m.pack_samples(np.concatenate([low, top, low]),
                                            dtype=dt), 'overflow in the middle')
        ctx.check(np.array_equal(m.unpack_samples(np.array([6**n - 1, 3])),
                                 np.concatenate([top, low])), 'unpack')


def run_seed(ctx, n, spec):
    """Determinism in the generator, independence of everything else"""
    spec = spec_of(spec)
    dims = DIMS[n][-1]
    m, el, out = measurement(spec, dims)
    nsd = tuple(d for d in out if d > 1)
    if not nsd:
        return
    for si, kw in it.product((0, 1, 2, 4), list(configs(len(nsd), 'mps'))):
        fmt, kind = STATES[si]
        s, rho = the_state(fmt, kind, dims)
        p = born(el, rho).real
        kw['mode'] = fmt
        ref = None
        for gseed in (1, 2):
            np.random.seed(gseed)
            before = np.random.get_state()
            ctx.step('sample', fmt, kind, sorted(kw.items()), gseed)
            a = m.sample(np.random.RandomState(77), s, 6, **kw)
            after = np.random.get_state()
            ctx.check(before[2] == after[2] and np.array_equal(before[1], after[1]),
                      'sampling used the global random generator')
            if ref is None:
                ref = a
            ctx.check(np.array_equal(a, ref), 'same generator state, different '
                      'samples ({})'.format(kw))
        rec = as_record(ref, nsd)
        ctx.check(all(p[k] > 1e-12 for k in rec), 'impossible outcome sampled')
        # the generator advances: a constant or shared generator would repeat
        if kind in 'rc':
            rng = np.random.RandomState(77)
            m.sample(rng, s, 6, **kw)
            st = rng.get_state()
            st0 = np.random.RandomState(77).get_state()
            ctx.check(st[2] != st0[2] or not np.array_equal(st[1], st0[1]),
                      'generator passed in is not used')
        z = m.sample(np.random.RandomState(5), s, 0, **kw)
        ctx.check(z.shape == (0, len(nsd)), 'no samples')
        pk = m.sample(np.random.RandomState(77), s, 6, pack=True, **kw)
        ctx.check(np.array_equal(pk, rec), 'packed samples differ from plain ones')
        pk = m.sample(np.random.RandomState(77), s, 6, pack=np.uint8, **kw)
        ctx.check(np.array_equal(pk, rec) and pk.dtype == np.uint8,
                  'packed uint8 samples differ from plain ones')
        if si == 0:
            rejects(ctx, lambda: m.sample(np.random.RandomState(1), s, 2,
                                          method='nope'), 'unknown method')
            lst = mpp.MPPovmList([m, m])
            rng = np.random.RandomState(77)
            l1 = list(lst.sample(rng, s, 5, kw.get('method', 'cond'),
                                 kw.get('n_group', 1), fmt))
            l2 = list(lst.sample(np.random.RandomState(77), s, 5,
                                 kw.get('method', 'cond'), kw.get('n_group', 1),
                                 fmt, pack=True))
            ctx.check(all(np.array_equal(as_record(a, nsd), b)
                          for a, b in zip(l1, l2)), 'packed list samples')


def run_reject(ctx, n):
    """No sample of a distribution which is not normalised"""
    for spec, si in it.product(SPECS[n], range(3)):
        spec = spec_of(spec)
        fmt, kind = STATES[si]
        dims = DIMS[n][0]
        m, el, out = measurement(spec, dims)
        s, rho = the_state(fmt, kind, dims)
        for f, method in it.product((0, .25, .9, 1.1, 3), ('cond', 'direct')):
            rng = np.random.RandomState(1)
            ctx.step('sample', f, method)
            rejects(ctx, lambda: m.sample(rng, s * f, 2, method=method, mode=fmt),
                    'state times {}'.format(f))
        for what, kw in [('method', dict(method='nope')), ('mode', dict(mode='nope'))]:
            kw = dict(dict(method='cond', mode=fmt), **kw)
            rejects(ctx, lambda: m.sample(np.random.RandomState(1), s, 2, **kw),
                    'unknown ' + what)
        ctx.state(n, str(spec), si)


def run_many(ctx, K):
    """Number of outcomes at the limit of the sample format"""
    el = povm_elements(K, 2, 'many')
    if K > 255:
        # must not get as far as samples that wrap around
        s, rho = the_state('mps', 'r', (2,))
        rejects(ctx, lambda: mpp_from_elements(el, (K,), (2,))[0].sample(
            np.random.RandomState(3), s, 1), '{} outcomes do not fit'.format(K))
        return
    m, _ = mpp_from_elements(el, (K,), (2,))
    for fmt, kind in STATES[:3]:
        s, rho = the_state(fmt, kind, (2,))
        p = born(el, rho).real.clip(0)
        for kw in configs(1, fmt):
            ctx.step('sample', K, fmt, sorted(kw.items()))
            what = 'sample(1, {})'.format(kw)
            runs, tol = draws_of(ctx, m, s, (K,), 1, kw, what)
            if runs is not None:
                compare(ctx, runs, tol, records(p, (K,), 1), what)
    full = np.arange(K)[:, None].astype(np.uint8)
    ctx.check(np.array_equal(m.pack_samples(full), np.arange(K)), 'pack')
    ctx.check(np.array_equal(m.unpack_samples(np.arange(K)), full), 'unpack')
