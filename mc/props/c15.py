"""C15 outcome probabilities follow the Born rule."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from .. import fine, scale
from ..lib import (all_ranks, apply_gauge, build, check_povm, close, dense,
                   elements_of, fp, global_to_local_ref, local_to_global_ref,
                   maxabs, mpo_from_matrix, mpp_from_elements, povm_elements,
                   psd_state, rejects, snapshot, tensor, tensors, unchanged, verify)

RULE = ('all (site dimensions, measurement, state format, ranks, gauges, '
        'algorithm, window selection) combinations of the bound')
ASSUMPTIONS = ['states and generic measurements are deterministic '
               'representatives']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                long_chains='9, 25, 60 sites; 6 sites of dimension 5',
                sites='1..4 (states up to 5 for windows)', dims='1..3 per site',
                outcomes='1..6 per site', measurements=sorted(MEAS),
                state_ranks='1..4 (all vectors up to 3 sites)',
                modes='mps pmps mpdo auto', impl='auto default pmps-ltr pmps-symm',
                gauges='raw, left, right, mixed, norm',
                local_dtypes='real, complex, different between sites (state and '
                'measurement)')


def local_elements(name, dim):
    """Deterministic local measurement with dim levels"""
    if name == '1':
        return np.eye(dim)[None]
    if name == 'g':
        return povm_elements(3, dim, 'g')
    if name == 'h':
        return povm_elements(2, dim, 'h')
    if name == 'a':
        # one half of an element of x and the rest
        e = mpp.x_povm(dim)[0] / 2
        return np.array([e, np.eye(dim) - e])
    if name == 'b':
        # first element of z split into parts
        z = np.array(list(mpp.z_povm(dim)))
        return np.concatenate([.25 * z[:1], .75 * z[:1], z[1:]])
    if name == 'c':
        # with an outcome without information
        return np.concatenate([.5 * np.eye(dim)[None],
                               .5 * np.array(list(mpp.z_povm(dim)))])
    f = {'x': mpp.x_povm, 'y': mpp.y_povm, 'z': mpp.z_povm,
         'p': mpp.pauli_povm}[name]
    return np.array(list(f(dim)))


# measurement name -> per-site letters; digits group sites into entangled
# blocks with the outcome dimensions given
MEAS = {
    1: ['x', 'y', 'z', 'p', 'g', '1'],
    2: ['xy', 'zz', 'pg', '1y', 'g1', '11', [(2, 2)], [(3, 1)], [(1, 3)]],
    3: ['xyz', 'ggg', '1y1', 'x1y', '11z', 'p11', [(2, 2), 'y'], ['x', (2, 3)],
        [(2, 1, 2)], [(2, 2, 2)], '111'],
    4: ['xyzg', '1gy1', 'z11x', 'hhhh', [(2, 2), (2, 2)], ['g', (2, 1), 'x'],
        [(2, 1, 1, 2)]]}
DIMS = {1: [(2,), (3,)],
        2: [(2, 2), (2, 3), (3, 2)],
        3: [(2, 2, 2), (2, 3, 2), (3, 2, 2)],
        4: [(2, 2, 2, 2)]}


def measurement(spec, dims):
    """(MPPovm, elements (K, D, D), outdims)"""
    tens, refs, out, pos = [], [], [], 0
    for s in spec:
        if isinstance(s, str):
            el = local_elements(s, dims[pos])
            o, h = (len(el),), (dims[pos],)
        else:
            o = tuple(s)
            h = tuple(dims[pos:pos + len(o)])
            el = povm_elements(int(np.prod(o)), int(np.prod(h)), 'e', o)
        m, ref = mpp_from_elements(el, o, h)
        tens += [np.array(t) for t in m.lt]
        refs.append(ref)
        out += o
        pos += len(o)
    arr = np.ones(())
    for r in refs:
        arr = np.multiply.outer(arr, r)
    return mpp.MPPovm(tens), elements_of(arr, len(dims)), tuple(out)


def mixed(povm, arr, side):
    """Same measurement with real local tensors on all sites but one end"""
    n, out, dims = len(povm), povm.outdims, povm.hdims
    size = [o * d * d for o, d in zip(out, dims)]
    if n == 1 or int(np.prod(size[1:] if side == 'M' else size[:-1])) > 300:
        return None
    t = arr.reshape(out + dims * 2).transpose(
        [k + j * n for k in range(n) for j in range(3)]) \
        if arr.ndim == 3 else arr
    tens, bond = [], 1
    order = range(n - 1) if side == 'm' else range(n - 1, 0, -1)
    for k in order:
        e = np.eye(bond * size[k])
        if side == 'm':
            tens.append(e.reshape((bond, out[k], dims[k], dims[k], -1)))
        else:
            e = e.reshape((-1, out[k], dims[k], dims[k], bond))
            tens.insert(0, e)
        bond *= size[k]
    k = n - 1 if side == 'm' else 0
    last = t.reshape((bond, out[k], dims[k], dims[k], 1) if side == 'm' else
                     (1, out[k], dims[k], dims[k], bond)).astype(complex)
    return mpp.MPPovm(tens + [last] if side == 'm' else [last] + tens)


def state(fmt, dims, rk, cls, label):
    """(MPArray, dense density matrix (D, D)) normalised"""
    n = len(dims)
    D = int(np.prod(dims))
    if fmt == 'mps':
        s, ref = build([(d,) for d in dims], rk, cls, label)
        v = ref.ravel()
        nrm = np.linalg.norm(v)
        s = mp.MPArray([np.array(s.lt[0]) / nrm] + [np.array(t) for t in
                                                    list(s.lt)[1:]])
        v = v / nrm
        return s, np.outer(v, v.conj())
    if fmt == 'pmps':
        anc = [1 + (i + len(rk)) % 3 for i in range(n)]
        s, ref = build(list(zip(dims, anc)), rk, cls, label)
        g = local_to_global_ref(ref, n)
        m = g.reshape((D, -1))
        nrm = np.linalg.norm(m)
        s = mp.MPArray([np.array(s.lt[0]) / nrm] + [np.array(t) for t in
                                                    list(s.lt)[1:]])
        m = m / nrm
        return s, np.dot(m, m.conj().T)
    rho = psd_state(dims, cls, label, rank=max(1, max(rk) if rk else 2))
    return mpo_from_matrix(rho, dims), rho


def red(rho, dims, a, b):
    """Reduced density matrix on sites a..b-1"""
    n = len(dims)
    t = rho.reshape(tuple(dims) * 2)
    keep = list(range(a, b))
    for s in reversed(range(n)):
        if s not in keep:
            t = np.trace(t, axis1=s, axis2=s + t.ndim // 2)
    D = int(np.prod(dims[a:b]))
    return t.reshape((D, D))


def born(el, rho):
    return np.array([np.trace(np.dot(e, rho)) for e in el])


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5):
        for dims, spec in it.product(DIMS[n], MEAS[n]):
            for fmt in ('mps', 'pmps', 'mpdo'):
                rks = all_ranks(n, (1, 2, 4)) if n < 4 else \
                    [(2, 2, 2), (1, 3, 2), (2, 4, 1), (4, 1, 4), (1, 1, 1)]
                if q and n == 3:
                    rks = [(1, 1), (2, 2), (1, 4), (4, 2), (2, 4)]
                for rk in rks:
                    yield ('pmf', dims, spec, fmt, rk)
    for N in range(1, 5 if q else 6):
        for n in range(1, N + 1):
            for fmt in ('mps', 'pmps', 'mpdo'):
                yield ('win', N, n, fmt)
    for n in (1, 2, 3):
        for first in range(len(MEAS[n])):
            yield ('lists', n, first)
    # long chains: many split points of the symmetric algorithm
    for n in (6, 8) if q else (6, 8, 10):
        for pat in range(6):
            yield ('long', n, pat)
    for key in scale.CHAINS:
        yield ('scale',) + key
    yield ('reject',)
    for key in fine.c15_keys():
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c15(ctx, *(key + (state, born)))


def run_scale(ctx, *key):
    scale.c15(ctx, *key)


def spec_of(spec):
    return spec if isinstance(spec, str) else [
        s if isinstance(s, str) else tuple(s) for s in spec]


def gset(n):
    if n == 1:
        return ['raw', 'norm']
    return ['raw', 'c0:1', 'c{}:{}'.format(n - 1, n), 'norm']


def check_array(ctx, got, p, shape, what):
    got = np.asarray(got)
    ctx.check(got.shape == tuple(shape), lambda: '{}: shape {} expected {}'.format(
        what, got.shape, shape))
    ctx.check(got.dtype.kind == 'f', lambda: '{}: dtype {}'.format(what, got.dtype))
    ctx.check(bool((got >= 0).all()) and abs(got.sum() - 1) <= 1e-9,
              lambda: '{}: not a distribution: {}'.format(what, got))
    ctx.check(close(got.ravel(), p.real, 1., 1e-8), lambda: '{}: {} expected {}'
              .format(what, got.ravel()[:8], p.real[:8]))


def run_pmf(ctx, dims, spec, fmt, rk):
    dims = tuple(dims)
    n = len(dims)
    spec = spec_of(spec)
    povm0, el, out = measurement(spec, dims)
    check_povm(ctx, el, 'measurement')      # guards the reference itself
    ns = tuple(o for o in out if o > 1)
    for cls in 'crmM':
        if cls in 'mM' and (n == 1 or fmt == 'mpdo' and n > 2 and ctx.quick):
            continue
        st0, rho = state(fmt, dims, rk, 'c' if fmt == 'mpdo' and cls in 'mM' else cls,
                         'st')
        p = born(el, rho)
        if cls in 'mM':
            # local tensors with different dtypes
            for side in 'mM':
                povm = mixed(povm0, el, side)
                if povm is None:
                    continue
                what = 'mixed dtypes {} {} {} {} ranks {}'.format(
                    side, cls, fmt, dims, spec)
                ctx.step(what)
                ctx.check(close(dense(povm.pmf(st0, fmt)), p.reshape(out), 1.),
                          'pmf ' + what)
                for impl in ['auto', 'default'] + ['pmps-ltr', 'pmps-symm'] * (
                        fmt == 'pmps'):
                    check_array(ctx, povm.pmf_as_array(st0, fmt, impl=impl), p, ns,
                                'pmf_as_array {} {}'.format(impl, what))
        for i, (gs, gm) in enumerate(it.product(gset(n), repeat=2)):
            if cls in 'rmM' and i or ctx.quick and n > 2 and gs != gm and gm != 'raw':
                continue
            st, povm = st0.copy(), povm0.copy()
            apply_gauge(st, gs)
            apply_gauge(povm, gm)
            snaps = snapshot(st), snapshot(povm)
            what = '{} {} {} ranks {} gauges {} {}'.format(fmt, dims, spec, rk, gs, gm)
            for mode in [fmt] + ['auto'] * (fmt != 'pmps'):
                r = povm.pmf(st, mode)
                ctx.step('pmf {} {}'.format(mode, what))
                verify(ctx, r, p.reshape(out), 'pmf ' + what,
                       [(o,) for o in out], 1., norm=False)
                calls = [dict()]
                if i == 0 or not ctx.quick:
                    calls += [dict(impl='auto'), dict(impl='default'), dict(eps=1e-7)]
                if fmt == 'pmps':
                    calls += [dict(impl='pmps-ltr'), dict(impl='pmps-symm')]
                for kw in calls:
                    a = povm.pmf_as_array(st, mode, **kw)
                    ctx.step('pmf_as_array {} {}'.format(mode, kw))
                    check_array(ctx, a, p, ns, 'pmf_as_array {} {} {}'.format(
                        mode, kw, what))
                if mode == fmt and i == 0:
                    lst = list(povm.pmfs_as_array([st, st], mode))
                    arr = povm.pmfs_as_array(iter([st, st]), mode, asarray=True)
                    ctx.check(len(lst) == 2 and isinstance(arr, np.ndarray) and
                              np.shape(arr) == (2,) + ns,
                              'pmfs_as_array: ' + what)
                    for x in lst + list(arr):
                        check_array(ctx, x, p, ns, 'pmfs_as_array ' + what)
                    pm = mp.dot(povm.probability_map, (
                        mp.mps_to_mpo(st) if fmt == 'mps' else mp.pmps_to_mpo(st)
                        if fmt == 'pmps' else st).ravel())
                    ctx.check(close(dense(pm), p.reshape(out), 1.),
                              'probability_map ' + what)
            unchanged(ctx, st, snaps[0], what)
            unchanged(ctx, povm, snaps[1], what)
            ctx.state('pmf', dims, spec, fmt, gs, gm, fp(p))


def run_win(ctx, N, n, fmt):
    """Windows of longer states"""
    dimss = [(2,) * N]
    for dims in dimss:
        for spec, rk in it.product(MEAS[n], ((2,) * (N - 1), (1, 3, 1, 2)[:N - 1],
                                             (3, 1, 2, 1)[:N - 1])):
            spec = spec_of(spec)
            povm, el, out = measurement(spec, dims[:n])
            ns = tuple(o for o in out if o > 1)
            for gs in gset(N):
                if ctx.quick and gs not in ('raw', 'norm'):
                    continue
                st, rho = state(fmt, dims, rk, 'c', 'win')
                apply_gauge(st, gs)
                wins = [(a, a + n) for a in range(N - n + 1)]
                ps = [born(el, red(rho, dims, a, b)) for a, b in wins]
                what = 'window {} of {} {} {} gauge {}'.format(n, N, spec, fmt, gs)
                for mode in [fmt] + ['auto'] * (fmt != 'pmps'):
                    res = list(povm.expectations(st, mode))
                    ctx.step('expectations {} {}'.format(mode, what))
                    ctx.check(len(res) == len(wins), what + ': number of windows')
                    for p, r in zip(ps, res):
                        verify(ctx, r, p.reshape(out), 'expectations ' + what,
                               [(o,) for o in out], 1., norm=False)
                # same with operations on the state in between
                if fmt != 'mps' or not ctx.quick:
                    for op in (lambda: mp.norm(st), lambda: st.canonicalize(
                            left=N - 1), lambda: st.compress()):
                        gen = povm.expectations(st, fmt)
                        for p in ps:
                            r = next(gen)
                            op()
                            ctx.check(close(dense(r), p.reshape(out), 1.),
                                      what + ': depends on gauge changes in between')
                        ctx.step('interleaved')
                a = list(povm.block_pmfs_as_array(st, fmt))
                b = povm.block_pmfs_as_array(st, fmt, asarray=True)
                ctx.step('block_pmfs_as_array ' + what)
                ctx.check(len(a) == len(wins) and isinstance(b, np.ndarray) and
                          np.shape(b) == (len(wins),) + ns,
                          what + ': number of blocks')
                for p, x, y in zip(ps, a, b):
                    check_array(ctx, x, p, ns, 'block_pmfs ' + what)
                    check_array(ctx, y, p, ns, 'block_pmfs ' + what)
                for starts in it.product(range(len(wins)), repeat=2):
                    for kw in (dict(width=n, startsites=starts),
                               dict(startsites=starts,
                                    stopsites=[s + n for s in starts])):
                        c = povm.block_pmfs_as_array(st, fmt, asarray=True, **kw)
                        ctx.step('block_pmfs {}'.format(starts))
                        for s, x in zip(starts, c):
                            check_array(ctx, x, ps[s], ns, 'block_pmfs {} {}'.format(
                                kw, what))
                        if ctx.quick and gs != 'raw':
                            break
                # embedded measurement on the full chain
                if float(np.prod(out)) * 4 ** N < 3e4:
                    for s, p in enumerate(ps):
                        e = povm.embed(N, s, 2)
                        x = e.pmf_as_array(st, fmt)
                        ctx.step('embedded')
                        check_array(ctx, x, p, ns, 'embed at {} {}'.format(s, what))
                ctx.state('win', N, n, fmt, spec, rk, gs)


def run_lists(ctx, n, first):
    dims = (2,) * n
    ms = [measurement(spec_of(s), dims) for s in MEAS[n]]
    for k in (1, 2, 3):
        for rest in it.product(range(len(ms)), repeat=k - 1):
            sel = (first,) + rest
            if ctx.quick and k == 3 and (rest[0] != (first + 1) % len(ms) or
                                         len(set(sel)) < 3):
                continue
            lst = mpp.MPPovmList([ms[i][0] for i in sel])
            for fmt in ('mps', 'pmps', 'mpdo'):
                st, rho = state(fmt, dims, (2,) * (n - 1), 'c', 'ls')
                what = 'list {} {}'.format(sel, fmt)
                a = list(lst.pmf(st, fmt))
                b = list(lst.pmf_as_array(st, fmt))
                c = list(lst.pmfs_as_array([st] * k, fmt))
                ctx.step(what)
                ctx.check(len(a) == len(b) == len(c) == k, what + ': number')
                if fmt != 'pmps':
                    for i, x in zip(sel, lst.pmf_as_array(st)):
                        check_array(ctx, x, born(ms[i][1], rho),
                                    [o for o in ms[i][2] if o > 1], what)
                for i, x, y, z in zip(sel, a, b, c):
                    p = born(ms[i][1], rho)
                    ns = [o for o in ms[i][2] if o > 1]
                    ctx.check(close(dense(x), p.reshape(ms[i][2]), 1.),
                              what + ': pmf')
                    check_array(ctx, y, p, ns, what)
                    check_array(ctx, z, p, ns, what)
                # the i-th measurement on the i-th block
                N = n + k - 1
                st, rho = state(fmt, (2,) * N, (2,) * (N - 1), 'c', 'lb')
                same = len({ms[i][2] for i in sel}) == 1
                calls = [(dict(), range(k))]
                for starts in it.product(range(k), repeat=k):
                    if ctx.quick and k == 3 and len(set(starts)) != 2:
                        continue
                    calls.append((dict(width=n, startsites=starts), starts))
                    calls.append((dict(startsites=starts, stopsites=[
                        s + n for s in starts]), starts))
                for kw, starts in calls:
                    for asarray in (False,) + (True,) * same:
                        d = list(lst.block_pmfs_as_array(st, fmt, asarray, **kw))
                        ctx.step('block {} {}'.format(kw, what))
                        ctx.check(len(d) == k, what + ': number')
                        for i, s, y in zip(sel, starts, d):
                            check_array(ctx, y, born(ms[i][1], red(
                                rho, (2,) * N, s, s + n)),
                                [o for o in ms[i][2] if o > 1], 'block ' + what)
                ctx.state('lists', n, sel, fmt)


def run_long(ctx, n, pat):
    """Probabilities by an independent site-by-site contraction"""
    dims = (2,) * n
    letters = ['zzzzzzzzzz', 'z1z1z1z1z1', 'pzzzzzzzzz', 'zzzzzzzzzp', '1111111zzz',
               'zzz1111111'][pat][:n]
    rks = [(1, 2, 3, 4, 5, 4, 3, 2, 1), (4,) * 9, (2, 1, 2, 1, 2, 1, 2, 1, 2),
           (5, 4, 3, 2, 1, 1, 1, 1, 1)]
    els = [local_elements(c, 2) for c in letters]
    povm = mpp.MPPovm([e[None, ..., None].astype(complex) for e in els])
    out = tuple(len(e) for e in els)
    for rk in rks:
        rk = rk[:n - 1]
        for anc in (1, 2):
            ts = tensors([(2, anc)] * n, rk, 'c', 'long')
            # environment: nrm2 by transfer matrices
            env = np.ones((1, 1))
            for t in ts:
                env = np.einsum('ab,aijc,bijd->cd', env, t, t.conj())
            ts[0] = ts[0] / np.sqrt(env[0, 0].real)
            pm = mp.MPArray(ts)
            p = np.ones((1, 1, 1), complex)
            for t, e in zip(ts, els):
                p = np.einsum('xab,aijc,kli,bljd->xkcd', p, t, e, t.conj())
                p = p.reshape((-1,) + p.shape[2:])
            want = p[:, 0, 0]
            ns = tuple(o for o in out if o > 1)
            for impl in ('auto', 'pmps-symm', 'pmps-ltr'):
                got = povm.pmf_as_array(pm, 'pmps', impl=impl)
                what = 'long {} {} ranks {} {}'.format(n, letters, rk, impl)
                ctx.step(what)
                check_array(ctx, got, want, ns, what)
            if anc == 1:
                mps = mp.MPArray([t[:, :, 0, :] for t in ts])
                got = povm.pmf_as_array(mps, 'mps')
                check_array(ctx, got, want, ns, 'mps ' + what)
            ctx.state('long', n, pat, rk, anc)


def run_reject(ctx):
    povm, el, out = measurement('xy', (2, 2))
    st, _ = state('mps', (2, 2), (2,), 'c', 'rj')
    pm, _ = state('pmps', (2, 2), (2,), 'c', 'rj')
    op, _ = state('mpdo', (2, 2), (2,), 'c', 'rj')
    st3, _ = state('mps', (2, 2, 2), (2, 2), 'c', 'rj')
    neg = mpo_from_matrix(np.diag([1.5, -.5, 0, 0]), (2, 2))
    zz, _, _ = measurement('zz', (2, 2))
    st33, _ = state('mps', (3, 3), (2,), 'c', 'rj')
    rej = [
        ('length', lambda: povm.pmf(st3, 'mps')),
        ('length', lambda: povm.pmf_as_array(st3, 'mps')),
        ('length', lambda: list(mpp.MPPovmList([povm]).pmf(st3, 'mps'))),
        ('longer than the state', lambda: list(
            measurement('xyz', (2, 2, 2))[0].expectations(st, 'mps'))),
        ('mode', lambda: povm.pmf(st, 'foo')),
        ('impl', lambda: povm.pmf_as_array(pm, 'pmps', impl='foo')),
        ('norm', lambda: povm.pmf_as_array(2 * st, 'mps')),
        ('norm', lambda: povm.pmf_as_array(1.01 * pm, 'pmps')),
        ('norm', lambda: povm.pmf_as_array(.99 * op, 'mpdo')),
        ('negative', lambda: zz.pmf_as_array(neg, 'mpdo')),
        ('complex', lambda: povm.pmf_as_array(op * (1 + 1e-3j), 'mpdo')),
        ('dimension', lambda: povm.pmf_as_array(st33, 'mps')),
        ('dimension', lambda: povm.pmf(st33, 'mps')),
    ]
    for name, fun in rej:
        ctx.step('reject ' + name)
        rejects(ctx, fun, name)
