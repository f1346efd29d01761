"""Fine structure: nearly real, graded and nearly isometric tensors.

The results are compared at 1e-11 of the magnitude of the numbers involved
(values of the operation on absolute values of the tensors), so that dropping
small imaginary parts, small terms, small singular values, or skipping work for
nearly canonical tensors is a visible deviation.

Value classes: w real plus 1e-4 times imaginary; g slice k of the right bond is
scaled by 10**(-4 k); q isometry plus a perturbation of size 1e-5 (left of the
chain's middle: left isometries, otherwise right isometries); x complex g."""
import itertools as it

import numpy as np

import mpnum as mp

from .lib import (apply_gauge, close, cform_error, dense, dense_of,
                  global_to_local_ref, local_to_global_ref, matricize, maxabs, rs)

TOL = 1e-11
STRUCT = {
    'v2': (((3,), (4,)), (3,)),
    'v3': (((4,), (2,), (4,)), (4, 4)),
    'v4': (((2,), (3,), (2,), (3,)), (2, 5, 3)),
    'm3': (((2, 2), (3,), (2, 1, 2)), (3, 3)),
    'o3': (((2, 2),) * 3, (4, 3)),
}
CLASSES = 'wgqx'
GAUGES = ['raw', 'c0:1', 'cE:N', 'c1:2', 'norm', 'scal']


def bounds():
    return {'structures': {k: str(v) for k, v in sorted(STRUCT.items())},
            'value_classes': 'w real + 1e-4 i; g, x graded bonds 10**(-4 k), real '
            'and complex; q isometry + 1e-5', 'tolerance': TOL, 'angles': DELTAS}


def tens(shape, ranks, cls, *label):
    rk = (1,) + tuple(ranks) + (1,)
    n, out = len(shape), []
    for i, s in enumerate(shape):
        r = rs('fine', i, cls, label)
        full = (rk[i],) + tuple(s) + (rk[i + 1],)
        t = r.randn(*full)
        if cls == 'w':
            t = t + 1e-4j * r.randn(*full)
        elif cls in 'gx':
            if cls == 'x':
                t = t + 1j * r.randn(*full)
            t = t * 10. ** (-4. * np.arange(rk[i + 1]))
        elif cls == 'q':
            rows = full[0] * int(np.prod(s)) if i < n / 2 else full[0]
            m = t.reshape((rows, -1))
            wide = m.shape[0] < m.shape[1]
            q, _ = np.linalg.qr(m.T if wide else m)
            t = (q.T if wide else q).reshape(full) + 1e-5 * r.randn(*full)
        out.append(t)
    return out


def operand(ctx, name, cls, gauge, *label):
    """(MPArray, tensors, dense, magnitude)"""
    shape, ranks = STRUCT[name]
    ts = tens(shape, ranks, cls, name, *label)
    n = len(ts)
    m = mp.MPArray([t.copy() for t in ts])
    f = apply_gauge(m, gauge.replace('E', str(n - 1)).replace('N', str(n)))
    ts[0] = ts[0] * f
    ctx.step('build {} {} {}'.format(name, cls, gauge))
    return m, ts, dense_of(ts), mag(ts)


def mag(ts):
    return maxabs(dense_of([np.abs(t) for t in ts]))


def same(ctx, got, ref, scale, what, tol=TOL):
    """MPArray or number equal to the dense reference"""
    if isinstance(got, mp.MPArray):
        e = cform_error(got.lt, 1e-10)
        ctx.check(e is None, lambda: '{}: {}'.format(what, e))
        got = dense(got)
    got, ref = np.asarray(got), np.asarray(ref)
    ctx.step(what)
    ctx.check(close(got, ref, scale, tol), lambda: '{}: deviation {:.2e} of {:.2e} '
              '(shape {} expected {})'.format(
                  what, maxabs(got - ref) if got.shape == ref.shape else np.nan,
                  scale, got.shape, ref.shape))


def keys(names=None, classes=CLASSES, gauges=GAUGES):
    for name, cls, g in it.product(names or sorted(STRUCT), classes, gauges):
        yield ('fine', name, cls, g)


# -- C02 ----------------------------------------------------------------------
def c02(ctx, name, cls, g):
    a, ta, da, ma = operand(ctx, name, cls, g, 'a')
    b, tb, db, mb = operand(ctx, name, cls, 'raw', 'b')
    size = np.sqrt(da.size)
    for s in (1., 1e-3, 1e-6, -1e-9, 1e-12, 1e-5j):
        sc = ma + abs(s) * mb
        c = a + s * b
        same(ctx, c, da + s * db, sc, 'a + {} b'.format(s))
        same(ctx, mp.sumup([a, b, a], [1., s, -1.]), s * db, 2 * sc,
             'sumup, weights 1, {}, -1'.format(s))
        same(ctx, c - a, s * db, 2 * sc, '(a + {} b) - a'.format(s))
        same(ctx, mp.normdist(a, c), abs(s) * np.linalg.norm(db), 2 * size * sc,
             'normdist(a, a + {} b)'.format(s))
        same(ctx, s * b, s * db, abs(s) * mb, '{} b'.format(s))
        same(ctx, b / s, db / s, mb / abs(s), 'b / {}'.format(s))
        ctx.state(name, cls, g, s)
    same(ctx, a.conj(), da.conj(), ma, 'conj')
    same(ctx, -a, -da, ma, '-a')
    same(ctx, mp.norm(a.copy()), np.linalg.norm(da), size * ma, 'norm')
    same(ctx, a, da, ma, 'operand afterwards')


# -- C03 ----------------------------------------------------------------------
def c03(ctx, name, cls, g):
    shape = STRUCT[name][0]
    a, ta, da, ma = operand(ctx, name, cls, g, 'a')
    b, tb, db, mb = operand(ctx, name, cls, 'norm', 'b')
    sc = ma * mb * da.size
    same(ctx, mp.inner(a, b), np.vdot(da, db), sc, 'inner')
    same(ctx, mp.inner(b, a), np.vdot(db, da), sc, 'inner')
    same(ctx, a.sum(), da.sum(), ma * da.size, 'sum')
    n = len(shape)
    off = np.cumsum([0] + [len(s) for s in shape[:-1]])
    if all(len(s) > 1 for s in shape):
        same(ctx, a.sum([(0,)] * n), da.sum(tuple(off)), ma * da.size, 'sum first')
    same(ctx, a.get([s[0] - 1 for s in shape]),
         da[tuple(x for s in shape for x in [s[0] - 1] + [slice(None)] *
                  (len(s) - 1))], ma, 'get')
    same(ctx, mp.chain([a, b]), np.multiply.outer(da, db), ma * mb, 'chain')
    if name == 'o3':
        A = local_to_global_ref(da, n).reshape((8, 8))
        B = local_to_global_ref(db, n).reshape((8, 8))

        def loc(x):
            return global_to_local_ref(x.reshape((2,) * 6), n)
        same(ctx, mp.dot(a, b), loc(np.dot(A, B)), 8 * ma * mb, 'dot')
        same(ctx, mp.dot(b, a, axes=(0, 1)), loc(np.dot(A, B).T), 8 * ma * mb,
             'dot (0, 1)')
        same(ctx, mp.trace(a), np.trace(A), 8 * ma, 'trace')
        tv = tens(((2,),) * 3, (2, 2), cls, 'v')
        v, dv = mp.MPArray([t.copy() for t in tv]), dense_of(tv).ravel()
        same(ctx, mp.sandwich(a, v), np.vdot(dv, A.dot(dv)), 64 * ma * mag(tv)**2,
             'sandwich')
        same(ctx, mp.dot(a, v), A.dot(dv).reshape((2,) * 3), 8 * ma * mag(tv),
             'operator times vector')
        same(ctx, mp.partialtrace(a, [None, (0, 1), None]),
             np.trace(da, axis1=2, axis2=3), 2 * ma, 'partialtrace')
    ctx.state(name, cls, g)


# -- C01 ----------------------------------------------------------------------
def c01(ctx, name, cls, g):
    """Dense arrays with small components"""
    shape, ranks = STRUCT[name]
    n = len(shape)
    d = dense_of(tens(shape, ranks, cls, name, 'c01'))
    plegs = [len(s) for s in shape]
    for s in (1., 1e-7, 1e9):
        m = mp.MPArray.from_array(d * s, plegs)
        same(ctx, m, d * s, abs(s) * np.linalg.norm(d), 'from_array')
        ctx.check(tuple(map(tuple, m.shape)) == tuple(shape), 'from_array: shape')
        same(ctx, m.to_array(), d * s, abs(s) * np.linalg.norm(d), 'to_array')
    if len(set(plegs)) == 1:
        e = local_to_global_ref(d, n)
        m = mp.MPArray.from_array_global(e, plegs[0])
        same(ctx, m, d, np.linalg.norm(d), 'from_array_global')
        same(ctx, m.to_array_global(), e, np.linalg.norm(d), 'to_array_global')
        m = mp.MPArray.from_array(d, plegs[0])
        same(ctx, m, d, np.linalg.norm(d), 'from_array, one number of legs')
    facs = [t[0, ..., 0] for t in tens(shape, (1,) * (n - 1), cls, name, 'kron')]
    d = np.ones(())
    for k, f in enumerate(facs):
        facs[k] = f * 10. ** (-4 * k)
        d = np.multiply.outer(d, facs[k])
    same(ctx, mp.MPArray.from_kron(facs), d, maxabs(d), 'from_kron')
    ctx.state(name, cls)


# -- C04 ----------------------------------------------------------------------
def c04(ctx, name, cls, g):
    from . import scale
    ctx.tol = TOL
    try:
        scale.c04(ctx, name, cls, g)
    finally:
        del ctx.tol


# -- C05, C06 -----------------------------------------------------------------
def c06(ctx, name, cls, g):
    shape = STRUCT[name][0]
    n = len(shape)
    a, ta, da, ma = operand(ctx, name, cls, g, 'a')
    want = [np.linalg.svd(matricize(da, shape, k), compute_uv=False)
            for k in range(1, n)]
    pairs = [(l, r) for l in range(n) for r in range(l + 1, n + 1)] + [(None, None)]
    size = np.sqrt(da.size)
    for p, q in it.product(pairs, repeat=2):
        m = a.copy()
        for l, r in (p, q):
            old = m.canonical_form
            m.canonicalize(left=l, right=r)
            if l is not None:
                ctx.check(m.canonical_form[0] >= l and m.canonical_form[1] <= r,
                          lambda: 'canonicalize({}, {}): {}'.format(
                              l, r, m.canonical_form))
            same(ctx, m, da, ma, 'canonicalize({}, {}) after {}'.format(l, r, old))
        same(ctx, mp.norm(m), np.linalg.norm(da), size * ma, 'norm')
        same(ctx, m, da, ma, 'after norm')
        ctx.state(name, cls, g, p, q)
    for p in pairs:
        m = a.copy()
        m.canonicalize(left=p[0], right=p[1])
        svs = list(m.singularvals())
        ctx.check(len(svs) == n - 1, 'singularvals: number')
        for got, ref in zip(svs, want):
            k = max(len(got), len(ref))
            x, y = (np.concatenate([z, np.zeros(k - len(z))]) for z in (got, ref))
            same(ctx, x, y, size * ma, 'singularvals')
        same(ctx, m, da, ma, 'after singularvals')


# -- C09 ----------------------------------------------------------------------
def c09(ctx, name, cls, g):
    shape = STRUCT[name][0]
    n = len(shape)
    a, ta, da, ma = operand(ctx, name, cls, g, 'a')
    size = np.sqrt(da.size)
    nrm = np.linalg.norm(da)
    for direction in (None, 'left', 'right'):
        for kw in ({}, {'relerr': 0.}, {'rank': 40}, {'relerr': 1e-15}):
            m = a.copy()
            ov = m.compress('svd', direction=direction, **kw)
            same(ctx, m, da, max(ma, nrm), 'compress({}, {})'.format(direction, kw))
            same(ctx, ov, nrm**2, (size * ma)**2,
                 'overlap of compress({}, {})'.format(direction, kw), 1e-10)
            c, ov = a.compression('svd', direction=direction, **kw)
            same(ctx, c, da, max(ma, nrm), 'compression({}, {})'.format(direction, kw))
        if cls in 'gx':
            # truncation errors are far apart: they are resolved exactly
            svs = [np.linalg.svd(matricize(da, shape, k), compute_uv=False)
                   for k in range(1, n)]
            for rank in range(1, max(STRUCT[name][1])):
                c, ov = a.compression('svd', rank=rank, direction=direction)
                tail = np.sqrt(sum((s[rank:]**2).sum() for s in svs))
                best = max([np.sqrt((s[rank:]**2).sum()) for s in svs])
                err = np.linalg.norm(dense(c) - da)
                ctx.step('compression rank {}'.format(rank))
                ctx.check(max(c.ranks) <= rank and
                          best * (1 - 1e-6) - 1e-12 * size * ma <= err <=
                          tail * (1 + 1e-6) + 1e-12 * size * ma,
                          lambda: 'compression rank {} {}: error {:.3e}, bounds '
                          '{:.3e} {:.3e}'.format(rank, direction, err, best, tail))
                e = cform_error(c.lt, 1e-10)
                ctx.check(e is None, e)
    same(ctx, a, da, ma, 'operand afterwards')
    ctx.state(name, cls, g)


# -- C11 ----------------------------------------------------------------------
def c11_keys():
    for leg, w, cls in it.product([(2, 2), (3,), (2, 1)], (1, 2, 3), 'wgqx'):
        yield ('fine', leg, w, cls)


def c11(ctx, leg, w, cls):
    leg = tuple(leg)
    k = 3
    emb = np.eye(*leg) if leg[0] == leg[-1] and len(leg) == 2 else \
        rs('emb', leg).randn(*leg)
    for scales in it.permutations((1., 1e-6, 1e-10)):
        terms, ref, sc = [], 0, 0
        for i, s in enumerate(scales):
            ts = tens((leg,) * w, (2,) * (w - 1), cls, 'term', i)
            ts[-1] = ts[-1] * s
            d = np.ones(())
            for x in [emb] * i + [dense_of(ts)] + [emb] * (k - 1 - i):
                d = np.multiply.outer(d, x)
            ref, sc = ref + d, sc + s * mag(ts) / abs(s) * maxabs(emb)**(k - 1)
            terms.append((mp.MPArray(ts), d, s))
        got = mp.local_sum([t for t, _, _ in terms], embed_tensor=emb)
        same(ctx, got, ref, sc, 'local_sum {}'.format(scales))
        # every term is there: subtract the others
        for i, (_, d, s) in enumerate(terms):
            rest = dense(got) - sum(x for j, (_, x, _) in enumerate(terms) if j != i)
            ctx.check(close(rest, d, sc, TOL), 'term {} of {}'.format(i, scales))
        full = mp.local_sum([t for t, _, _ in terms], embed_tensor=emb,
                            length=w + k - 1, slices=[slice(i, i + w) for i in
                                                      range(k)])
        same(ctx, full, ref, sc, 'local_sum with slices {}'.format(scales))
        ctx.state(leg, w, cls, scales)


# -- C12 ----------------------------------------------------------------------
def c12(ctx, name, cls, g):
    """States and purifications with fine structure"""
    dims = {'v2': (3, 4), 'v3': (4, 2, 4), 'v4': (2, 3, 2, 3)}[name]
    ranks = STRUCT[name][1]
    n = len(dims)
    for anc in ((1,) * n, (2,) + (1,) * (n - 2) + (3,)):
        ts = tens(list(zip(dims, anc)), ranks, cls, 'c12', name)
        m = mp.MPArray([t.copy() for t in ts])
        f = apply_gauge(m, g.replace('E', str(n - 1)).replace('N', str(n)))
        ts[0] = ts[0] * f
        psi = local_to_global_ref(dense_of(ts), n).reshape((int(np.prod(dims)), -1))
        sc = mag(ts)**2 * psi.size
        rho = np.dot(psi, psi.conj().T).reshape(dims * 2)

        def red(keep):
            r, left = rho, list(range(n))
            for s in reversed(range(n)):
                if s not in keep:
                    r = np.trace(r, axis1=s, axis2=s + len(left))
                    left.remove(s)
            return global_to_local_ref(r, len(left))
        full = mp.pmps_to_mpo(m)
        same(ctx, full, red(range(n)), sc, 'pmps_to_mpo')
        for w in range(1, n + 1):
            for (what, f) in [('reductions_pmps', lambda: (
                    mp.pmps_to_mpo(x) for x in mp.reductions_pmps(m, w))),
                    ('reductions_mpo', lambda: mp.reductions_mpo(full, w))]:
                res = list(f())
                ctx.check(len(res) == n - w + 1, what + ': number')
                for k, x in enumerate(res):
                    same(ctx, x, red(range(k, k + w)), sc, what)
        for keep in it.combinations(range(n), max(1, n - 1)):
            x = dense(mp.pmps_to_mpo(mp.pmps_reduction(m, list(keep))))
            same(ctx, x.reshape([k for k in x.shape if k > 1]), red(keep), sc,
                 'pmps_reduction {}'.format(keep))
        if max(anc) == 1:
            s = mp.pmps_to_mps(m)
            same(ctx, s, dense_of([t[:, :, 0] for t in ts]), mag(ts), 'pmps_to_mps')
            same(ctx, mp.mps_to_mpo(s), red(range(n)), sc, 'mps_to_mpo')
            for k, x in enumerate(mp.reductions_mps_as_mpo(s, n - 1)):
                same(ctx, x, red(range(k, k + n - 1)), sc, 'reductions_mps_as_mpo')
            for k, x in enumerate(mp.reductions_mps_as_pmps(s, n - 1)):
                same(ctx, mp.pmps_to_mpo(x), red(range(k, k + n - 1)), sc,
                     'reductions_mps_as_pmps')
            same(ctx, mp.mps_to_pmps(s), dense_of(ts), mag(ts), 'mps_to_pmps')
    ctx.state(name, cls, g)


# -- C15, C17 -----------------------------------------------------------------
def rotated(dim, delta, phase=1j):
    """Projective measurement, basis rotated by a small angle: imaginary parts
    of size delta"""
    v = np.eye(dim, dtype=complex)
    c, s = np.cos(delta), np.sin(delta)
    v[0, 0] = v[1, 1] = c
    v[0, 1], v[1, 0] = phase * s, np.conj(phase) * -s
    return np.array([np.outer(x, x.conj()) for x in v])


DELTAS = (1e-2, 1e-3, 1e-4)


def c15_keys():
    for n, delta in it.product((1, 2, 3), DELTAS):
        for fmt in ('mps', 'pmps', 'mpdo'):
            yield ('fine', n, delta, fmt)


def c15(ctx, n, delta, fmt, state, born):
    import mpnum.povm as mpp
    dims = (2, 3, 2)[:n]
    for phase, pattern in it.product((1j, 1., (1 + 1j) / np.sqrt(2)),
                                     it.product((0, 1), repeat=n)):
        loc = [rotated(d, delta, phase) if k else
               np.array(list(mpp.z_povm(d))) for d, k in zip(dims, pattern)]
        povm = mpp.MPPovm.from_kron(loc)
        el = np.ones((1, 1, 1))
        for x in loc:
            el = np.einsum('kij,lpq->klipjq', el, x)
            s = el.shape
            el = el.reshape((s[0] * s[1], s[2] * s[3], s[4] * s[5]))
        out = tuple(map(len, loc))
        for cls in 'rc':
            st, rho = state(fmt, dims, (2,) * (n - 1), cls, 'fine')
            p = born(el, rho).real
            same(ctx, povm.pmf(st, fmt), p.reshape(out), 1., 'pmf')
            same(ctx, povm.pmf_as_array(st, fmt), p.reshape(out), 1.,
                 'pmf_as_array', 1e-9)
            if fmt == 'pmps':
                for impl in ('pmps-ltr', 'pmps-symm', 'default'):
                    same(ctx, povm.pmf_as_array(st, fmt, impl=impl), p.reshape(out),
                         1., 'pmf_as_array ' + impl, 1e-9)
            lst = mpp.MPPovmList([povm, povm])
            for x in lst.pmf_as_array(st, fmt):
                same(ctx, x, p.reshape(out), 1., 'list pmf_as_array', 1e-9)
            ctx.state(n, delta, fmt, phase, pattern, cls)


def c17_keys():
    for n, delta in it.product((1, 2, 3), DELTAS):
        yield ('fine', n, delta)


def c17(ctx, n, delta, state, born):
    """Measurements which differ by a small rotation have no common elements"""
    import mpnum.povm as mpp
    dims = (2,) * n
    for phase, pattern in it.product((1j, 1.), it.product((0, 1), repeat=n)):
        z = np.array(list(mpp.z_povm(2)))
        rot = rotated(2, delta, phase)
        a = mpp.MPPovm.from_kron([z] * n)
        b = mpp.MPPovm.from_kron([rot if k else z for k in pattern])
        for x, y in ((a, b), (b, a)):
            m, pre = x.match_elems(y)
            ctx.step('match_elems, angle {}'.format(delta))
            if any(pattern):
                ctx.check(not m.any() and np.isnan(pre).all(),
                          lambda: 'elements which differ by a rotation of {} match'
                          .format(delta))
            else:
                eye = np.eye(2**n, dtype=bool)
                ctx.check((m.reshape(eye.shape) == eye).all() and
                          close(pre[m], np.ones(2**n)), 'own elements do not match')
            rec = np.array(list(np.ndindex(*dims)) * 3, dtype=np.uint8)
            p, ns = x.est_pmf_from(y, rec)
            ctx.step('est_pmf_from')
            if any(pattern):
                ctx.check(np.isnan(p).all() and ns == 0, lambda: 'est_pmf_from a '
                          'measurement without common elements: {} {}'.format(p, ns))
            else:
                ctx.check(close(p.ravel(), np.ones(2**n) / 2**n) and
                          ns == len(rec), lambda: 'est_pmf_from: {} {}'.format(p, ns))
            l = mpp.MPPovmList([x])
            r = mpp.MPPovmList([y, x])
            recs = [rec, rec[:2**n + 1]]
            q, k = zip(*l.est_pmf_from(r, recs))
            want = rec[:2**n + 1] if any(pattern) else np.concatenate(recs)
            cnt = np.bincount(np.ravel_multi_index(want.T, dims), minlength=2**n)
            ctx.step('list est_pmf_from')
            ctx.check(bool((k[0] == len(want)).all()) and close(q[0].ravel(), cnt / len(want)),
                      lambda: 'list est_pmf_from: {} {}'.format(q, k))
            ctx.state(n, delta, phase, pattern)


# -- C20 ----------------------------------------------------------------------
def c20_keys():
    for m, n, cls in it.product((2, 4, 9), (3, 4, 8), 'wgx'):
        yield ('fine', m, n, cls)


def c20(ctx, m, n, cls):
    """Matrices with small columns or small imaginary parts"""
    from mpnum.utils import block_diag, matdot, mkron, partial_trace, truncated_svd
    a, b = (tens(((m,), (n,)), (k,), cls, 'c20', m, n, k) for k in (4, 2))
    a, b = dense_of(a), dense_of(b)
    u, s, v = np.linalg.svd(a, full_matrices=False)
    for k in range(1, min(m, n) + 2):
        x, y, z = truncated_svd(a, k)
        ctx.step('truncated_svd {}'.format(k))
        ctx.check(len(y) == min(k, len(s)) and x.shape == (m, len(y)) and
                  z.shape == (len(y), n), 'truncated_svd: shapes')
        same(ctx, y, s[:k], s[0], 'truncated_svd: values')
        for q in (x.conj().T.dot(x), z.dot(z.conj().T)):
            same(ctx, q, np.eye(len(y)), 1., 'truncated_svd: isometries')
        err = np.linalg.norm(np.dot(x * y, z) - a)
        same(ctx, err, np.linalg.norm(s[k:]), s[0], 'truncated_svd: error')
    for t in (1., 1e-7, 1e-11):
        same(ctx, block_diag((a, t * b), (0, 1)),
             np.concatenate([np.concatenate([a, np.zeros((m, n))], 1),
                             np.concatenate([np.zeros((m, n)), t * b], 1)], 0),
             maxabs(a), 'block_diag', 1e-13 * t)
        same(ctx, mkron(a, t * b), np.kron(a, t * b), t * maxabs(a) * maxabs(b),
             'mkron')
    same(ctx, matdot(a, b.T), np.dot(a, b.T), n * maxabs(a) * maxabs(b), 'matdot')
    r = mkron(np.dot(a, b.T), np.dot(b, a.T)).reshape((m,) * 4)
    same(ctx, partial_trace(r.reshape((m,) * 4), (1,)),
         np.einsum('ijkj->ik', r), m * maxabs(r), 'partial_trace')
    ctx.state(m, n, cls)
