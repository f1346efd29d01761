"""C20 dense helper routines satisfy their mathematical definition."""
import itertools as it

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sl

import mpnum as mp
from mpnum.utils import (block_diag, matdot, mkron, partial_trace, randomized_svd,
                         truncated_svd)
from mpnum.utils import physics
from mpnum.utils.extmath import approx_range_finder
from mpnum.utils.pmf import project_nonneg, project_pmf

from .. import fine
from ..lib import (build, close, dense, fp, maxabs, op_matrix, rejects, rs,
                   snapshot, tensor, unchanged)

RULE = ('all shapes, axis choices, argument numbers, rank requests, flags and '
        'boundary values of the bound')
ASSUMPTIONS = ['matrix entries are deterministic representatives per value class',
               'randomised decompositions are compared with the exact ones only '
               'where the sketch is at least as large as the rank']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                block_diag='1..3 summands, 1..4 axes, every ordered axis choice '
                'with both signs', kron='1..4 factors',
                partial_trace='1..4 sites, every subset', svd='matrices up to 5x5, '
                'k = 1..7, ranks 1..5', pmf='all vectors of length 1..3 over an '
                '11-value boundary alphabet', xy_sites='2, 6, 10',
                gammas=len(GAMMAS), chain_terms='2..5 sites, dimension 2..3')


GAMMAS = [-9., -3, -1.2, -1, -.999, -.5, -.1, 0, .3, .7, .999, 1, 1.001, 1.5, 2, 4., 20]


def cases(tier):
    q = tier == 'quick'
    for nd in (1, 2, 3, 4):
        for na in range(1, nd + 1):
            for axes in it.permutations(range(nd), na):
                yield ('block', nd, axes)
    for n in (1, 2, 3, 4):
        yield ('kron', n)
    for n in (1, 2, 3, 4):
        yield ('ptrace', n)
    for m, n in it.product(range(1, 6), repeat=2):
        yield ('svd', m, n)
        yield ('rsvd', m, n)
    for m, n in ((12, 8), (8, 12), (20, 20), (3, 25), (25, 3)):
        yield ('rsvd', m, n)
    for n in (1, 2, 3):
        for kind in ('real', 'complex'):
            yield ('pmf', n, kind)
    yield ('scalar',)
    for N in (2, 6, 10):
        for gi in range(len(GAMMAS)):
            yield ('xy', N, gi)
    for N in (2, 3, 4, 5):
        for ldim in (2, 3):
            if ldim**N <= 81:
                yield ('chain', N, ldim)
    yield ('matdot',)
    yield ('reject',)
    for key in fine.c20_keys():
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c20(ctx, *key)


def run_block(ctx, nd, axes):
    other = [2, 3, 1, 2]
    sizes = [(1, 2, 3, 2), (2, 1, 1, 3), (3, 2, 2, 1)]
    for cls_set in (('r',), ('c', 'r'), ('r', 'c'), ('i', 'i', 'r'), ('i', 'i'),
                    ('r', 'i', 'c'), ('f', 'r'), ('f', 'f')):
        arrs = []
        for k, cls in enumerate(cls_set):
            sh = tuple(sizes[k][a] if a in axes else other[a] for a in range(nd))
            arrs.append(tensor(sh, cls, 'bd', nd, k))
        total = tuple(sum(a.shape[x] for a in arrs) if x in axes else other[x]
                      for x in range(nd))
        want = np.zeros(total, dtype=complex)
        start = {x: 0 for x in axes}
        for a in arrs:
            for idx in np.ndindex(*a.shape):
                tgt = tuple(i + start[x] if x in axes else i
                            for x, i in enumerate(idx))
                want[tgt] = a[idx]
            for x in axes:
                start[x] += a.shape[x]
        want = want.astype(np.result_type(*arrs)) if not any(
            a.dtype.kind == 'c' for a in arrs) else want
        for signs in it.product((0, 1), repeat=len(axes)):
            ax = tuple(x - nd if s else x for x, s in zip(axes, signs))
            for form in (tuple, list, np.array):
                ctx.step('block_diag', cls_set, ax)
                snaps = [snapshot(a) for a in arrs]
                axf = form(ax)
                ax0 = form(ax)
                got = block_diag(arrs, axes=axf)
                ctx.check(np.array_equal(axf, ax0), 'block_diag modified its axes')
                ctx.check(got.shape == total and close(got, want) and
                          got.dtype == np.result_type(*arrs),
                          lambda: 'block_diag {} axes {}: {} {} expected {}'.format(
                              [a.shape for a in arrs], ax, got.dtype, got, want))
                for a, s in zip(arrs, snaps):
                    unchanged(ctx, a, s, 'block_diag')
        ctx.state('bd', nd, axes, cls_set, fp(want))
    if axes == (0, 1):
        a = arrs[0]
        ctx.check(close(block_diag(arrs), want), 'default axes')
    if len(axes) < nd:
        free = [x for x in range(nd) if x not in axes][0]
        sh = list(arrs[0].shape)
        sh[free] += 1
        rejects(ctx, lambda: block_diag((arrs[0], np.zeros(sh)), axes=axes),
                'different sizes on another axis')


def run_kron(ctx, n):
    shapes = [(1, 1), (2, 2), (1, 3), (3, 2), (2,), (2, 1, 2)]
    for sel in it.product(range(len(shapes) if n < 4 else 4), repeat=n):
        args = [tensor(shapes[s], 'rci'[(k + s) % 3], 'kr', s, k)
                for k, s in enumerate(sel)]
        nd = max(a.ndim for a in args)
        pad = [a.reshape((1,) * (nd - a.ndim) + a.shape) for a in args]
        want = pad[0]
        for b in pad[1:]:
            w = np.multiply.outer(want, b)
            order = sum(([i, nd + i] for i in range(nd)), [])
            want = w.transpose(order).reshape(
                [x * y for x, y in zip(want.shape, b.shape)])
        ctx.step('mkron', sel)
        got = mkron(*args)
        ctx.check(got.shape == want.shape and close(got, want), lambda: 'mkron of {}'
                  .format([a.shape for a in args]))
        ctx.state('kron', sel)


def run_ptrace(ctx, n):
    for dims in it.product((1, 2, 3), repeat=n):
        if np.prod(dims) > 36:
            continue
        a = tensor(tuple(dims) * 2, 'c', 'pt', dims)
        snap = snapshot(a)
        for out in it.chain(*(it.combinations(range(n), k) for k in range(n + 1))):
            want = a
            for s in sorted(out, reverse=True):
                half = want.ndim // 2
                want = sum(np.take(np.take(want, i, axis=half + s), i, axis=s)
                           for i in range(dims[s]))
            for form in (tuple, list):
                ctx.step('partial_trace', dims, out)
                arg = form(out)
                got = partial_trace(a, arg)
                ctx.check(np.shape(got) == np.shape(want) and close(
                    np.asarray(got), np.asarray(want), maxabs(a)),
                    lambda: 'partial_trace {} over {}'.format(dims, out))
                ctx.check(arg == form(out), 'list of sites modified')
            ctx.state('pt', dims, out)
        unchanged(ctx, a, snap, 'partial_trace')
    if n > 1:
        rejects(ctx, lambda: partial_trace(np.zeros((2, 2, 2)), (0,)), 'odd number of '
                'legs')
        rejects(ctx, lambda: partial_trace(np.zeros((2,) * (2 * n)), (n,)),
                'site out of range')


def mats(m, n):
    for cls in 'rc':
        a = tensor((m, n), cls, 'mat', m, n)
        yield cls + ' full', a, min(m, n)
        for r in (1, 2, 3):
            if r < min(m, n):
                x = tensor((m, r), cls, 'ml', m, r)
                y = tensor((r, n), cls, 'mr', r, n)
                yield cls + ' rank {}'.format(r), x.dot(y), r
    e = np.eye(m, n)
    yield 'degenerate', e, min(m, n)


def svd_ok(ctx, a, u, s, v, k, what, exact=True, tol=1e-8):
    m, n = a.shape
    ctx.check(u.shape == (m, k) and s.shape == (k,) and v.shape == (k, n),
              lambda: '{}: shapes {} {} {} expected {} vectors'.format(
                  what, u.shape, s.shape, v.shape, k))
    ctx.check(bool((np.diff(s) <= 1e-9).all()) and bool((s >= 0).all()),
              lambda: '{}: singular values not descending: {}'.format(what, s))
    if not exact:
        true = np.linalg.svd(a, compute_uv=False)[:k]
        ctx.check(bool((s <= true * (1 + 1e-8) + 1e-9).all()),
                  '{}: singular value estimate too large'.format(what))
        return
    true = np.linalg.svd(a, compute_uv=False)[:k]
    sc = max(1., true[0])
    ctx.check(close(s, true, sc, tol), lambda: '{}: singular values {} expected {}'
              .format(what, s, true))
    ctx.check(close(u.conj().T.dot(u), np.eye(k), 1., tol) and
              close(v.dot(v.conj().T), np.eye(k), 1., tol),
              lambda: '{}: vectors not orthonormal'.format(what))
    # best approximation: the residual has the discarded singular values
    res = a - (u * s).dot(v)
    rest = np.linalg.svd(a, compute_uv=False)[k:]
    ctx.check(abs(np.linalg.norm(res) - np.linalg.norm(rest)) <= tol * sc * 10,
              lambda: '{}: not the best approximation'.format(what))


def run_svd(ctx, m, n):
    for name, a, r in mats(m, n):
        snap = snapshot(a)
        for k in range(1, 8):
            ctx.step('truncated_svd', m, n, name, k)
            u, s, v = truncated_svd(a, k)
            svd_ok(ctx, a, u, s, v, min(k, m, n), 'truncated_svd {} k={}'.format(
                name, k))
            ctx.state('svd', m, n, name, k)
        unchanged(ctx, a, snap, 'truncated_svd')


def run_rsvd(ctx, m, n):
    big = m * n > 25
    for name, a, r in mats(m, n):
        snap = snapshot(a)
        ks = (1, 2, 3, 5, 7) if not big else (1, 4)
        for k, over in it.product(ks, (0, 2, 10)):
            for tr, norm, ni in it.product(('auto', True, False),
                                           ('auto', 'QR', 'LU', 'none'),
                                           ('auto', 1, 3)):
                if norm == 'none' and ni != 1:
                    continue
                if ctx.quick and (k + over + len(str(tr)) + len(norm)) % 2:
                    continue
                what = 'randomized_svd {}x{} {} k={} over={} {} {} {}'.format(
                    m, n, name, k, over, tr, norm, ni)
                ctx.transitions += 1
                forms = [a]
                if tr == 'auto' and norm == 'auto' and ni == 'auto':
                    forms += [sp.csr_matrix(a), sl.aslinearoperator(a)]
                kk = min(k, m, n)
                ok = k + over >= r
                for f in forms:
                    u, s, v = randomized_svd(
                        f, k, n_oversamples=over, n_iter=ni, piter_normalizer=norm,
                        transpose=tr, randstate=np.random.RandomState(3))
                    svd_ok(ctx, a, u, s, v, kk, what, exact=ok and kk <= r,
                           tol=1e-6)
                    if ok and kk > r:
                        ctx.check(close((u * s).dot(v), a, maxabs(a), 1e-6),
                                  what + ': low rank matrix not reproduced')
        for sk in (1, 3, 6):
            q = approx_range_finder(a, sk, 2, randstate=np.random.RandomState(1))
            ctx.check(q.shape[0] == m and q.shape[1] <= sk, 'range finder shape')
            ctx.check(close(q.conj().T.dot(q), np.eye(q.shape[1]), 1., 1e-6),
                      'range finder not orthonormal')
            if sk >= r:
                ctx.check(close(q.dot(q.conj().T).dot(a), a, maxabs(a), 1e-6),
                          'range finder misses part of the range')
        unchanged(ctx, a, snap, 'randomized_svd')
        ctx.state('rsvd', m, n, name)


EPS = 1e-6
ALPHA = [-3 * EPS, -EPS / 2, 0., EPS / 2, .25, .5, .75, 1 - EPS / 4, 1., 1 + 3 * EPS,
         np.nan, np.inf, 1e-3]
IMAG = [0., EPS / 2, -EPS / 2, 3 * EPS, -3 * EPS, np.nan]


def run_pmf(ctx, n, kind):
    alpha = ALPHA if n < 3 or kind == 'real' else ALPHA[:2] + [.25, .5, 1.]
    for vals in it.product(alpha, repeat=n):
        ims = [(0.,) * n] if kind == 'real' else it.product(IMAG, repeat=n) \
            if n < 3 else [(0., 0., x) for x in IMAG] + [(x, 0., 0.) for x in IMAG]
        for im in ims:
            for trunc in (0., EPS, .3):
                for shape in {(n,), (n, 1), (1, n)} if kind == 'real' else {(n,)}:
                    x = np.array(vals) if kind == 'real' else \
                        np.array([complex(a, b) for a, b in zip(vals, im)])
                    x = x.reshape(shape)
                    keep = x.copy()
                    imok = not any(b != b or abs(b) > EPS for b in im)
                    reok = all(v == v and v >= -EPS for v in vals)
                    nonneg = np.array([0. if v <= trunc else v for v in vals]) \
                        .reshape(shape)
                    ctx.transitions += 1
                    if not (imok and reok):
                        rejects(ctx, lambda: project_nonneg(x.copy(), EPS, EPS, trunc),
                                'values {}'.format(x))
                        rejects(ctx, lambda: project_pmf(x.copy(), EPS, EPS, trunc),
                                'values {}'.format(x))
                        continue
                    y = x.copy()
                    got = project_nonneg(y, EPS, EPS, trunc)
                    ctx.check(got.dtype.kind == 'f' and got.shape == shape and
                              np.array_equal(got, nonneg), lambda: 'project_nonneg({}, '
                              'trunc={}): {}'.format(x, trunc, got))
                    if kind == 'real':
                        ctx.check(got is y, 'real input is not projected in place')
                    else:
                        ctx.check(np.array_equal(y, keep), 'complex input was modified')
                    s = nonneg.sum()
                    y = x.copy()
                    if not (abs(s - 1) <= EPS):
                        rejects(ctx, lambda: project_pmf(y, EPS, EPS, trunc),
                                'values {} with sum {}'.format(x, s))
                        continue
                    got = project_pmf(y, EPS, EPS, trunc)
                    ctx.check(got.dtype.kind == 'f' and got.shape == shape and
                              close(got, nonneg / s, 1., 1e-12) and
                              abs(got.sum() - 1) < 1e-12 and (got >= 0).all(),
                              lambda: 'project_pmf({}): {}'.format(x, got))
                    ctx.state('pmf', vals, im, trunc)


def run_scalar(ctx):
    for v, im, trunc in it.product(ALPHA, IMAG, (0., EPS, .3)):
        for x in [np.float64(v)] if im == 0. else [np.complex128(complex(v, im))]:
            ctx.transitions += 1
            ok = v == v and v >= -EPS and im == im and abs(im) <= EPS
            if not ok:
                rejects(ctx, lambda: project_nonneg(x, EPS, EPS, trunc),
                        'value {}'.format(x))
                continue
            got = project_nonneg(x, EPS, EPS, trunc)
            ctx.check(np.ndim(got) == 0 and not np.iscomplexobj(got) and
                      got == (0. if v <= trunc else v), lambda: 'project_nonneg({}): {}'
                      .format(x, got))
    # default tolerances
    rejects(ctx, lambda: project_pmf(np.array([.5, .5 + 1e-8])), 'sum off by 1e-8')
    rejects(ctx, lambda: project_pmf(np.array([1. + 1e-8, -1e-8])), 'negative -1e-8')
    rejects(ctx, lambda: project_pmf(np.array([.5 + 1e-8j, .5])), 'imaginary 1e-8')
    got = project_pmf(np.array([1., -1e-12, 0.]))
    ctx.check(np.array_equal(got, [1., 0., 0.]), 'tiny negative values')


def place(term, a, b, N, d):
    """Two-site operator (d*d, d*d) acting on sites a and b of N"""
    rest = [i for i in range(N) if i not in (a, b)]
    t = np.asarray(term).reshape((d,) * 4)
    for _ in rest:
        t = np.multiply.outer(t, np.eye(d))
    src = [a, b, N + a, N + b]
    for r in rest:
        src += [r, N + r]
    return np.moveaxis(t, list(range(2 * N)), src).reshape((d**N, d**N))


def run_xy(ctx, N, gi):
    g = GAMMAS[gi]
    X = np.array([[0, 1], [1, 0]]) / 2.
    Y = np.array([[0, -1j], [1j, 0]]) / 2.
    loc = (1 + g) * np.kron(X, X) + (1 - g) * np.kron(Y, Y)
    ctx.step('cXY', N, g)
    terms = physics.cXY_local_terms(N, g)
    ctx.check(len(terms) == N, 'number of terms')
    for t in terms:
        ctx.check(len(t) == 2 and close(op_matrix(t), loc), 'local term')
    E0 = physics.cXY_E0(N, g)
    ctx.check(np.ndim(E0) == 0 and np.isreal(E0), 'energy is not a real number')
    if N < 10:
        H = sum(place(loc, i, (i + 1) % N, N, 2) for i in range(N))
        e = np.linalg.eigvalsh(H)[0]
        Hm = op_matrix(physics.mpo_cH(terms))
        ctx.check(close(Hm, H), 'mpo_cH of the XY model')
        Hs = physics.sparse_cH(terms)
        ctx.check(sp.issparse(Hs) and close(Hs.toarray(), H), 'sparse_cH of the XY '
                  'model')
    else:
        H = sp.csr_matrix((2**N, 2**N), dtype=complex)
        for i in range(N - 1):
            H = H + sp.kron(sp.eye(2**i), sp.kron(loc, sp.eye(2**(N - i - 2))))
        for c, S in ((1 + g, X), (1 - g, Y)):
            H = H + c * sp.kron(S, sp.kron(sp.eye(2**(N - 2)), S))
        ctx.check(abs(H - physics.sparse_cH(terms)).max() < 1e-10, 'sparse_cH')
        v0 = rs('xy').randn(2**N)
        e = sl.eigsh(H.tocsr(), k=1, which='SA', v0=v0, tol=1e-12)[0][0]
    ctx.state('xy', N, g, round(float(e), 8))
    ctx.check(abs(E0 - e) <= 1e-7 * max(1, abs(e)), lambda: 'cXY_E0({}, {}) = {} but the '
              'smallest eigenvalue is {}'.format(N, g, E0, e))


def run_chain(ctx, N, d):
    """Cyclic Hamiltonian of arbitrary terms: the last one acts on the first
    and the last site"""
    for cls, sym in (('r', False), ('c', False), ('c', True)):
        ts = [tensor((d * d, d * d), cls, 'ch', N, d, i) for i in range(N)]
        if sym:
            ts = [(t + t.conj().T) / 2 for t in ts]
        mpos = [mp.MPArray.from_array_global(t.reshape((d,) * 4), ndims=2)
                for t in ts]
        H = sum(place(t, i, i + 1, N, d) for i, t in enumerate(ts[:-1]))
        H = H + place(ts[-1], 0, N - 1, N, d)
        snaps = [snapshot(m) for m in mpos]
        for form in (list, tuple):
            ctx.step('mpo_cH', N, d, cls)
            got = physics.mpo_cH(form(mpos))
            ctx.check(tuple(got.shape) == ((d, d),) * N and close(op_matrix(got), H),
                      lambda: 'mpo_cH {} sites dimension {}'.format(N, d))
            for mix in it.product((0, 1), repeat=N):
                terms = form(m if k else t for m, t, k in zip(mpos, ts, mix))
                got = physics.sparse_cH(terms, ldim=d)
                ctx.check(close(got.toarray(), H), lambda: 'sparse_cH {} sites '
                          'dimension {} (MPO flags {})'.format(N, d, mix))
        for m, s in zip(mpos, snaps):
            unchanged(ctx, m, s, 'cyclic Hamiltonian')
        ctx.state('chain', N, d, cls, fp(H))


def run_matdot(ctx):
    shapes = [(2,), (2, 3), (3, 2), (2, 2, 3), (3, 1, 2)]
    for s, t in it.product(shapes, repeat=2):
        a, b = tensor(s, 'c', 'ma', s), tensor(t, 'r', 'mb', t)
        if s[-1] == t[0]:
            want = a.reshape((-1, s[-1])).dot(b.reshape((t[0], -1))) \
                .reshape(s[:-1] + t[1:])
            ctx.step('matdot', s, t)
            ctx.check(close(matdot(a, b), want, maxabs(want)), 'matdot')
        else:
            rejects(ctx, lambda: matdot(a, b), 'matdot of {} {}'.format(s, t))
        for i, j in it.product(range(len(s)), range(len(t))):
            if s[i] == t[j]:
                want = np.moveaxis(a, i, -1).reshape((-1, s[i])).dot(
                    np.moveaxis(b, j, 0).reshape((t[j], -1))).reshape(
                        s[:i] + s[i + 1:] + t[:j] + t[j + 1:])
                ctx.check(close(matdot(a, b, axes=((i,), (j,))), want, maxabs(want)),
                          'matdot with axes')


def run_reject(ctx):
    for N in (1, 3, 4, 5, 7, 8, 9, 12, 16):
        rejects(ctx, lambda: physics.cXY_E0(N, .5), '{} sites'.format(N))
    for N in (2, 6, 10, 14, 18, 22):
        for g in (0., .5, 1., 2.):
            ctx.transitions += 1
            ctx.check(np.isfinite(physics.cXY_E0(N, g)) and physics.cXY_E0(N, g) < 0,
                      'energy of {} sites'.format(N))
            ctx.check(abs(physics.cXY_E0(N, g) - physics.cXY_E0(N, -g)) < 1e-9,
                      'energy must not depend on the sign of gamma')
    for p, m, i in ((physics.mpo_X, physics.pauli_X, 0),
                    (physics.mpo_Y, physics.pauli_Y, 1),
                    (physics.mpo_Z, physics.pauli_Z, 2)):
        want = [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]][i]
        ctx.check(close(op_matrix(p), np.array(want)) and close(m, np.array(want)),
                  'Pauli matrices')
