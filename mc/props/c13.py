"""C13 eigenvalue search: variational bounds and true eigenpairs."""
import functools as ft
import itertools as it

import numpy as np
from scipy.sparse.linalg import eigsh

import mpnum as mp
from mpnum.utils import physics

from ..lib import (apply_gauge, as_matrix, build, cform_error, close, dense,
                   eigs_dense, fp, global_to_local_ref, herm, maxabs,
                   mpo_from_matrix, op_matrix, rejects, rs, snapshot, tensor,
                   tt_tensors, unchanged)

RULE = ('a case is one (operator kind, site dimensions, window width, solver); '
        'every start vector, sweep count, gauge and splitting of the bound runs '
        'inside it')
ASSUMPTIONS = ['the local eigensolver passed in solves the local problem '
               'exactly (dense diagonalisation)',
               'operators are Hermitian']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(sites='2..{}'.format(4 if q else 5), dims='1..3 per site',
                operators=KINDS, var_sites='1..n-1', sweeps='1..3',
                start_ranks='all allowed vectors over 1..3 and full rank',
                splittings='one to three parts, MPO and MPS parts')


KINDS = ['r', 'c', 'one', 'zero', 'deg', 'proj', 'nproj', 'prod', 'local', 'neg',
         'i', 'big']
DIMS = [(2, 2), (3, 2), (2, 3), (2, 2, 2), (3, 2, 2), (2, 1, 2), (2, 3, 2),
        (2, 2, 2, 2)]
DIMS_T = [(3, 3, 3), (2, 3, 1, 2), (2, 2, 2, 2, 2)]


def matrix(kind, dims):
    """Hermitian matrix"""
    N = int(np.prod(dims))
    if kind in 'rc':
        return herm(N, kind, 'eig')
    if kind == 'i':
        a = tensor((N, N), 'i', 'eig')
        return a + a.T
    if kind == 'one':
        return np.eye(N)
    if kind == 'zero':
        return np.zeros((N, N))
    if kind == 'big':
        return 1e6 * herm(N, 'c', 'eigb')
    if kind == 'deg':
        # two-fold degenerate extremal eigenvalues with generic vectors
        w, u = np.linalg.eigh(herm(N, 'c', 'eigd'))
        w[0] = w[1] = -2.
        w[-1] = w[-2] if N > 3 else w[-1]
        return np.dot(u * w, u.conj().T)
    if kind in ('proj', 'nproj'):
        v = tensor((N,), 'c', 'eigp')
        v = v / np.linalg.norm(v)
        return (1 if kind == 'proj' else -1) * np.outer(v, v.conj())
    if kind == 'prod':
        m = np.ones((1, 1))
        for i, d in enumerate(dims):
            m = np.kron(m, herm(d, 'c', 'eigk', i))
        return m
    if kind == 'neg':
        m = herm(N, 'r', 'eign')
        return m - (maxabs(m) * N + 1.) * np.eye(N)
    if kind == 'local':
        m = np.zeros((N, N), dtype=complex)
        for i in range(len(dims) - 1):
            l, r = int(np.prod(dims[:i])), int(np.prod(dims[i + 2:]))
            h = herm(dims[i] * dims[i + 1], 'c', 'eigl', i)
            m = m + np.kron(np.eye(l), np.kron(h, np.eye(r)))
        return m
    raise ValueError(kind)


def solver(kind, which='SA'):
    def eigs(op, v0=None, **kw):
        m = as_matrix(op)
        assert v0 is not None and np.shape(v0) == (len(m),)
        w, u = np.linalg.eigh((m + m.conj().T) / 2)
        k = 0 if which == 'SA' else -1
        if which == 'LM':
            k = int(np.argmax(abs(w)))
        if kind == '2d':
            return w[k:][:1], u[:, k:][:, :1]
        if kind == '1d':
            return w[k:][:1], u[:, k]
        return w[k], u[:, k]          # '0d'
    return eigs


def cases(tier):
    q = tier == 'quick'
    for dims in DIMS + ([] if q else DIMS_T):
        n = len(dims)
        for kind in KINDS:
            for vs in range(1, n):
                yield ('eig', kind, dims, vs)
        for vs in range(1, n):
            for parts in PARTS:
                yield ('sum', parts, dims, vs)
            yield ('scipy', dims, vs)
    for dims, kind, vs in it.product([(2,) * 5, (2,) * 6, (3,) * 4],
                                     ('c', 'local', 'proj'), (1, 2, 3)):
        if vs < 3 or len(dims) < 6:
            yield ('eig', kind, dims, vs)
    yield ('reject',)
    yield ('cxy', 6 if q else 10)


PARTS = ['H', 'HH', 'v', 'Hv', 'vH', 'vv', 'HvH', 'Hvv', 'one']


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def full_ranks(dims):
    return tuple(min(int(np.prod(dims[:i])), int(np.prod(dims[i:])))
                 for i in range(1, len(dims)))


def start_ranks(dims, quick):
    n = len(dims)
    full = full_ranks(dims)
    out = []
    if n > 4 or np.prod(dims) > 50:
        return [(2,) * (n - 1), (1, 3, 2, 3, 1, 2)[:n - 1], full][:2 if n > 5 else 3]
    for rk in it.product((1, 2, 3), repeat=n - 1):
        ext = (1,) + rk + (1,)
        if (1, 1) in zip(ext[:-1], ext[1:]):
            continue
        if quick and n > 3 and 3 in rk and rk != (2, 3, 2):
            continue
        out.append(rk)
    for rk in (full, tuple(r + 1 for r in full)):
        ext = (1,) + rk + (1,)
        if rk not in out and (1, 1) not in zip(ext[:-1], ext[1:]):
            out.append(rk)
    return out


def vec(mpa):
    return dense(mpa).ravel()


def contract(ctx, H, ev, v, start_rk, dims, vs, what, tol, full=None):
    """Everything which must hold for every start vector

    full: extremal eigenvalue if the rank admits all states
    """
    w = np.linalg.eigvalsh(H)
    sc = max(abs(w).max(), 1e-300)
    ctx.check(abs(np.imag(ev)) <= tol * sc, lambda: '{}: eigenvalue {} is not '
              'real'.format(what, ev))
    ev = float(np.real(ev))
    ctx.check(w[0] - tol * sc <= ev <= w[-1] + tol * sc,
              lambda: '{}: eigenvalue {} outside of [{}, {}]'.format(
                  what, ev, w[0], w[-1]))
    ctx.check(isinstance(v, mp.MPArray) and
              tuple(v.shape) == tuple((d,) for d in dims),
              lambda: '{}: shape of the vector {}'.format(what, v.shape))
    ctx.check(max(v.ranks) <= max(start_rk), lambda: '{}: ranks {} exceed the '
              'limit {}'.format(what, v.ranks, start_rk))
    if vs == 1:
        ctx.check(all(a <= b for a, b in zip(v.ranks, start_rk)), lambda:
                  '{}: ranks {} start {}'.format(what, v.ranks, start_rk))
    err = cform_error(v.lt, 1e-7)
    ctx.check(err is None, lambda: '{}: {}'.format(what, err))
    x = vec(v)
    nrm = np.linalg.norm(x)
    isfull = all(a >= b for a, b in zip(start_rk, full_ranks(dims)))
    ctx.check(nrm <= 1 + 1e-8, lambda: '{}: norm {}'.format(what, nrm))
    ctx.check(abs(mp.norm(v.copy()) - nrm) <= 1e-8, what + ': norm')
    if vs == 1 or isfull:
        ctx.check(abs(nrm - 1) <= 1e-8, lambda: '{}: vector has norm {}'.format(
            what, nrm))
        e = np.vdot(x, np.dot(H, x))
        ctx.check(abs(e - ev) <= 10 * tol * sc, lambda: '{}: eigenvalue {} but '
                  'expectation value {}'.format(what, ev, e))
    if isfull and full is not None:
        ctx.check(abs(ev - full) <= 10 * tol * sc, lambda: '{}: eigenvalue {} '
                  'expected {}'.format(what, ev, full))
        res = np.linalg.norm(np.dot(H, x) - ev * x)
        ctx.check(res <= 100 * max(tol, 1e-8) * sc, lambda: '{}: not an '
                  'eigenvector, residual {}'.format(what, res))
        ctx.count('exact')
    return ev, isfull


def run_eig(ctx, kind, dims, vs):
    dims = tuple(dims)
    n = len(dims)
    H = matrix(kind, dims)
    w = np.linalg.eigvalsh(H)
    sc = max(abs(w).max(), 1e-300)
    generic = kind in 'rc'
    base = mpo_from_matrix(H, dims)
    forms = ['raw', 'c0:1', 'c{}:{}'.format(n - 1, n), 'dup']
    if ctx.quick:
        forms = ['raw', 'dup'] if kind in ('r', 'c', 'local') else ['raw']
        if kind == 'c':
            forms.append('c0:1')
    for form in forms:
        mpo = base.copy()
        if form == 'dup':
            mpo = mpo + 0.5 * mpo - 0.5 * mpo
        else:
            apply_gauge(mpo, form)
        for rk in start_ranks(dims, ctx.quick):
            for scls, g in (('c', 'raw'), ('r', 'scal'), ('z', 'raw'),
                            ('e', 'c0:1'), ('c', 'c{}:{}'.format(n - 1, n))):
                if form != 'raw' and (scls, g) != ('c', 'raw'):
                    continue
                if ctx.quick and not generic and scls in 're' and n > 2:
                    continue
                start, sref = build([(d,) for d in dims], rk, scls, 'start')
                sref = sref.ravel() * apply_gauge(start, g)
                eff = start.ranks
                ext = (1,) + tuple(eff) + (1,)
                if (1, 1) in zip(ext[:-1], ext[1:]):
                    continue        # gauge reduced the rank
                prev = None
                for sweeps in (1, 2) if ctx.quick else (1, 2, 3):
                    s = start.copy()
                    sH, sS = snapshot(mpo), snapshot(s)
                    sol = ('2d', '1d', '0d')[(sweeps + len(rk)) % 3]
                    if sol == '0d':
                        sol = '1d'
                    ev, v = mp.eig(mpo, num_sweeps=sweeps, var_sites=vs,
                                   startvec=s, eigs=solver(sol))
                    what = 'eig {} dims {} var_sites {} start {} {} {} sweeps {}' \
                        .format(kind, dims, vs, rk, scls, g, sweeps)
                    ctx.step(what)
                    ev, isfull = contract(ctx, H, ev, v, eff, dims, vs, what,
                                          1e-9, w[0])
                    unchanged(ctx, mpo, sH, what)
                    unchanged(ctx, s, sS, what)
                    if vs == 1:
                        if prev is not None:
                            ctx.check(ev <= prev + 1e-8 * sc, lambda: '{}: worse '
                                      'than with fewer sweeps {} {}'.format(
                                          what, ev, prev))
                        n2 = np.vdot(sref, sref).real
                        if n2 > 0:
                            e0 = np.vdot(sref, np.dot(H, sref)).real / n2
                            ctx.check(ev <= e0 + 1e-8 * sc, lambda: '{}: {} worse '
                                      'than the start vector {}'.format(what, ev, e0))
                    prev = ev
                    ctx.state('eig', kind, dims, vs, rk, scls, g, sweeps)
        if form != 'raw':
            continue
        # other end of the spectrum and random start vectors
        for rank, which, seed in it.product((2, 3, 8), ('LA', 'SA', 'LM'), (0, 1)):
            if ctx.quick and (seed and rank != 2 or rank == 3 and which != 'LA'):
                continue
            target = {'LA': w[-1], 'SA': w[0],
                      'LM': w[int(np.argmax(abs(w)))]}[which]
            if which == 'LM' and not (kind in ('c', 'r', 'proj', 'nproj', 'neg')):
                continue
            out = []
            for rep in (0, 1):
                out.append(mp.eig(mpo, num_sweeps=2, var_sites=vs,
                                  startvec_rank=rank, randstate=rs('e', seed),
                                  eigs=solver('2d', which)))
            what = 'eig {} dims {} var_sites {} rank {} {}'.format(
                kind, dims, vs, rank, which)
            ctx.step(what)
            contract(ctx, H, out[0][0], out[0][1], (rank,) * (n - 1), dims, vs,
                     what, 1e-9, target)
            ctx.check(abs(out[0][0] - out[1][0]) <= 1e-12 * sc and
                      close(vec(out[0][1]), vec(out[1][1]), 1., 1e-9),
                      what + ': not reproducible')


def part_ops(parts, dims):
    """[(MPArray, matrix)]"""
    N = int(np.prod(dims))
    res = []
    if parts == 'one':
        m = np.eye(N)
        return [(mpo_from_matrix(m, dims), m)]
    for i, c in enumerate(parts):
        if c == 'H':
            m = herm(N, 'rc'[i % 2], 'part', i)
            res.append((mpo_from_matrix(m, dims), m))
        else:
            rk = (2,) * (len(dims) - 1)
            v, ref = build([(d,) for d in dims], rk, 'cr'[i // 2], 'pv', i)
            x = ref.ravel()
            res.append((v, np.outer(x, x.conj())))
    return res


def run_sum(ctx, parts, dims, vs):
    dims = tuple(dims)
    n = len(dims)
    gen = 'H' in parts
    for g in ('raw', 'c0:1', 'c{}:{}'.format(n - 1, n)):
        ops = part_ops(parts, dims)
        for m, _ in ops:
            apply_gauge(m, g)
        H = sum(x for _, x in ops)
        w = np.linalg.eigvalsh(H)
        sc = max(abs(w).max(), 1e-300)
        total = mpo_from_matrix(H, dims)
        mpas = [m for m, _ in ops]
        for rk in start_ranks(dims, ctx.quick):
            for scls in 'cr':
                if ctx.quick and scls == 'r' and g != 'raw':
                    continue
                for which in ('SA', 'LA'):
                    target = w[0] if which == 'SA' else w[-1]
                    start, _ = build([(d,) for d in dims], rk, scls, 'start')
                    snaps = [snapshot(m) for m in mpas + [start]]
                    for sweeps in (1, 2):
                        if ctx.quick and sweeps == 2 and (scls == 'r' or g != 'raw'):
                            continue
                        arg = mpas if sweeps == 1 else iter(mpas)
                        ev, v = mp.eig_sum(arg, num_sweeps=sweeps, var_sites=vs,
                                           startvec=start,
                                           eigs=solver('2d', which))
                        what = 'eig_sum {} dims {} var_sites {} start {} {} ' \
                            'sweeps {} {}'.format(parts, dims, vs, rk, scls,
                                                  sweeps, which)
                        ctx.step(what)
                        contract(ctx, H, ev, v, start.ranks, dims, vs, what,
                                 1e-9, target)
                        for m, s in zip(mpas + [start], snaps):
                            unchanged(ctx, m, s, what)
                        ev2, v2 = mp.eig(total, num_sweeps=sweeps, var_sites=vs,
                                         startvec=start,
                                         eigs=solver('2d', which))
                        ctx.step('eig')
                        if gen and (parts != 'H' or True):
                            ctx.check(abs(ev - ev2) <= 1e-6 * sc, lambda:
                                      '{}: eigenvalue {}, eig of the sum {}'
                                      .format(what, ev, ev2))
                            a, b = vec(v), vec(v2)
                            ov = abs(np.vdot(a, b))
                            ctx.check(abs(ov - np.linalg.norm(a) *
                                          np.linalg.norm(b)) <= 1e-5, lambda:
                                      '{}: vector differs from eig of the sum, '
                                      'overlap {}'.format(what, ov))
                        ctx.state('sum', parts, dims, vs, g, rk, scls, which, sweeps)
        if g == 'raw':
            out = [mp.eig_sum(mpas, 1, vs, startvec_rank=8, randstate=rs('e'),
                              eigs=eigs_dense) for _ in (0, 1)]
            what = 'eig_sum {} dims {} random start'.format(parts, dims)
            contract(ctx, H, out[0][0], out[0][1], (8,) * (n - 1), dims, vs, what,
                     1e-9, w[0])
            ctx.check(close(vec(out[0][1]), vec(out[1][1]), 1., 1e-9),
                      what + ': not reproducible')


def run_scipy(ctx, dims, vs):
    """The documented solver, and the default (largest magnitude)"""
    dims = tuple(dims)
    n = len(dims)
    full = max(full_ranks(dims))
    # generic matrix with isolated extremal eigenvalues
    N = int(np.prod(dims))
    w = np.linspace(-1., 1., N) + 0.
    w[0], w[-1] = -2., 3.
    _, u = np.linalg.eigh(herm(N, 'c', 'sp'))
    H0 = np.dot(u * w, u.conj().T)
    mpo0 = mpo_from_matrix(H0, dims)
    psi, ref = build([(d,) for d in dims], (2,) * (n - 1), 'c', 'sp')
    # small enough to leave the order of the extremal eigenvalues
    fac = .3**.5 / np.linalg.norm(ref)
    psi, x = psi * fac, ref.ravel() * fac
    for rank, sign in it.product((2, full + 1), (1., -1.)):
        # sign < 0: the eigenvalue of largest magnitude is the lowest one
        H, mpo = H0 * sign, mpo0 * sign
        H2 = H + np.outer(x, x.conj())
        for kw, target in ((dict(), 3. * sign), (dict(eigs=ft.partial(
                eigsh, k=1, which='SA', tol=1e-8)), -2. if sign > 0 else -3.)):
            ev, v = mp.eig(mpo, 2, var_sites=vs, startvec_rank=rank,
                           randstate=rs('sp'), **kw)
            what = 'eig scipy dims {} var_sites {} rank {} {}'.format(
                dims, vs, rank, target)
            ctx.step(what)
            contract(ctx, H, ev, v, (rank,) * (n - 1), dims, vs, what, 1e-5,
                     target)
            ev, v = mp.eig_sum([mpo, psi], 2, var_sites=vs, startvec_rank=rank,
                               randstate=rs('sp'), **kw)
            ctx.step('eig_sum ' + what)
            w2 = np.linalg.eigvalsh(H2)
            t2 = w2[0] if kw else w2[int(np.argmax(abs(w2)))]
            contract(ctx, H2, ev, v, (rank,) * (n - 1), dims, vs,
                     'eig_sum ' + what, 1e-5, t2)
            ctx.state('scipy', dims, vs, rank, target)


def run_cxy(ctx, N):
    for gamma in (0., 0.5, -0.3, 1.):
        terms = physics.cXY_local_terms(N, gamma)
        mpo = physics.mpo_cH(terms)
        ev, v = mp.eig(mpo, 3, startvec_rank=8 if N == 6 else 24,
                       randstate=rs('cxy', gamma), eigs=solver('1d'))
        e0 = physics.cXY_E0(N, gamma)
        ctx.step('cXY {} {}'.format(N, gamma))
        ctx.check(abs(ev - e0) <= 1e-6, lambda: 'cXY N={} gamma={}: {} expected '
                  '{}'.format(N, gamma, ev, e0))


def run_reject(ctx):
    dims = (2, 2, 2)
    H = mpo_from_matrix(matrix('c', dims), dims)
    psi = build([(2,)] * 3, (2, 2), 'c', 'rj')[0]
    bad = build([(2,)] * 3, (1, 2), 'c', 'rj')[0]

    def two(op, v0=None):
        w, u = np.linalg.eigh(op)
        return w[:2], u[:, :2]
    for f, arg in ((mp.eig, H), (mp.eig_sum, [H, psi])):
        rej = [
            ('var_sites', lambda: f(arg, 1, 3, psi, eigs=eigs_dense)),
            ('var_sites', lambda: f(arg, 1, 4, psi, eigs=eigs_dense)),
            ('no start', lambda: f(arg, 1, 1, eigs=eigs_dense)),
            ('rank 1', lambda: f(arg, 1, 1, startvec_rank=1, eigs=eigs_dense)),
            ('ranks 1 1', lambda: f(arg, 1, 1, bad, eigs=eigs_dense)),
            ('two eigenvalues', lambda: f(arg, 1, 1, psi, eigs=two)),
            ('length', lambda: f(arg, 1, 1, build(
                [(2,)] * 4, (2, 2, 2), 'c', 'rj')[0], eigs=eigs_dense)),
            ('dimension', lambda: f(arg, 1, 1, build(
                [(3,)] * 3, (2, 2), 'c', 'rj')[0], eigs=eigs_dense)),
        ]
        for name, fun in rej:
            ctx.step('reject ' + name)
            rejects(ctx, fun, name)
    rejects(ctx, lambda: mp.eig_sum([H, build([(2,)] * 2, (2,), 'c', 'r')[0]], 1, 1,
                                    psi, eigs=eigs_dense), 'lengths differ')
