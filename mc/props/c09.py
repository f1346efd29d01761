"""C09 SVD compression: overlap, rank, relative error and direction contract."""
import itertools as it

import numpy as np

import mpnum as mp
from mpnum.utils import truncated_svd

from .. import fine, scale
from ..lib import (all_ranks, build, cform_error, close, dense, fp, gauges,
                   matricize, maxabs, prepared, rejects, snapshot, tensors, tol_of,
                   unchanged, verify)

RULE = ('a case is one (leg structure, rank vector, value class); all gauges, '
        'rank limits, error limits, directions and both variants (copying, in '
        'place) run inside it')
ASSUMPTIONS = ['the uniqueness part (result equals the dense rounding) is only '
               'asserted where the spectrum has a gap at the truncation']
LEGS = [(2,), (3,), (2, 2), (1,)]
RANKS = [None, 1, 2, 3, 7]
RELERR = [None, 0., 1e-6, .1, .3, .7, 1.]
DIRS = [None, 'left', 'right']


def BOUNDS(tier):
    return dict(fine_structure=fine.bounds(),
                larger_structures=scale.bounds(),
                sites='1..4' if tier == 'quick' else '1..5',
                legs=[str(x) for x in LEGS], rank_limits=RANKS,
                relerr_limits=RELERR, directions=DIRS,
                value_classes='r c i f F z o e d t h m M n')


def shapes(n, q):
    if n <= 2 or (n == 3 and not q):
        return list(it.product(LEGS, repeat=n))
    base = [[LEGS[0]] * n, [LEGS[2]] * n,
            [LEGS[i % 2] for i in range(n)], [LEGS[2]] + [LEGS[0]] * (n - 1),
            [LEGS[0]] * (n - 1) + [LEGS[3]], [LEGS[3]] + [LEGS[1]] * (n - 1)]
    if n == 3:
        base.append([LEGS[0], LEGS[3], LEGS[0]])
    return [tuple(b) for b in base]


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5 if q else 6):
        if n < 3:
            rks = all_ranks(n, (1, 2, 3, 4))
        elif n == 3:
            rks = [(2, 2), (1, 2), (2, 4), (4, 1), (4, 4)] if q else all_ranks(n, (1, 2, 3, 4))
        else:
            rks = [(2, 2, 2, 2), (2, 4, 2, 2), (3, 2, 4, 1), (1, 3, 3, 2)]
            rks = [r[:n - 1] for r in rks]
        for shape in shapes(n, q):
            for rk in rks:
                for cls in 'rcifFzoedthmMn':
                    if cls in 'th' and n > 3:
                        continue
                    if n >= 3 and q and cls in 'fFioth' and len(set(rk)) > 1:
                        continue
                    yield ('svd', shape, rk, cls)
    for key in scale.keys(sorted(scale.STRUCT), gauges=('raw', 'norm', 'cE:N')):
        yield key
    for n in (2, 3):
        yield ('reject', n)
    for key in fine.keys(gauges=('raw', 'norm', 'cE:N')):
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c09(ctx, *key)


def run_scale(ctx, *key):
    scale.c09(ctx, *key)


def spectra(ref, shape):
    return [np.linalg.svd(matricize(ref, shape, k), compute_uv=False)
            for k in range(1, len(shape))]


def reference(ref, shape, rank, relerr, direction):
    """Dense rounding.  Returns (tensor, ranks, unique)"""
    n = len(shape)
    cuts = range(1, n) if direction == 'right' else range(n - 1, 0, -1)
    cur, ranks, unique = np.array(ref), {}, True
    for cut in cuts:
        m = matricize(cur, shape, cut)
        u, s, v = np.linalg.svd(m, full_matrices=False)
        tot = s.sum()
        r = len(s) if rank is None else min(rank, len(s))
        if relerr is not None and tot > 0:
            frac = np.cumsum(s) / tot
            ok = [k + 1 for k in range(len(s)) if frac[k] >= 1 - relerr]
            r2 = ok[0] if ok else len(s)
            # thresholds hit within rounding: not decided here
            if np.min(np.abs(frac - (1 - relerr))) < 1e-9:
                if relerr > 0 or True:
                    unique = unique and relerr == 0.
            r = min(r, r2)
        nz = int(np.sum(s > 1e-10 * max(s[0], 1e-300))) if s[0] > 0 else 0
        if r < nz and s[r - 1] - s[r] < 1e-6 * s[0]:
            unique = False
        ranks[cut] = r
        cur = np.dot(u[:, :r] * s[:r], v[:r]).reshape(ref.shape)
    return cur, [ranks[k] for k in range(1, n)], unique


def run_svd(ctx, shape, ranks, cls):
    n = len(shape)
    gs = gauges(n, full=n <= 2 and cls in 'rc' or not ctx.quick)
    if n > 2 and ctx.quick:
        gs = ['raw', 'c0:1', 'c{}:{}'.format(n - 1, n), 'c1:2', 'scal']
        if cls in 'zotdeth':
            gs = ['raw', 'c1:2']
    cache = {}
    for k, g in enumerate(gs):
        u, ref = prepared(ctx, shape, ranks, cls, g)
        tol = tol_of(*[t.dtype for t in u.lt]) * (1 if n < 4 else 2)
        spec = spectra(ref, shape)
        mag2 = float(np.prod([np.linalg.norm(np.asarray(t, complex))**2 for t in
                              tensors(shape, ranks, cls)])) * 10
        for rank, relerr, direction in it.product(RANKS, RELERR, DIRS):
            if ctx.quick and k > 0:
                # gauges: fewer limit combinations
                if (rank, relerr) not in ((None, None), (1, None), (2, None),
                                          (None, .3), (2, .1), (None, 0.)):
                    continue
            if ctx.quick and cls not in 'rc' and (rank == 7 or relerr in (1e-6, .7)):
                continue
            if ctx.quick and rank in (3, 7) and relerr not in (None, .3):
                continue
            one(ctx, u, ref, spec, shape, rank, relerr, direction, tol, g, cls,
                mag2, cache)
    if n > 1 and cls in 'rc':
        variants(ctx, shape, ranks, cls)


def one(ctx, u, ref, spec, shape, rank, relerr, direction, tol, g, cls, mag2,
        cache):
    n = len(shape)
    kw = {}
    if rank is not None:
        kw['rank'] = rank
    if relerr is not None:
        kw['relerr'] = relerr
    if direction is not None:
        kw['direction'] = direction
    what = 'compression({}) of {}'.format(kw, g)
    # scale: the norm, or the rounding level if the sum cancels
    nrm2 = max(float(np.linalg.norm(np.asarray(ref, complex))**2), 1e-14 * mag2)
    before = dense(u)
    old = u.ranks
    c, ov = u.compression('svd', **kw) if kw else u.compression()
    ctx.step(what)
    ctx.check(bool(np.all(before == dense(u))), what + ': operand modified')
    cd = dense(c).astype(complex)
    ctx.check(tuple(map(tuple, c.shape)) == tuple(map(tuple, shape)),
              what + ': shape changed')
    err = cform_error(c.lt, max(tol, 1e-7))
    ctx.check(err is None, lambda: what + ': ' + err)
    # overlap
    ctx.check(np.ndim(ov) == 0 and abs(np.imag(ov)) == 0,
              lambda: what + ': overlap is not a real number: %r' % (ov,))
    cc = np.linalg.norm(cd)**2
    uc = np.vdot(np.asarray(ref, complex), cd)
    sc = nrm2 * tol * 10 + 1e-290
    ctx.check(abs(ov - cc) <= sc and abs(ov - uc) <= sc,
              lambda: '{}: overlap {} but <c|c>={}, <u|c>={}, <u|u>={}'.format(
                  what, ov, cc, uc, nrm2))
    # ranks
    if n > 1:
        lim = rank if rank is not None else max(old)
        ctx.check(max(c.ranks) <= lim, lambda: '{}: ranks {}'.format(what, c.ranks))
        ctx.check(all(x <= y for x, y in zip(c.ranks, old)),
                  lambda: '{}: ranks increased {} -> {}'.format(what, old, c.ranks))
        if rank is not None or relerr is not None:
            tail = sum(float(np.sum(s[r:]**2)) for s, r in zip(spec, c.ranks))
            e2 = np.linalg.norm(cd - ref)**2
            ctx.check(e2 <= tail * (1 + 1e-6) + sc * 10,
                      lambda: '{}: squared error {} exceeds discarded weight {}'
                      .format(what, e2, tail))
        lcan, rcan = c.canonical_form
        if direction is not None:
            want = (n - 1, n) if direction == 'right' else (0, 1)
            ctx.check((lcan, rcan) == want, lambda: '{}: canonical form {}'
                      .format(what, (lcan, rcan)))
        else:
            ctx.check((lcan, rcan) in ((n - 1, n), (0, 1)),
                      lambda: '{}: canonical form {}'.format(what, (lcan, rcan)))
        d = 'right' if lcan == n - 1 else 'left'
        if direction is None and n > 1 and lcan == n - 1 and rcan == 1:
            d = None
        key = (fp(ref), rank, relerr, d)
        if key not in cache:
            cache[key] = reference(ref, shape, rank, relerr, d)
        rd, rr, unique = cache[key]
        if relerr is not None and tol < 1e-5 and nrm2 > 0 and nrm2 > 1e-12 * mag2 and unique:
            # relative error limit: no larger rank than necessary
            ctx.check(all(x <= y for x, y in zip(c.ranks, rr)) or relerr == 0.,
                      lambda: '{}: ranks {} but {} suffice'.format(
                          what, c.ranks, rr))
        if unique and nrm2 > 1e-12 * mag2:
            ctx.check(close(cd, rd, scale=np.sqrt(nrm2), tol=tol * 100),
                      lambda: '{}: not the rounding of the tensor: deviation {} '
                      'ranks {} expected {}'.format(what, maxabs(cd - rd),
                                                    c.ranks, rr))
        if (rank is None or rank >= max(old)) and relerr in (None, 0.):
            ctx.check(close(cd, ref, scale=np.sqrt(nrm2), tol=tol * 10),
                      what + ': lossless compression changed the tensor')
    else:
        ctx.check(close(cd, ref, scale=np.sqrt(nrm2), tol=tol),
                  what + ': single site changed')
    # in place variant
    t = u.copy()
    ov2 = t.compress('svd', **kw)
    ctx.step('compress')
    ctx.check(close(dense(t), cd, scale=np.sqrt(nrm2), tol=tol * 10) and
              abs(ov2 - ov) <= sc and t.ranks == c.ranks,
              what + ': compress() and compression() differ')
    ctx.check(abs(mp.norm(t)**2 - cc) <= sc, what + ': norm after compress')
    ctx.state(shape, tuple(old), g, cls, rank, relerr, direction, fp(cd))


def variants(ctx, shape, ranks, cls):
    """svdfunc and canonicalize arguments"""
    n = len(shape)
    for g, direction, rank in it.product(['raw', 'c0:1'], ('left', 'right'),
                                         (None, 1, 2)):
        u, ref = prepared(ctx, shape, ranks, cls, g)
        nrm = np.linalg.norm(ref)
        calls = []

        def svdfunc(a, k):
            calls.append(k)
            return truncated_svd(a, k)
        base, ov0 = u.compression(rank=rank, direction=direction)
        c, ov = u.compression(rank=rank, direction=direction, svdfunc=svdfunc)
        ctx.step('svdfunc')
        ctx.check(len(calls) == n - 1, 'svdfunc was not used for every cut')
        ctx.check(rank is None or all(k == rank for k in calls),
                  'svdfunc was not given the rank limit')
        ctx.check(close(dense(c), dense(base), scale=nrm) and
                  abs(ov - ov0) <= 1e-8 * nrm**2, 'svdfunc changes the result')
        # without canonicalisation: limits and bookkeeping still hold
        c, ov = u.compression(rank=rank, direction=direction,
                              canonicalize=False)
        ctx.step('canonicalize=False')
        cd = dense(c)
        ctx.check(abs(ov - np.linalg.norm(cd)**2) <= 1e-8 * max(
            nrm**2, np.linalg.norm(cd)**2), 'canonicalize=False: overlap')
        ctx.check(rank is None or max(c.ranks) <= rank,
                  'canonicalize=False: rank limit')
        err = cform_error(c.lt, 1e-7)
        ctx.check(err is None, lambda: 'canonicalize=False: ' + err)
        if rank is None:
            ctx.check(close(cd, ref, scale=nrm),
                      'canonicalize=False: lossless compression changed tensor')
        ctx.state(shape, ranks, g, direction, rank, 'variants')


def run_reject(ctx, n):
    for g in ('raw', 'c0:1', 'c{}:{}'.format(n - 1, n)):
        for direction in DIRS:
            for kw in (dict(rank=0), dict(rank=-1), dict(relerr=-.1),
                       dict(relerr=1.1), dict(relerr=-1e-3, rank=2),
                       dict(direction='up'), dict(method='foo'),
                       dict(method='SVD')):
                kw = dict(dict(direction=direction), **kw)
                for inplace in (False, True):
                    u, ref = prepared(ctx, [(2,)] * n, (2,) * (n - 1), 'r', g)
                    if inplace:
                        rejects(ctx, lambda: u.compress(**kw),
                                'compress(%r)' % kw)
                    else:
                        rejects(ctx, lambda: u.compression(**kw),
                                'compression(%r)' % kw)
                    ctx.step('reject')
                    verify(ctx, u, ref, 'array after rejected compression')
