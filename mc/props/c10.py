"""C10 variational compression."""
import itertools as it

import numpy as np

import mpnum as mp

from .. import scale
from ..lib import (all_ranks, build, cform_error, close, dense, dense_of, fp,
                   matricize, maxabs, prepared, rejects, rs, tensors, tol_of)

RULE = ('a case is one (leg structure, rank vector, value class); every gauge, '
        'start vector, rank limit, window width and number of sweeps of the '
        'bound run inside it')
ASSUMPTIONS = [
    'windows of three or more sites are truncated by successive singular value '
    'decompositions; monotonicity is only asserted for windows of at most two '
    'sites or for the whole chain',
    'exactness with windows smaller than the chain is asserted for generic '
    'start vectors only']
LEGS = [(2,), (3,), (2, 2)]


def BOUNDS(tier):
    return dict(larger_structures=scale.bounds(),
                sites='1..4', legs=[str(x) for x in LEGS], rank_limits='1..4',
                var_sites='1..n+1', num_sweeps='1..3',
                start='random (seeded), given in several gauges and ranks')


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5):
        if n <= 2:
            shapes = list(it.product(LEGS, repeat=n))
        else:
            shapes = [(LEGS[0],) * n, (LEGS[2],) * n,
                      tuple(LEGS[i % 2] for i in range(n)),
                      tuple(LEGS[(i + 1) % 3] for i in range(n))]
            if q:
                shapes = shapes[1:3]
        if n < 3:
            rks = all_ranks(n, (1, 2, 3))
        elif n == 3:
            rks = all_ranks(n, (1, 2, 3)) if not q else \
                [(2, 2), (1, 3), (3, 2)]
        else:
            rks = [(2, 3, 2), (2, 2, 2), (3, 1, 2)][:1 if q else 3]
        for shape, rk in it.product(shapes, rks):
            for cls in 'rcizoedfmM':
                if q and n > 2 and cls in 'of' or q and n == 4 and cls not in 'rcd':
                    continue
                yield ('var', shape, rk, cls)
                yield ('exact', shape, rk, cls)
    for n in (2, 3):
        yield ('reject', n)
    for key in scale.keys(sorted(scale.STRUCT), gauges=('raw', 'norm')):
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_scale(ctx, *key):
    scale.c10(ctx, *key)


def contract(ctx, c, ov, u, ref, shape, limit, tol, mag2, what):
    """Conditions which hold for every result; returns squared error"""
    n = len(shape)
    ctx.check(tuple(map(tuple, c.shape)) == tuple(map(tuple, shape)),
              lambda: '{}: shape {}'.format(what, c.shape))
    if n > 1:
        ctx.check(max(c.ranks) <= limit,
                  lambda: '{}: ranks {}'.format(what, c.ranks))
    err = cform_error(c.lt, max(tol, 1e-7))
    ctx.check(err is None, lambda: what + ': ' + err)
    cd = dense(c)
    cc = np.linalg.norm(cd)**2
    uc = np.vdot(ref, cd)
    nrm2 = max(float(np.linalg.norm(ref)**2), 1e-14 * mag2)
    sc = nrm2 * tol * 10 + 1e-290
    ctx.check(np.ndim(ov) == 0 and np.imag(ov) == 0,
              lambda: what + ': overlap %r' % (ov,))
    ctx.check(abs(ov - cc) <= sc and abs(ov - uc) <= sc,
              lambda: '{}: overlap {} but <c|c>={} <u|c>={} <u|u>={}'.format(
                  what, ov, cc, uc, nrm2))
    return float(np.linalg.norm(cd - ref)**2), cd, sc, nrm2


def starts(n, shape, limit, quick):
    """(name, tensors, gauge) of the start vectors"""
    out = []
    full = []
    left = 1
    dims = [int(np.prod(s)) for s in shape]
    for k in range(1, n):
        left = int(np.prod(dims[:k]))
        right = int(np.prod(dims[k:]))
        full.append(min(left, right, limit))
    for nm, rk, cls, g in [('r', full, 'r', 'raw'), ('c', full, 'c', 'c0:1'),
                           ('h', (limit,) * (n - 1), 'r',
                            'c{}:{}'.format(n - 1, n)),
                           ('p', (1,) * (n - 2) + (min(limit, full[-1]),), 'c',
                            'scal')]:
        if max(rk) != limit:
            continue
        out.append((nm, tuple(rk), cls, g))
    return out[:2] if quick else out


def run_var(ctx, shape, ranks, cls):
    n = len(shape)
    q = ctx.quick
    raw = tensors(shape, ranks, cls)
    mag2 = float(np.prod([np.linalg.norm(np.asarray(t, complex))**2
                          for t in raw])) * 10
    gs = ['raw', 'c0:1', 'c{}:{}'.format(n - 1, n), 'scal']
    for gi, g in enumerate(gs[:2] if q and (n > 2 or cls not in 'rc') else gs):
        u, ref = prepared(ctx, shape, ranks, cls, g)
        tol = tol_of(*[t.dtype for t in u.lt])
        if n == 1:
            for kw in (dict(rank=1), dict(startmpa=build(shape, (), 'r', 's')[0])):
                for vs in (1, 2):
                    c, ov = u.compression('var', num_sweeps=1, var_sites=vs, **kw)
                    ctx.step('single site')
                    contract(ctx, c, ov, u, ref, shape, 1, tol, mag2, 'one site')
                    ctx.check(close(dense(c), ref, tol=tol), 'single site changed')
            continue
        for limit in range(1, 5 if n < 3 or not q else 4):
            sts = starts(n, shape, limit, q and gi > 0)
            for nm, srk, scls, sg in [('rand', None, None, None)] + sts:
                for vs in range(1, n + 2):
                    if q and n == 4 and vs == 3:
                        continue
                    prev = None
                    for sweeps in (1, 2, 3):
                        if q and gi and sweeps > 1 or q and sweeps == 3 and n > 2:
                            continue
                        prev = single(ctx, u, ref, shape, limit, nm, srk, scls,
                                      sg, vs, sweeps, prev, tol, mag2,
                                      '{} {} gauge {}'.format(ranks, cls, g))


def single(ctx, u, ref, shape, limit, nm, srk, scls, sg, vs, sweeps, prev, tol,
           mag2, label):
    n = len(shape)
    kw = dict(num_sweeps=sweeps, var_sites=vs)
    what = 'compression(var, limit={}, start={}, {}) of {}'.format(
        limit, nm, kw, label)
    copy_expected = limit > max(u.ranks)
    before = dense(u)
    sref = None
    if nm == 'rand':
        glob = np.random.get_state()[1].copy(), np.random.get_state()[2]
        kw['rank'] = limit
        g1, g2 = rs('seed', limit), rs('seed', limit)
        c, ov = u.compression('var', randstate=g1, **kw)
        ctx.step(what)
        t = u.copy()
        ov2 = t.compress('var', randstate=g2, **kw)
        st = np.random.get_state()
        ctx.check((st[1] == glob[0]).all() and st[2] == glob[1],
                  what + ': global random state used')
    else:
        start, sref = prepared(ctx, shape, srk, scls, sg, 'start')
        lts = [np.array(x) for x in start.lt]
        c, ov = u.compression('var', startmpa=start, **kw)
        ctx.step(what)
        ctx.check(len(start) == len(lts) and
                  all(x.shape == y.shape and (x == y).all()
                      for x, y in zip(start.lt, lts)),
                  what + ': start vector modified')
        t = u.copy()
        ov2 = t.compress('var', startmpa=start, **kw)
        ctx.check(close(dense(start), sref), what + ': start vector modified')
    ctx.check(bool((dense(u) == before).all()), what + ': operand modified')
    e2, cd, sc, nrm2 = contract(ctx, c, ov, u, ref, shape,
                                limit if not copy_expected else max(u.ranks),
                                tol, mag2, what)
    ctx.check(close(dense(t), cd, scale=np.sqrt(nrm2), tol=tol * 100) and
              abs(ov - ov2) <= 100 * sc and t.ranks == c.ranks,
              what + ': compress() and compression() differ')
    err = cform_error(t.lt, max(tol, 1e-7))
    ctx.check(err is None, lambda: what + ' in place: ' + err)
    ctx.state(shape, label, limit, nm, vs, sweeps, fp(cd))
    if copy_expected:
        ctx.check(close(cd, ref, scale=np.sqrt(nrm2), tol=tol),
                  what + ': limit above all ranks, but result not exact')
        return None
    weff = min(vs, n)
    spec = [np.linalg.svd(matricize(ref, shape, k), compute_uv=False)
            for k in range(1, n)]
    if weff == n:
        # the only window is the chain
        tail = sum(float(np.sum(s[limit:]**2)) for s in spec)
        ctx.check(e2 <= tail * (1 + 1e-6) + 10 * sc,
                  lambda: '{}: error {} above discarded weight {}'.format(
                      what, e2, tail))
    if n == 2 and weff == 2:
        tail = float(np.sum(spec[0][limit:]**2))
        ctx.check(abs(e2 - tail) <= 10 * sc + 1e-6 * tail,
                  lambda: '{}: error {} but optimum {}'.format(what, e2, tail))
    mono = weff <= 2 or weff == n and n <= 2
    if sref is not None and mono:
        es = float(np.linalg.norm(sref - ref)**2)
        ctx.check(e2 <= es + 10 * sc + 1e-9 * es,
                  lambda: '{}: squared error {} worse than start {}'.format(
                      what, e2, es))
    if prev is not None and mono:
        ctx.check(e2 <= prev + 10 * sc,
                  lambda: '{}: squared error {} worse than {} with one sweep '
                  'less'.format(what, e2, prev))
    if weff == 1 and nrm2 > 1e-10 * mag2:
        # the last window (site 0) is optimal for the rest of the chain
        ten = [np.asarray(x) for x in c.lt]
        env = ten[1]
        for x in ten[2:]:
            env = np.tensordot(env, x, axes=(env.ndim - 1, 0))
        env = env.reshape((ten[1].shape[0], -1))
        d0 = int(np.prod(shape[0]))
        res = (cd - ref).reshape((d0, -1))
        grad = np.dot(res, env.conj().T)
        ctx.check(maxabs(grad) <= 1e-6 * np.sqrt(nrm2) * max(
            1, np.linalg.norm(env)) * (1 if tol < 1e-5 else 1e4),
                  lambda: '{}: not stationary, gradient {}'.format(
                      what, maxabs(grad)))
    return e2


def run_exact(ctx, shape, ranks, cls):
    """The limit admits an exact representation."""
    n = len(shape)
    if n == 1:
        return
    u, ref = build(shape, ranks, cls)
    tol = tol_of(*[t.dtype for t in u.lt])
    mag2 = float(np.prod([np.linalg.norm(np.asarray(t, complex))**2
                          for t in u.lt])) * 10
    nrm2 = max(float(np.linalg.norm(ref)**2), 1e-14 * mag2)
    tr = []
    for k in range(1, n):
        s = np.linalg.svd(matricize(ref, shape, k), compute_uv=False)
        tr.append(int(np.sum(s > 1e-9 * max(s[0], 1e-300))))
    need = max(tr + [1])
    for limit in range(need, max(u.ranks) + 1):
        for vs in range(1, n + 1):
            for seed in (1, 2):
                c, ov = u.compression('var', rank=limit, num_sweeps=2,
                                      var_sites=vs, randstate=rs('ex', seed))
                ctx.step('exact limit {} window {}'.format(limit, vs))
                ctx.check(close(dense(c), ref, scale=np.sqrt(nrm2),
                                tol=max(1e-6, tol * 10)),
                          lambda: 'rank {} suffices (ranks of the tensor {}), '
                          'but the result deviates by {} (window {})'.format(
                              limit, tr, maxabs(dense(c) - ref), vs))
                ctx.state(shape, ranks, cls, limit, vs, seed)


def run_reject(ctx, n):
    u, ref = build([(2,)] * n, (2,) * (n - 1), 'r')
    bad = build([(3,)] * n, (2,) * (n - 1), 'r', 's')[0]
    part = build([(2,)] * (n - 1) + [(3,)], (2,) * (n - 1), 'r', 's')[0]
    for kw in (dict(), dict(startmpa=bad), dict(startmpa=part)):
        for vs in (1, 2):
            rejects(ctx, lambda: u.compression('var', num_sweeps=1,
                                               var_sites=vs, **kw), repr(kw))
            rejects(ctx, lambda: u.compress('var', num_sweeps=1,
                                            var_sites=vs, **kw), repr(kw))
            ctx.step('reject')
            ctx.check(close(dense(u), ref), 'rejected compression changed array')
