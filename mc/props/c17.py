"""C17 estimators are unbiased with the stated variance over all records."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from .. import fine
from ..lib import close, fp, rejects, rs, snapshot, unchanged
from .c15 import DIMS, born, measurement, spec_of, state

RULE = ('every sample record of the given length (every outcome sequence, one '
        'sequence per measurement of a list), weighted with its exact '
        'probability, for all (measurement, source measurements, coefficients, '
        'weights) of the bound')
ASSUMPTIONS = ['states and coefficient vectors are deterministic '
               'representatives', 'variance estimates need at least two samples '
               'per measurement']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                sites='1..3', records='all with outcomes**samples <= {}'.format(
        256 if q else 4096), list_records='all with at most {} combined records'
        .format(64 if q else 1024), samples_per_measurement='1..3',
        source_measurements='1..3', coefficient_scales='1, 1e-6, -1e-4')


SINGLE = [((2,), 'x'), ((2,), 'p'), ((3,), 'g'), ((2, 2), 'xy'), ((2, 2), '1z'),
          ((2, 2), [(2, 2)]), ((3, 2), [(3, 1)]), ((2, 3), 'hx'),
          ((2,), 'b'), ((2, 2), 'ca'), ((2, 2, 2), 'z1x'), ((2, 2, 2), [(2, 1, 2)]), ((2, 2, 2), 'xhz')]

# (dims, target measurement, list of source measurements)
FROM = [
    ((2,), 'x', ['x']), ((2,), 'p', ['x']), ((2,), 'p', ['y', 'z']),
    ((2,), 'p', ['x', 'y', 'z']), ((2,), 'x', ['y']), ((2,), 'x', ['y', 'x']),
    ((2,), 'x', ['x', 'x']), ((3,), 'x', ['x', 'y']), ((2,), 'g', ['g', 'h']),
    ((2,), 'x', ['p']), ((2,), 'p', ['p']), ((2,), 'y', ['p', 'y']),
    ((2, 2), 'x1', ['xy']), ((2, 2), '1y', ['xy']), ((2, 2), '1y', ['xy', 'yy']),
    ((2, 2), 'x1', ['yx', 'xx', 'x1']), ((2, 2), 'xy', ['xy', 'xx']),
    ((2, 2), 'xx', ['x1']), ((2, 2), 'p1', ['xz', 'zz']), ((2, 2), 'px', ['xx']),
    ((2, 2), 'pp', ['xy', 'zz']), ((2, 2), 'xz', ['1z', 'xz']),
    ((2, 3), '1x', ['xx', 'yx']), ((3, 2), 'x1', ['x1', 'xx']),
    ((2, 2), [(2, 2)], [[(2, 2)], 'xx']), ((2, 2), [(3, 1)], [[(3, 1)]]),
    ((2, 2, 2), '1x1', ['xxy']), ((2, 2, 2), 'x1y', ['xxy', 'xzy']),
    ((2, 2, 2), '11z', ['xyz', '1zz']), ((2, 2, 2), 'x1z', ['x1z']),
    ((2, 2, 2), '1pz', ['xyz', 'zxz']), ((2, 2, 2), 'y1x', ['x1y', 'yyx']),
    ((2, 2, 2), '1z1', [[(2, 1, 2)], 'yzy']),
    ((2,), 'x', ['a', 'x']), ((2,), 'a', ['x']), ((2,), 'z', ['b', 'z']),
    ((2,), 'b', ['z', 'b']), ((2,), 'c', ['z', 'y']), ((2,), 'c', ['c']),
    ((2,), 'z', ['c', 'z']), ((2, 2), 'c1', ['zx']), ((2, 2), '1z', ['xb'])]
LISTS = [
    ((2,), ['x', 'y'], ['x', 'y']), ((2,), ['p', 'x'], ['x', 'y', 'z']),
    ((2,), ['x', 'g'], ['g', 'x']), ((2,), ['x', 'y'], ['y', 'z']),
    ((2,), ['z', 'p'], ['p']), ((2, 2), ['x1', '1y'], ['xy']),
    ((2, 2), ['x1', '1y'], ['xy', 'xx', 'yy']), ((2, 2), ['xy', 'x1'], ['xy']),
    ((2, 2), ['p1', '1x'], ['xx', 'zx', 'yx']),
    ((2, 2), ['1z', 'zz'], ['zz', 'xz']), ((2, 2), ['xx'], ['xx', 'xx']),
    ((2, 2, 2), ['x11', '1y1'], ['xyz', 'xy1']),
    ((2, 2, 2), ['x1z'], ['xyz']), ((3, 2), ['1x', 'x1'], ['xx']),
    ((2,), ['z', 'x'], ['b', 'x']), ((2,), ['b'], ['z']), ((2,), ['x'], ['a']),
    ((2,), ['a', 'z'], ['x', 'c']), ((2,), ['c'], ['c', 'z']),
    ((2, 2), ['1z', 'x1'], ['xb', 'xz'])]


def cases(tier):
    q = tier == 'quick'
    for i in range(len(SINGLE)):
        for fmt in ('mps', 'pmps', 'mpdo'):
            yield ('pmf', i, fmt)
            yield ('lfun', i, fmt)
    for i in range(len(FROM)):
        yield ('match', i)
        for m in (1, 2, 3):
            yield ('from', i, m)
    for i in range(len(LISTS)):
        for ms in (1, 2, 3):
            yield ('list', i, ms)
        yield ('lfrom', i)
    yield ('reject',)
    for key in fine.c17_keys():
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c17(ctx, *(key + (state, born)))


def ns(out):
    return tuple(d for d in out if d > 1)


def outcomes(nsd):
    return np.array(list(np.ndindex(*nsd)), dtype=np.uint8).reshape((-1, len(nsd)))


def records(K, m):
    return it.product(range(K), repeat=m)


def coeffs(num, *label):
    """Coefficient vectors: one hot, ones, generic, alternating"""
    r = rs('coeff', num, *label)
    yield r.randn(num)
    yield np.ones(num)
    c = np.zeros(num)
    c[num // 2] = 2.5
    yield c


def run_pmf(ctx, i, fmt):
    dims, spec = SINGLE[i]
    m, el, out = measurement(spec_of(spec), dims)
    nsd = ns(out)
    s, rho = state(fmt, dims, (2,) * (len(dims) - 1), 'c', 'c17')
    p = born(el, rho).real
    K = len(p)
    full = outcomes(nsd)
    lst = mpp.MPPovmList([m, m])
    lim = 256 if ctx.quick else 4096
    for n in (1, 2, 3, 4):
        if K**n > lim:
            break
        mean = np.zeros(nsd)
        for rec in records(K, n):
            rec = np.array(rec)
            want = np.zeros(K, dtype=int)
            for k in rec:
                want[k] += 1
            sam = full[rec]
            ctx.transitions += 1
            got = m.est_pmf(sam)
            ctx.check(got.shape == nsd and close(got.ravel(), want / n),
                      lambda: 'est_pmf of {}: {}'.format(rec, got))
            mean += got * np.prod(p[rec])
            cnt = m.est_pmf(sam, normalize=False)
            ctx.check(cnt.shape == nsd and cnt.dtype.kind in 'iu' and
                      np.array_equal(cnt.ravel(), want),
                      lambda: 'counts of {}: {}'.format(rec, cnt))
            ctx.check(close(m.est_pmf(rec), got), 'est_pmf of packed samples')
            a, b = lst.est_pmf([sam, full[rec[::-1]][:1]])
            ctx.check(close(a, got) and close(b.ravel()[rec[-1]], 1.) and
                      close(b.sum(), 1.), 'est_pmf of a list')
            a, b = lst.est_pmf([rec[:1], sam], False)
            ctx.check(np.array_equal(b, cnt) and a.sum() == 1 and
                      a.ravel()[rec[0]] == 1, 'counts of a list')
        ctx.state('pmf', i, fmt, n, fp(mean))
        ctx.check(close(mean.ravel(), p, 1.), lambda: 'est_pmf is biased: mean '
                  '{} expected {}'.format(mean.ravel(), p))


def functions(nsd):
    """Real functions of outcomes (arrays of outcomes in, one value each out)"""
    yield lambda s: s[:, 0] == 0
    yield lambda s: 1. - 2. * (s.sum(1) % 2)
    yield lambda s: s[:, -1].astype(float)**2 - .25
    yield lambda s: np.ones(len(s))


def scaled(ctx, call, est, var, what):
    """The estimate is linear and the variance quadratic in the coefficients,
    also for small ones"""
    for f in (1e-6, -1e-4):
        e, v = call(f)
        ctx.check(close(e / f, est, 1. + abs(est)) and
                  close(v / f**2, var, 1. + abs(var), 1e-7),
                  lambda: '{}, coefficients times {}: {} {} expected {} {}'.format(
                      what, f, e, v, f * est, f**2 * var))


def run_lfun(ctx, i, fmt):
    dims, spec = SINGLE[i]
    m, el, out = measurement(spec_of(spec), dims)
    nsd = ns(out)
    s, rho = state(fmt, dims, (2,) * (len(dims) - 1), 'c', 'c17')
    p = born(el, rho).real
    K = len(p)
    full = outcomes(nsd)
    mode = fmt if fmt == 'pmps' else 'auto'
    lim = 256 if ctx.quick else 4096
    funsets = [None, list(functions(nsd)), list(functions(nsd))[1:2]]
    snap = snapshot(s)
    for fs in funsets:
        F = np.eye(K) if fs is None else np.array(
            [np.asarray(f(full.astype(int)), dtype=float) for f in fs])
        ept = F.dot(p)
        cov = (F * p).dot(F.T) - np.outer(ept, ept)
        ctx.step('lfun', i, fmt, 'unit' if fs is None else len(fs))
        e, c = m.lfun(None, fs, s, mode)
        ctx.check(close(e, ept, 1.) and close(c, cov, 1.), lambda: 'lfun(None): '
                  '{} {} expected {} {}'.format(e, c, ept, cov))
        for co in coeffs(len(F), i):
            e, v = m.lfun(co, fs, s, mode)
            ctx.check(close(e, co.dot(ept), 1.) and close(v, co.dot(cov).dot(co), 1.)
                      and v >= 0,
                      lambda: 'lfun: {} {} expected {} {}'.format(
                          e, v, co.dot(ept), co.dot(cov).dot(co)))
            scaled(ctx, lambda f: m.lfun(f * co, fs, s, mode), e, v, 'lfun')
        e, v = mpp.MPPovmList([m, m]).lfun(
            [co, 2 * co], None if fs is None else [fs, fs], s, mode)
        ctx.check(close(e, 3 * co.dot(ept), 1.) and
                  close(v, 5 * co.dot(cov).dot(co), 1.), 'MPPovmList.lfun')
        cs = list(coeffs(len(F), i))
        for n in (2, 3, 4):
            if K**n > lim or (ctx.quick and fs is None and K > 4 and n > 2):
                break
            me, mc, mv = 0., 0., np.zeros(len(cs))
            sqe = np.zeros(len(cs))
            for rec in records(K, n):
                rec = np.array(rec)
                w = np.prod(p[rec])
                sam = full[rec]
                ctx.transitions += 1
                e, c = m.est_lfun(None, fs, sam)
                x = F[:, rec]
                want = x.mean(1)
                d = x - want[:, None]
                wc = d.dot(d.T) / (n - 1) / n
                ctx.check(close(e, want, 1.), lambda: 'est_lfun of {}: {} expected '
                          '{}'.format(rec, e, want))
                ctx.check(close(c, wc, 1.), lambda: 'est_lfun covariance of {}: {} '
                          'expected {}'.format(rec, c, wc))
                me, mc = me + w * e, mc + w * c
                for k, co in enumerate(cs):
                    a, v = m.est_lfun(co, fs, sam)
                    ctx.check(close(a, co.dot(want), 1.) and v >= 0 and
                              close(v, co.dot(wc).dot(co), 1.), lambda: 'est_lfun '
                              'of {} with coefficients {}: {} {}'.format(
                                  rec, co, a, v))
                    if n == 2 or not ctx.quick:
                        scaled(ctx, lambda f: m.est_lfun(f * co, fs, sam), a, v,
                               'est_lfun')
                    mv[k] += w * v
                    sqe[k] += w * (a - co.dot(ept))**2
                # counts as weights
                cnt = np.bincount(rec, minlength=K)
                for ww in (cnt, cnt.astype(float), cnt.astype(np.uint8)):
                    a, v = m.est_lfun(cs[0], fs, full, ww)
                    ctx.check(close(a, cs[0].dot(want), 1.) and
                              close(v, cs[0].dot(wc).dot(cs[0]), 1.),
                              lambda: 'counts {} as {} weights: {} {} expected {} {}'
                              .format(cnt, ww.dtype, a, v, cs[0].dot(want),
                                      cs[0].dot(wc).dot(cs[0])))
            ctx.state('lfun', i, fmt, n, fp(me))
            ctx.check(close(me, ept, 1.), 'est_lfun is biased')
            ctx.check(close(mc, cov / n, 1.), 'covariance estimate is biased')
            for k, co in enumerate(cs):
                true = co.dot(cov).dot(co) / n
                ctx.check(close(mv[k], true, 1.) and close(sqe[k], true, 1.),
                          lambda: 'variance estimate {} spread {} true {}'.format(
                              mv[k], sqe[k], true))
    e, v = m.lfun(np.zeros(0), [], s, mode)
    ctx.check(e == 0 and v == 0, 'empty sum')
    unchanged(ctx, s, snap, 'state after lfun')


def marginal(m_out, el, keep):
    """Elements of a measurement with the outcomes on some sites discarded"""
    D = el.shape[1]
    a = el.reshape(tuple(m_out) + (D, D))
    drop = tuple(i for i, k in enumerate(keep) if not k)
    a = a.sum(drop) if drop else a
    shape = tuple(d for d, k in zip(m_out, keep) if k and d > 1)
    return a.reshape((-1, D, D)), shape


def matching(el, out, oel, oout):
    """(match, prefactor) of the flat nontrivial outcomes, source support shape
    and the map from source outcome to partial outcome"""
    keep = [d > 1 for d in out]
    F, fshape = marginal(oout, oel, keep)
    a = el.reshape((len(el), -1))
    b = F.reshape((len(F), -1))
    na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
    inner = abs(np.dot(a.conj(), b.T)) / np.outer(na, nb)
    match = inner > 1 - 1e-7
    pre = na[:, None] / nb[None, :]
    idx = np.arange(len(F)).reshape(fshape if fshape else (1,))
    full = list(np.ndindex(*ns(oout)))
    sup = [k for k, d in zip(keep, oout) if d > 1]
    part = np.array([idx[tuple(x for x, k in zip(o, sup) if k) or (0,)]
                     for o in full])
    return match, pre, fshape, part


def run_match(ctx, i):
    dims, spec, others = FROM[i]
    m, el, out = measurement(spec_of(spec), dims)
    for o in others:
        om, oel, oout = measurement(spec_of(o), dims)
        match, pre, fshape, _ = matching(el, out, oel, oout)
        ctx.step('match_elems', spec, o)
        got, pf = m.match_elems(om)
        shape = ns(out) + fshape
        ctx.check(got.shape == shape and pf.shape == shape, lambda: 'match_elems: '
                  'shape {} expected {}'.format(got.shape, shape))
        ctx.check(np.array_equal(got.reshape(match.shape), match),
                  lambda: 'match_elems: {} expected {}'.format(got, match))
        pf = pf.reshape(match.shape)
        ctx.check(bool(np.isnan(pf[~match]).all()) and close(pf[match], pre[match]),
                  lambda: 'prefactors {} expected {}'.format(pf, pre))
        dup = {'self': bool((match.sum(0) > 1).any()),
               'other': bool((match.sum(1) > 1).any())}
        for ex in [('self',), ('other',), ('self', 'other')]:
            if any(dup[x] for x in ex):
                rejects(ctx, lambda: m.match_elems(om, ex), 'duplicates {}'.format(ex))
            else:
                g, _ = m.match_elems(om, ex)
                ctx.check(np.array_equal(g, got), 'match_elems with exclude_dup')
        rejects(ctx, lambda: m.match_elems(om, ('nope',)), 'unknown exclude_dup')


def fraction(el, given):
    """c if the given elements sum to c times the identity, else None"""
    s = el[given].sum(0)
    c = np.trace(s).real / len(s)
    return c if abs(s - c * np.eye(len(s))).max() < 1e-9 else None


def run_from(ctx, i, n):
    dims, spec, others = FROM[i]
    m, el, out = measurement(spec_of(spec), dims)
    nsd = ns(out)
    K = len(el)
    s, rho = state('mps', dims, (2,) * (len(dims) - 1), 'c', 'c17f')
    p = born(el, rho).real
    oms = [measurement(spec_of(o), dims) for o in others]
    lim = 64 if ctx.quick else 1024
    usable = []
    for o, (om, oel, oout) in zip(others, oms):
        q = born(oel, rho).real
        match, pre, _, part = matching(el, out, oel, oout)
        given = match.any(1)
        frac = fraction(el, given) if given.any() else 0.
        full = outcomes(ns(oout))
        unique = bool((match.sum(1) <= 1).all())
        mean = np.zeros(K)
        never = True
        usable.append(not given.any() or (frac is not None))
        if len(q)**n > lim:
            # one sample of each outcome in turn instead of all sequences
            ctx.count('records_capped')
            recs = [(k,) * n for k in range(len(q))]
        else:
            recs = records(len(q), n)
        exhaustive = len(q)**n <= lim
        for rec in recs:
            rec = np.array(rec)
            ctx.transitions += 1
            want = np.zeros(K)
            for k in rec:
                want += np.where(match[:, part[k]], pre[:, part[k]], 0.) / n
            ok = not given.any() or (frac is not None and
                                     abs(want.sum() - frac) < 1e-9)
            if not ok:
                # no normalised estimate exists for this record
                never = False
                rejects(ctx, lambda: m.est_pmf_from(om, full[rec]),
                        'unnormalised estimate')
                continue
            got, used = m.est_pmf_from(om, full[rec])
            ctx.check(got.shape == nsd, lambda: 'est_pmf_from shape {}'.format(
                got.shape))
            got = got.ravel()
            ctx.check(bool(np.isnan(got[~given]).all()) and
                      not np.isnan(got[given]).any(),
                      lambda: 'available estimates {} expected {}'.format(
                          ~np.isnan(got), given))
            ctx.check(used == sum(bool(match[:, part[k]].any()) for k in rec),
                      lambda: 'number of samples used: {}'.format(used))
            ctx.check(close(got[given].sum(), frac, 1.), 'sum of the estimates')
            if unique:
                ctx.check(close(got[given], want[given], 1.), lambda: 'est_pmf_from '
                          '{}: record {}: {} expected {}'.format(o, rec, got, want))
            mean += np.where(given, got, 0.) * np.prod(q[rec])
        if exhaustive and never and given.any():
            ctx.state('from', i, o, n, fp(mean))
            ctx.check(close(mean[given], p[given], 1.), lambda: 'est_pmf_from {} is '
                      'biased: {} expected {}'.format(o, mean, p))
        usable[-1] = usable[-1] and never
    # weighted average over several source measurements
    sel = [k for k, u in enumerate(usable) if u]
    if not sel:
        return
    oms = [oms[k] for k in sel]
    lst = mpp.MPPovmList([o[0] for o in oms])
    ref = [matching(el, out, o[1], o[2]) for o in oms]
    sizes = [n] * len(oms) if n < 3 else [1 + k % 2 for k in range(len(oms))]
    spaces = [list(records(len(o[1]), z)) for o, z in zip(oms, sizes)]
    tot = np.prod([len(x) for x in spaces])
    if tot > lim:
        spaces = [x[::max(1, int(len(x) / lim**(1. / len(oms))))] for x in spaces]
        ctx.count('records_capped')
    qs = [born(o[1], rho).real for o in oms]
    mean, weight = np.zeros(K), 0.
    fulls = [outcomes(ns(o[2])) for o in oms]
    avail = sum(r[0].any(1).astype(int) for r in ref) > 0
    for recs in it.product(*spaces):
        ctx.transitions += 1
        num, used = np.zeros(K), np.zeros(K, dtype=int)
        w = 1.
        for (match, pre, _, part), rec, q in zip(ref, recs, qs):
            g = match.any(1)
            e = np.zeros(K)
            nu = 0
            for k in rec:
                e += np.where(match[:, part[k]], pre[:, part[k]], 0.) / len(rec)
                nu += bool(match[:, part[k]].any())
            num += np.where(g, e * nu, 0.)
            used += np.where(g, nu, 0)
            w *= np.prod(q[list(rec)])
        sams = [f[list(r)] for f, r in zip(fulls, recs)]
        got, gu = m.est_pmf_from_mpps(lst, sams)
        ctx.check(got.shape == nsd and gu.shape == nsd, 'est_pmf_from_mpps shape')
        ctx.check(np.array_equal(gu.ravel(), used), lambda: 'samples used {} expected '
                  '{}'.format(gu.ravel(), used))
        got = got.ravel()
        ctx.check(np.array_equal(np.isnan(got), used == 0), lambda: 'available '
                  'estimates {}'.format(got))
        g = used > 0
        ctx.check(close(got[g], num[g] / used[g], 1.), lambda: 'est_pmf_from_mpps '
                  'record {}: {} expected {}'.format(recs, got, num / used))
        mean += w * np.where(g, got, 0.)
        weight += w
        a = list(mpp.MPPovmList([m, m]).est_pmf_from(lst, sams)) \
            if recs == tuple(x[0] for x in spaces) else []
        for pe, nu in a:
            ctx.check(np.array_equal(nu.ravel(), used) and
                      close(pe.ravel()[g], got[g], 1.), 'MPPovmList.est_pmf_from')
    if tot <= lim:
        ctx.state('mpps', i, n, fp(mean))
        if all(r[0].any(0)[r[3]].all() for r in ref if r[0].any()):
            ctx.check(close(mean[avail], p[avail], 1.), lambda: 'est_pmf_from_mpps is '
                      'biased: {} expected {}'.format(mean, p))


def list_setup(i):
    dims, specs, others = LISTS[i]
    ms = [measurement(spec_of(x), dims) for x in specs]
    os_ = [measurement(spec_of(x), dims) for x in others]
    s, rho = state('mps', dims, (2,) * (len(dims) - 1), 'c', 'c17l')
    ps = [born(m[1], rho).real for m in ms]
    qs = [born(o[1], rho).real for o in os_]
    ref = [[matching(m[1], m[2], o[1], o[2]) for o in os_] for m in ms]
    fulls = [outcomes(ns(o[2])) for o in os_]
    return (s, rho, ms, os_, ps, qs, ref, fulls,
            mpp.MPPovmList([m[0] for m in ms]), mpp.MPPovmList([o[0] for o in os_]))


def list_coeffs(ms, ref):
    """Coefficient sets: generic, and zero where no information is available"""
    r = rs('lc', len(ms), len(ref[0]))
    gen = [r.randn(*ns(m[2])) for m in ms]
    yield gen
    avail = [sum(x[0].any(1) for x in row).reshape(ns(m[2])) > 0
             for m, row in zip(ms, ref)]
    yield [c * a for c, a in zip(gen, avail)]
    yield [np.where(a, 1., 0.) * (k == 0) for k, a in enumerate(avail)]
    # exactly one unavailable probability
    for k, a in enumerate(avail):
        for pos in np.nonzero(~a.ravel())[0]:
            for val in (.5, -.5, 1e-3):
                bad = [c * b for c, b in zip(gen, avail)]
                bad[k].ravel()[pos] = val
                yield bad


def possible(ms, ref, coeff, weights=None):
    for c, row in zip(coeff, ref):
        av = sum(x[0].any(1) * (1. if weights is None else weights[k])
                 for k, x in enumerate(row))
        if (np.asarray(av) == 0)[c.ravel() != 0].any():
            return False
    return True


def estimator(ref, coeff, weights, sizes):
    """Function values f_k(outcome) of the weighted-average estimator"""
    vals = [np.zeros(z) for z in sizes]
    for c, row in zip(coeff, ref):
        c = c.ravel()
        tot = sum(x[0].sum(1) * w for x, w in zip(row, weights))
        for k, (match, pre, _, part) in enumerate(row):
            for o in range(sizes[k]):
                j = part[o]
                for my in np.nonzero(match[:, j])[0]:
                    vals[k][o] += c[my] * pre[my, j] * weights[k] / tot[my]
    return vals


def run_lfrom(ctx, i):
    s, rho, ms, os_, ps, qs, ref, fulls, lst, olst = list_setup(i)
    nk = len(os_)
    for coeff in list_coeffs(ms, ref):
        true = sum(c.ravel().dot(p) for c, p in zip(coeff, ps))
        wsets = [None, np.ones(nk), np.arange(1, nk + 1), 1. / np.arange(2, nk + 2),
                 np.array([.25] + [.75] * (nk - 1)), list(range(3, 3 + nk))]
        for w in wsets:
            ctx.step('lfun_from', i, None if w is None else list(w))
            e, v = lst.lfun_from(olst, coeff, s, other_weights=w)
            if not possible(ms, ref, coeff):
                ctx.check(np.isnan(e) and np.isnan(v), lambda: 'lfun_from without '
                          'information: {} {}'.format(e, v))
                continue
            vals = estimator(ref, coeff, [1.] * nk if w is None else list(w),
                             [len(q) for q in qs])
            var = sum(q.dot(f**2) - q.dot(f)**2 for f, q in zip(vals, qs))
            ctx.check(close(e, true, 1.), lambda: 'lfun_from: {} expected {} '
                      '(weights {})'.format(e, true, w))
            ctx.check(close(v, var, 1.), lambda: 'lfun_from variance: {} expected {} '
                      '(weights {})'.format(v, var, w))
            scaled(ctx, lambda f: lst.lfun_from(
                olst, [f * c for c in coeff], s, other_weights=w), e, v, 'lfun_from')
            ctx.state('lfrom', i, fp(np.array([e, v])))
        if possible(ms, ref, coeff):
            e, v = lst.lfun([c.ravel() for c in coeff], None, s)
            var = sum(p.dot(c.ravel()**2) - p.dot(c.ravel())**2
                      for c, p in zip(coeff, ps))
            ctx.check(close(e, true, 1.) and close(v, var, 1.), 'MPPovmList.lfun')


def run_list(ctx, i, mode):
    """est_lfun_from over all records"""
    s, rho, ms, os_, ps, qs, ref, fulls, lst, olst = list_setup(i)
    nk = len(os_)
    sizes = {1: [2] * nk, 2: [2 + k % 2 for k in range(nk)],
             3: [3] * nk}[mode]
    lim = 64 if ctx.quick else 1024
    spaces = [list(records(len(q), n)) for q, n in zip(qs, sizes)]
    full = np.prod([len(x) for x in spaces]) <= lim
    if not full:
        # all records of one source measurement at a time
        ctx.count('records_capped')
        spaces = [x[::max(1, len(x) // 30)] if nk == 1 else x for x in spaces]
        combos = []
        for k in range(nk):
            step = max(1, len(spaces[k]) // (lim // nk))
            for r in spaces[k][::step]:
                combos.append(tuple(r if j == k else spaces[j][len(spaces[j]) // 3]
                                    for j in range(nk)))
    else:
        combos = list(it.product(*spaces))
    for ci, coeff in enumerate(list_coeffs(ms, ref)):
        ok = possible(ms, ref, coeff)
        true = sum(c.ravel().dot(p) for c, p in zip(coeff, ps))
        vals = estimator(ref, coeff, sizes, [len(q) for q in qs]) if ok else None
        me = mv = ms2 = 0.
        for recs in combos if ok else combos[:6]:
            ctx.transitions += 1
            sams = [f[list(r)] for f, r in zip(fulls, recs)]
            e, v = lst.est_lfun_from(olst, coeff, sams)
            if not ok:
                ctx.check(np.isnan(e) and np.isnan(v), lambda: 'est_lfun_from without '
                          'information: {} {}'.format(e, v))
                continue
            xs = [f[list(r)] for f, r in zip(vals, recs)]
            want = sum(x.mean() for x in xs)
            wv = sum(((x - x.mean())**2).sum() / (len(x) - 1) / len(x) for x in xs)
            ctx.check(close(e, want, 1.), lambda: 'est_lfun_from record {}: {} '
                      'expected {}'.format(recs, e, want))
            ctx.check(close(v, wv, 1.) and v >= 0, lambda: 'est_lfun_from variance of '
                      'record {}: {} expected {}'.format(recs, v, wv))
            if ci == 0 and recs in combos[::7]:
                scaled(ctx, lambda f: lst.est_lfun_from(
                    olst, [f * c for c in coeff], sams), e, v, 'est_lfun_from')
            w = np.prod([np.prod(q[list(r)]) for q, r in zip(qs, recs)])
            me, mv, ms2 = me + w * e, mv + w * v, ms2 + w * (e - true)**2
        if not ok:
            continue
        if full:
            ctx.state('list', i, mode, ci, fp(np.array([me, mv])))
            ctx.check(close(me, true, 1.), lambda: 'est_lfun_from is biased: mean {} '
                      'expected {}'.format(me, true))
            ctx.check(close(mv, ms2, 1.), lambda: 'variance estimate: mean {} true '
                      'variance {}'.format(mv, ms2))
            if mode == 1:
                _, v1 = lst.lfun_from(olst, coeff, s)
                ctx.check(close(v1 / 2, ms2, 1.), lambda: 'lfun_from variance {} for '
                          'two samples, true {}'.format(v1 / 2, ms2))
        # the same sources as a plain list estimate, with and without weights
        rec = combos[-1]
        sams = [f[list(r)] for f, r in zip(fulls, rec)]
        oc = [np.arange(len(q)) * .5 - 1. for q in qs]
        want = sum(c[list(r)].mean() for c, r in zip(oc, rec))
        wv = sum(c[list(r)].var(ddof=1) / len(r) for c, r in zip(oc, rec))
        e, v = olst.est_lfun(oc, None, sams)
        ctx.check(close(e, want, 1.) and close(v, wv, 1.), 'MPPovmList.est_lfun')
        cnt = [np.bincount(list(r), minlength=len(q)) for r, q in zip(rec, qs)]
        e, v = olst.est_lfun(oc, None, fulls, cnt)
        ctx.check(close(e, want, 1.) and close(v, wv, 1.), lambda: 'MPPovmList.est_lfun '
                  'with counts: {} {} expected {} {}'.format(e, v, want, wv))


def run_reject(ctx):
    m, el, out = measurement('xy', (2, 2))
    full = outcomes((2, 2))
    rejects(ctx, lambda: m.est_lfun(np.ones(3), None, full), 'too few coefficients')
    rejects(ctx, lambda: m.est_lfun(np.ones(4), None, full[:, :1]),
            'samples with too few columns')
    rejects(ctx, lambda: m.est_lfun(np.ones(4), None, full, np.ones(3)),
            'too few weights')
    rejects(ctx, lambda: m.est_lfun(np.ones(4), None, full, -np.ones(4)),
            'negative weights')
    rejects(ctx, lambda: m.est_pmf(np.array([[0, 2]])), 'outcome out of range')
    rejects(ctx, lambda: m.est_pmf(np.array([4])), 'packed outcome out of range')
    rejects(ctx, lambda: m.est_pmf(np.array([[0, 1, 0]])), 'too many columns')
    o, _, _ = measurement('xy', (2, 3))
    rejects(ctx, lambda: m.match_elems(o), 'different Hilbert spaces')
    rejects(ctx, lambda: m.est_pmf_from(o, full), 'different Hilbert spaces')
    l1, l2 = mpp.MPPovmList([m]), mpp.MPPovmList([m, m])
    c = np.ones((2, 2))
    rejects(ctx, lambda: l1.est_lfun_from(l2, [c], [full]), 'too few sample arrays')
    rejects(ctx, lambda: l2.est_lfun_from(l1, [c], [full]), 'too few coefficients')
    rejects(ctx, lambda: m.est_pmf_from_mpps(l2, [full]), 'too few sample arrays')
    rejects(ctx, lambda: list(l2.est_pmf([full])), 'too few sample arrays')
    rejects(ctx, lambda: l2.lfun([np.ones(4)], None, None), 'too few coefficients')
    rejects(ctx, lambda: l2.est_lfun([np.ones(4)] * 2, None, [full]),
            'too few sample arrays')
    rejects(ctx, lambda: l2.est_lfun([np.ones(4)] * 2, [None], [full] * 2),
            'too few functions')
    rejects(ctx, lambda: l2.est_lfun([np.ones(4)], None, [full] * 2),
            'too few coefficients')
    rejects(ctx, lambda: l2.est_lfun([np.ones(4)] * 2, None, [full] * 2, [None]),
            'too few weights')
    s, _ = state('mps', (2, 2), (2,), 'r', 'rej')
    rejects(ctx, lambda: l2.lfun([np.ones(4)] * 2, [None], s), 'too few functions')
    rejects(ctx, lambda: m.lfun(np.ones(3), None, s), 'too few coefficients')
