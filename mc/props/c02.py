"""C02 linear arithmetic."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.special as mpsp

from .. import fine, scale
from ..lib import (all_ranks, apply_gauge, build, close, dense, fp, gauges,
                   maxabs, offsets, prepared, rejects, snapshot, tensor,
                   tol_of, unchanged, verify)

RULE = ('every (leg structure, rank vectors of both operands) is a case; all '
        'dtype/value pairs, gauge pairs, scalars and operations are executed '
        'for it; expression histories are all operation words up to the depth')
ASSUMPTIONS = ['values are representatives of the listed classes']

LEGS = [(2,), (1,), (3, 2), (2, 2)]
PAIRS = ['rr', 'cc', 'rc', 'cr', 'ir', 'ri', 'ic', 'ci', 'ii', 'fr', 'rF', 'Fc',
         'fF', 'zr', 'rz', 'zz', 'dd', 'ee', 'tt', 'tr', 'hr', 'oc', 'Fi',
         'mr', 'rM', 'mc', 'Mm', 'ni', 'mm']
SCALARS = [3, -0.5, 2j, 0, 1, -1, np.float64(.25), np.complex128(1 - 1j),
           np.int64(-2), np.float32(.5), 1e-30, 1e30]


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(larger_structures=scale.bounds(), fine_structure=fine.bounds(),
                sites=4, sites_full_alphabet=3, legs=[str(l) for l in LEGS],
                ranks='{1,2,3}', value_pairs=PAIRS,
                scalars=[repr(s) for s in SCALARS],
                word_length=3 if q else 4, summands='1..4')


def cases(tier):
    q = tier == 'quick'
    for n in (1, 2, 3):
        legs = LEGS if n < 3 else LEGS[1:3] if q else LEGS[:3]
        for s in it.product(legs, repeat=n):
            rk = all_ranks(n, (1, 2, 3) if n > 1 and not q else (1, 3))
            if n == 3 and q:
                rk = [(1, 3), (3, 1), (2, 2)]
            for ra, rb in it.product(rk, repeat=2):
                if n == 3 and q and ra == rb != (2, 2):
                    continue
                yield ('bin', s, ra, rb)
    for s in [((2,),) * 4, ((2,), (1,), (3, 2), (2,)), ((2, 2),) * 4]:
        for ra, rb in it.product([(1, 1, 1), (1, 2, 3), (3, 1, 2),
                                  (2, 4, 2)], repeat=2):
            yield ('bin', s, ra, rb)
    for n in (1, 2, 3, 4):
        for s in it.product(LEGS if n < 3 or not q else LEGS[1:3], repeat=n):
            if n == 4 and len(set(s)) > 2 or n == 4 and q and s[0] != s[1]:
                continue
            yield ('un', s)
    for s in [((2,),), ((2,), (3, 2)), ((2, 2),) * 3, ((1,), (2,), (3,)),
              ((2,),) * 4]:
        for k in range(1, 5):
            yield ('sumup', s, k)
            yield ('ssum', s, k)
    shapes = [((2, 2),), ((2, 2), (2, 2)), ((2, 2),) * 3, ((2,), (1,), (2,)),
              ((3,), (2,), (2,), (3,))]
    for s in shapes:
        for cls in ('r', 'c', 'i', 'e', 'm'):
            for first in range(len(WORD)):
                yield ('word', s, cls, first)
    for key in scale.keys(sorted(scale.STRUCT)):
        yield key
    for key in fine.keys():
        yield key
    yield ('reject',)


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_scale(ctx, *key):
    scale.c02(ctx, *key)


def run_fine(ctx, *key):
    fine.c02(ctx, *key)


def run_bin(ctx, shape, ra, rb):
    n = len(shape)
    gs = ['raw', 'c{}:{}'.format(n - 1, n), 'c0:1', 'scal', 'norm']
    if n > 2:
        gs.append('c1:2')
    for k, pair in enumerate(PAIRS):
        if ctx.quick and n > 2 and (k + sum(ra) + 3 * sum(rb)) % 3:
            continue
        pairs = list(it.product(gs, repeat=2)) if pair in ('rr', 'rc') else \
            [('raw', gs[k % len(gs)]), (gs[(k + 1) % len(gs)], gs[1])]
        if ctx.quick and (pair == 'rc' or n > 2):
            pairs = pairs[::5]
        if set(pair) & set('th') and n > 3:
            continue
        for ga, gb in pairs:
            a, da = prepared(ctx, shape, ra, pair[0], ga, 'a')
            b, db = prepared(ctx, shape, rb, pair[1], gb, 'b')
            tol = tol_of(a.lt[0].dtype, b.lt[0].dtype)
            scale = maxabs(da) + maxabs(db)
            sa, sb = snapshot(a), snapshot(b)
            for name, f, ref in [
                    ('a+b', lambda: a + b, da + db),
                    ('a-b', lambda: a - b, da - db),
                    ('b-a', lambda: b - a, db - da),
                    ('sumup(a,b,a)', lambda: mp.sumup([a, b, a]), 2 * da + db)]:
                c = f()
                ctx.step(name)
                verify(ctx, c, ref, name, shape=shape, scale=scale, tol=tol,
                       norm=name == 'a+b' and ga == 'raw')
                ctx.state(shape, ra, rb, pair, name, fp(ref))
            val = mp.normdist(a, b)
            ctx.step('normdist')
            want = np.linalg.norm(da - db)
            ctx.check(abs(val - want) <= 10 * tol * (np.linalg.norm(da) +
                                                     np.linalg.norm(db)) + 1e-290,
                      'normdist {} expected {}'.format(val, want))
            unchanged(ctx, a, sa, 'left operand', tol)
            unchanged(ctx, b, sb, 'right operand', tol)


def transposed(ref, shape, axes):
    out, off = [], offsets(shape)
    for o, s in zip(off, shape):
        ax = tuple(reversed(range(len(s)))) if axes is None else axes
        out += [o + x for x in ax]
    return ref.transpose(out)


def run_un(ctx, shape):
    n = len(shape)
    for ranks in ([(1,) * (n - 1), (2, 3, 2)[:n - 1]] if n > 1 else [()]):
        for cls in ('r', 'c', 'i', 'F', 'z', 'd', 't', 'h', 'm', 'M', 'n'):
            if cls in 'th' and n > 3:
                continue
            for g in gauges(n, full=n < 3 and cls in 'rc'):
                if ctx.quick and cls not in 'rc' and g not in ('raw', 'norm'):
                    continue
                a, da = prepared(ctx, shape, ranks, cls, g, 'u')
                tol = tol_of(a.lt[0].dtype)
                snap = snapshot(a)
                for s in (SCALARS if g == 'raw' or not ctx.quick
                          else SCALARS[1:4]):
                    if cls == 'F' and abs(s) in (1e-30, 1e30):
                        continue
                    if (maxabs(da) > 1e60 or maxabs(da) < 1e-60) and abs(s) > 0 \
                            and not 1e-3 < abs(s) < 1e3:
                        continue
                    for name in ('*', 'r*', '/', '*=', '/='):
                        if '/' in name and s == 0:
                            continue
                        if cls not in 'rc' and name not in ('*', '*=', '/='):
                            continue
                        if name == '*':
                            c = a * s
                        elif name == 'r*':
                            c = s * a
                            if not isinstance(c, mp.MPArray):
                                continue    # numpy scalar took over
                        elif name == '/':
                            c = a / s
                        elif name == '*=':
                            c = a.copy()
                            cc = c
                            c *= s
                            ctx.check(c is cc, '*= returned another object')
                        else:
                            c = a.copy()
                            cc = c
                            c /= s
                            ctx.check(c is cc, '/= returned another object')
                        ctx.step('{} {!r}'.format(name, s))
                        ref = da / s if '/' in name else da * s
                        verify(ctx, c, ref, '{} {!r}'.format(name, s),
                               shape=shape, tol=tol, norm=name in ('*', '/=') and g == 'raw')
                ops = [('neg', lambda: -a, -da, shape),
                       ('pos', lambda: +a, da, shape),
                       ('conj', a.conj, da.conj(), shape),
                       ('T', lambda: a.T, transposed(da, shape, None),
                        [s[::-1] for s in shape]),
                       ('transpose', a.transpose, transposed(da, shape, None),
                        [s[::-1] for s in shape]),
                       ('adj', a.adj, transposed(da, shape, None).conj(),
                        [s[::-1] for s in shape])]
                if len(set(map(len, shape))) == 1:
                    for p in it.permutations(range(len(shape[0]))):
                        ops.append(('transpose{}'.format(p),
                                    lambda p=p: a.transpose(p),
                                    transposed(da, shape, p),
                                    [tuple(s[i] for i in p) for s in shape]))
                for name, f, ref, sh in ops:
                    c = f()
                    ctx.step(name)
                    verify(ctx, c, ref, name, shape=sh, tol=tol,
                           norm=name not in ('pos', 'transpose'))
                ctx.state(shape, ranks, cls, g, fp(da))
                unchanged(ctx, a, snap, 'operand', tol)


def run_sumup(ctx, shape, k):
    n = len(shape)
    for ranks in it.product([1, 2, 3], repeat=min(k, 2 if ctx.quick else 3)):
        for cl in ('rrrr', 'ccrr', 'rcrc', 'ifcr', 'zzzz', 'irFi', 'mrMc', 'rmri'):
            ms = [build(shape, (ranks[min(j, len(ranks) - 1)],) * (n - 1), cl[j], 's', j)
                  for j in range(k)]
            for j, (m, _) in enumerate(ms):
                if j % 2:
                    apply_gauge(m, 'norm')
            tol = tol_of(*[m.lt[0].dtype for m, _ in ms])
            for w in (None, [1.] * k, [2, -1, 0, .5][:k], [1j, 2, -.5j, 1][:k],
                      np.array([1, 2, 3, 4][:k])):
                ww = [1] * k if w is None else w
                ref = sum(x * d for x, (_, d) in zip(ww, ms))
                scale = max(maxabs(x * d) for x, (_, d) in zip(ww, ms))
                res = mp.sumup((m for m, _ in ms), weights=w)
                ctx.step('sumup {} {}'.format(cl, w))
                verify(ctx, res, ref, 'sumup', shape=shape, scale=scale, tol=tol)
                if k > 1 and n > 1:
                    ctx.check(all(r <= sum(m.ranks[i] for m, _ in ms)
                                  for i, r in enumerate(res.ranks)),
                              'sumup: rank exceeds the sum of ranks')
            for m, d in ms:
                ctx.check(close(dense(m), d, tol=tol), 'sumup changed a summand')
            ctx.state(shape, ranks, cl)


def run_ssum(ctx, shape, k):
    """special.sumup: sum of product tensors with compression"""
    n = len(shape)
    for cl in ('rrrr', 'cccc', 'rcrc', 'crrr', 'zzzz', 'eeee', 'ffff', 'irir', 'mMmr', 'rmin'):
        ms = [build(shape, (1,) * (n - 1), cl[j], 's', j) for j in range(k)]
        tol = tol_of(*[m.lt[0].dtype for m, _ in ms])
        for w in (None, [1.] * k, [2, -1, 0, .5][:k], [1j, 2, -.5j, 1][:k],
                  np.array([1, 2, 3, 4.][:k])):
            ww = [1] * k if w is None else w
            ref = sum(x * d for x, (_, d) in zip(ww, ms))
            scale = max(maxabs(x * d) for x, (_, d) in zip(ww, ms))
            for rank in range(1, k + 2):
                res = mpsp.sumup([m for m, _ in ms], rank, weights=w)
                ctx.step('special.sumup rank {} {}'.format(rank, w))
                if n > 1:
                    ctx.check(all(r <= rank for r in res.ranks),
                              'special.sumup: ranks {} > {}'.format(
                                  res.ranks, rank))
                if rank >= k or n == 1:
                    verify(ctx, res, ref, 'special.sumup', shape=shape,
                           scale=scale, tol=tol)
                else:
                    got = dense(res)
                    verify(ctx, res, got, 'special.sumup', shape=shape,
                           scale=scale, tol=tol)
                    ov, nn = np.vdot(ref, got), np.vdot(got, got)
                    ctx.check(abs(ov - nn) <= 100 * tol * scale**2 * ref.size,
                              'special.sumup is not a projection of the sum')
        ctx.state(shape, k, cl)


def _words():
    def add(m, d, b, db):
        return m + b, d + db

    def rsub(m, d, b, db):
        return b - m, db - d

    def mulc(m, d, b, db):
        return m * (1 - 1j), d * (1 - 1j)

    def imul(m, d, b, db):
        m = m.copy()
        m *= -.5
        return m, d * -.5

    def conj(m, d, b, db):
        return m.conj(), d.conj()

    def gauge_l(m, d, b, db):
        m = m.copy()
        m.canonicalize(right=1)
        return m, d

    def gauge_r(m, d, b, db):
        m = m.copy()
        m.canonicalize(left=len(m) - 1)
        return m, d

    def gauge_m(m, d, b, db):
        m = m.copy()
        k = len(m) // 2
        m.canonicalize(left=k, right=k + 1)
        return m, d

    def sumup(m, d, b, db):
        return mp.sumup([m, b, m], weights=[1j, 1, .5]), (.5 + 1j) * d + db

    def compr(m, d, b, db):
        return m.compression(relerr=1e-14)[0] if len(m) > 1 else m.copy(), d

    def div(m, d, b, db):
        return m / 2j, d / 2j

    def selfadd(m, d, b, db):
        return m + m, 2 * d
    return [add, rsub, mulc, imul, conj, gauge_l, gauge_r, gauge_m, sumup,
            compr, div, selfadd]


WORD = _words()


def run_word(ctx, shape, cls, first):
    n = len(shape)
    depth = 3 if ctx.quick else 4
    b, db = build(shape, (2,) * (n - 1), 'c', 'wb')

    def rec(m, d, ops, scale):
        for op in ([WORD[first]] if not ops else WORD):
            new, nd = op(m, d, b, db)
            ctx.step(op.__name__)
            sc = max(scale * 4, maxabs(nd))
            verify(ctx, new, nd, ' '.join(ops + [op.__name__]), shape=shape,
                   scale=max(maxabs(nd), maxabs(db) * .1), tol=1e-7,
                   norm=len(ops) + 1 == depth)
            ctx.state(shape, cls, tuple(new.canonical_form), fp(nd))
            if len(ops) + 1 < depth:
                rec(new, nd, ops + [op.__name__], sc)
    m, d = build(shape, (2,) * (n - 1), cls, 'wa')
    rec(m, d, [], maxabs(d))


def inplace(op, a, x):
    a = a.copy()
    if op == 'mul':
        a *= x
    else:
        a /= x
    return a


def run_reject(ctx):
    """Non-scalar factors and length mismatches are refused."""
    for n in (1, 2, 3):
        a, _ = build(((2,),) * n, (2,) * (n - 1), 'r', 'x')
        b, _ = build(((2,),) * (n + 1), (2,) * n, 'r', 'x')
        p, _ = build(((2,),) * n, (1,) * (n - 1), 'r', 'x')
        for what, f in [
                ('a+longer', lambda: a + b), ('longer+a', lambda: b + a),
                ('a-longer', lambda: a - b),
                ('sumup', lambda: mp.sumup([a, b])),
                ('ssumup', lambda: mpsp.sumup([a, b], 2)),
                ('sumup, weights', lambda: mp.sumup([a, a], [1.])),
                ('sumup, weights', lambda: mp.sumup([a, a], iter([1.]))),
                ('sumup, weights', lambda: mp.sumup([a, a], [1.] * 3)),
                ('ssumup, weights', lambda: mpsp.sumup([p, p], 2, [1.])),
                ('ssumup, weights', lambda: mpsp.sumup([p, p], 2, [1.] * 3)),
                ('a*mpa', lambda: a * a), ('a*array', lambda: a * np.ones(3)),
                ('a/mpa', lambda: a / a), ('a/list', lambda: a / [2]),
                ('a*list', lambda: a * [2]),
                ('a*=mpa', lambda: inplace('mul', a, a.copy())),
                ('a*=list', lambda: inplace('mul', a, [2])),
                ('a*=array', lambda: inplace('mul', a, np.ones(3))),
                ('a/=mpa', lambda: inplace('truediv', a, a.copy())),
                ('a/=list', lambda: inplace('truediv', a, [2])),
                ('a/=array', lambda: inplace('truediv', a, np.ones(3)))]:
            rejects(ctx, f, what)
            ctx.step(what)
        ctx.state(n)
