"""C03 contractions: products, inner products, traces, sums, slices."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.povm as mpp
import mpnum.special as mpsp

from .. import fine, scale
from ..lib import (all_ranks, build, close, dense, fp, gauges, maxabs, offsets,
                   prepared, rejects, snapshot, tol_of, unchanged, verify)

RULE = ('a case is one (operation, leg structures) tuple; all axis choices, '
        'rank vectors, dtype pairs and gauges of the bound run inside it')
ASSUMPTIONS = ['values are representatives of the listed classes']

LEGS = [(2,), (2, 2), (2, 3), (3, 2), (3, 2, 2)]
AXES = [(-1, 0), (0, 0), (0, -1), (-1, -1), (1, 0), (-2, -1), (1, 1), (0, 1),
        ((-1,), (0,)), ((0, 1), (0, 1)), ((0, 1), (1, 0)), ((-1, -2), (0, 1)),
        ((1, 2), (0, 1)), ((0, 1), (1, 2)), ([0], [-1]), ((), ())]


def BOUNDS(tier):
    return dict(fine_structure=fine.bounds(),
                larger_structures=scale.bounds(),
                sites='1..3 (products), 1..4 (others)',
                legs=[str(l) for l in LEGS], ranks='1..3',
                axes=[str(a) for a in AXES], value_classes='r c i F z',
                partialdot='all length pairs <= 4 and all offsets')


def norm_axes(axes, sa, sb):
    """Contracted legs as non-negative numbers for one site or None."""
    a, b = axes
    a = tuple(a) if hasattr(a, '__iter__') else (a,)
    b = tuple(b) if hasattr(b, '__iter__') else (b,)
    if any(not -len(sa) <= x < len(sa) for x in a) or \
            any(not -len(sb) <= x < len(sb) for x in b):
        return None
    a = tuple(x % len(sa) for x in a)
    b = tuple(x % len(sb) for x in b)
    if len(set(a)) < len(a) or len(set(b)) < len(b):
        return None
    if any(sa[x] != sb[y] for x, y in zip(a, b)):
        return None
    return a, b


def site_contract(da, sa, db, sb, axes):
    """Dense reference; sa[i]/sb[i] may be None (site missing)."""
    la, lb, out, shape = [], [], [], []
    count = it.count()
    for x, y in zip(sa, sb):
        if x is None or y is None:
            legs = [next(count) for _ in (x if y is None else y)]
            (la if y is None else lb).extend(legs)
            out += legs
            shape.append(x if y is None else y)
            continue
        ca, cb = norm_axes(axes, x, y)
        labs = [next(count) for _ in x]
        labb = [labs[ca[cb.index(k)]] if k in cb else next(count)
                for k in range(len(y))]
        la += labs
        lb += labb
        out += [l for k, l in enumerate(labs) if k not in ca]
        out += [l for k, l in enumerate(labb) if k not in cb]
        shape.append(tuple(d for k, d in enumerate(x) if k not in ca) +
                     tuple(d for k, d in enumerate(y) if k not in cb))
    return np.einsum(da, la, db, lb, out), shape


def cases(tier):
    q = tier == 'quick'
    for n in (1, 2, 3):
        if n < 3:
            pool = list(it.product(LEGS, repeat=n))
        else:
            pool = [(x, y, z) for x, y, z in it.product(LEGS[:4], repeat=3)
                    if not q or (len(x) >= 2 and x == z)]
        for sa, sb in it.product(pool, repeat=2):
            ok = [a for a in AXES
                  if all(norm_axes(a, x, y) for x, y in zip(sa, sb))]
            if ok and (len(ok) > 2 or not q or n == 1):
                yield ('dot', sa, sb)
    for n in range(1, 5):
        for m in range(1, n + 1):
            for legs in ((2, 2), (2,), (3, 2), (3, 2, 2)):
                if n == 4 and len(legs) == 3:
                    continue
                yield ('pdot', n, m, legs)
    for n in range(1, 4):
        for s in it.product(LEGS[:4] + [(1,)], repeat=n):
            if n == 3 and q and len(set(s)) == 3:
                continue
            if n == 3 and q and s[0] != s[2] and s[1] != s[2]:
                continue
            yield ('inner', s)
            yield ('outer', s)
            yield ('get', s)
    for n in range(1, 5):
        for rk in all_ranks(n, (1, 2)):
            yield ('sandwich', n, rk)
    for lens in [(1,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (3, 1), (1, 2, 1)]:
        yield ('chain', lens)
    for n in range(1, 4):
        for s in it.product([(2,), (2, 3), (2, 2, 3), (1,)], repeat=n):
            if n == 3 and q and len(set(s)) == 3:
                continue
            yield ('sum', s)
        for s in it.product([(2, 2), (3, 2, 3), (2,), (2, 3, 3)], repeat=n):
            yield ('trace', s)
        for s in it.product([(2,), (2, 3), (3, 2), (2, 2)], repeat=n):
            yield ('diag', s)
    yield ('types',)
    for key in scale.keys(sorted(scale.STRUCT)):
        yield key
    yield ('reject',)
    for key in fine.keys():
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c03(ctx, *key)


def run_scale(ctx, *key):
    scale.c03(ctx, *key)


def ranks_of(n):
    return [()] if n == 1 else [(1,), (3,)] if n == 2 else \
        [(1,) * (n - 1), (2, 3, 2)[:n - 1], (3, 1, 2)[:n - 1]]


def scal(ctx, got, ref, scale, tol, what):
    got = np.asarray(got)
    ctx.check(got.shape == (), lambda: what + ': not a scalar: ' + repr(got))
    ctx.check(abs(complex(got) - complex(ref)) <= tol * scale + 1e-290,
              lambda: '{}: {} expected {}'.format(what, got, ref))


def run_dot(ctx, sa, sb):
    n = len(sa)
    axes = [a for a in AXES if all(norm_axes(a, x, y) for x, y in zip(sa, sb))]
    for k, (ra, rb) in enumerate(it.product(ranks_of(n), repeat=2)):
        if n == 3 and ctx.quick and k % 2:
            continue
        for cl, ga, gb in [('rc', 'raw', 'raw'), ('cr', 'norm', 'raw'),
                           ('cc', 'raw', 'c{}:{}'.format(n - 1, n)),
                           ('iF', 'raw', 'raw')]:
            if n > 1 and k and (cl == 'iF' or ctx.quick and cl == 'cr'):
                continue
            a, da = prepared(ctx, sa, ra, cl[0], ga, 'a')
            b, db = prepared(ctx, sb, rb, cl[1], gb, 'b')
            tol = tol_of(da.dtype, db.dtype)
            snaps = snapshot(a), snapshot(b)
            scale = np.linalg.norm(da) * np.linalg.norm(db)
            for ax in axes:
                ref, shape = site_contract(da, sa, db, sb, ax)
                c = mp.dot(a, b, axes=ax)
                ctx.step('dot {}'.format(ax))
                verify(ctx, c, ref, 'dot axes={}'.format(ax), shape=shape,
                       scale=scale, tol=tol, norm=False)
                if ax == (-1, 0):
                    verify(ctx, mp.dot(a, b), ref, 'dot', shape=shape,
                           scale=scale, tol=tol, norm=False)
                ctx.state(sa, sb, ax, fp(ref))
            unchanged(ctx, a, snaps[0], 'dot', tol)
            unchanged(ctx, b, snaps[1], 'dot', tol)
            if k == 0:
                la, lb = min(map(len, sa)), min(map(len, sb))
                for ax in ((la, 0), (-la - 1, 0), (0, lb), (0, -lb - 1),
                           ((0, la), (0, lb - 1)), ((0, -la - 1), (0, 0))):
                    ctx.step('dot rejects {}'.format(ax))
                    rejects(ctx, lambda: mp.dot(a, b, axes=ax), 'no such leg')
                    rejects(ctx, lambda: mp.partialdot(a, b, 0, axes=ax),
                            'no such leg')
            # partial dot of equal length
            for ax in axes if n < 3 or k == 0 else axes[:1]:
                ref, shape = site_contract(da, sa, db, sb, ax)
                c = mp.partialdot(a, b, 0, axes=ax)
                verify(ctx, c, ref, 'partialdot', shape=shape, scale=scale,
                       tol=tol, norm=False)


def run_pdot(ctx, n, m, legs):
    pool = LEGS + [(2, 2, 3), (4,), (4, 4)]
    for dims in ([legs] * n, [legs, (4,) * len(legs)] * n):
        long_ = tuple(dims[:n])
        for axes, left in it.product(AXES, (False, True)):
            for start in range(n - m + 1):
                # all (at most two) legal shapes of the short operand's sites
                opts = [[p for p in pool if
                         (norm_axes(axes, p, s) if left else
                          norm_axes(axes, s, p)) is not None][:8:2][:2]
                        for s in long_[start:start + m]]
                if not all(opts):
                    continue
                for k, short in enumerate(it.product(*opts)):
                    if k and (m > 2 or ctx.quick and n > 2):
                        break
                    pdot(ctx, n, m, start, axes, left, long_, list(short))


def pdot(ctx, n, m, start, axes, left, long_, short):
    full_s = [None] * start + short + [None] * (n - m - start)
    sa, sb = (full_s, long_) if left else (long_, full_s)
    for cl in ('rc', 'cr')[:1 if ctx.quick and n > 2 else 2]:
        L, dl = build(long_, (2,) * (n - 1), cl[0], 'L')
        S, ds = build(short, (3,) * (m - 1), cl[1], 'S')
        args = (S, L) if left else (L, S)
        dd = (ds, dl) if left else (dl, ds)
        ref, shape = site_contract(dd[0], sa, dd[1], sb, axes)
        for bad in (-1, n - m + 1, n):
            rejects(ctx, lambda: mp.partialdot(*args, start_at=bad, axes=axes),
                    'start_at {}'.format(bad))
        c = mp.partialdot(*args, start_at=start, axes=axes)
        ctx.step('partialdot start {} axes {} {}'.format(start, axes, left))
        verify(ctx, c, ref, 'partialdot', shape=shape, norm=False,
               scale=np.linalg.norm(dl) * np.linalg.norm(ds))
        if axes == (-1, 0):
            verify(ctx, mp.partialdot(args[0], args[1], start), ref,
                   'partialdot, default axes', shape=shape, norm=False,
                   scale=np.linalg.norm(dl) * np.linalg.norm(ds))
        ctx.state(n, m, start, axes, left, fp(ref))


def run_inner(ctx, shape):
    n = len(shape)
    for ra, rb in it.product(ranks_of(n), repeat=2):
        for cl in ('rr', 'cc', 'rc', 'cr', 'ic', 'Fr', 'zc', 'mr', 'cm', 'Mm'):
            if ctx.quick and n > 1 and ra != rb and cl not in ('cc', 'rc'):
                continue
            for ga, gb in [('raw', 'raw'), ('norm', 'c{}:{}'.format(n - 1, n))]:
                a, da = prepared(ctx, shape, ra, cl[0], ga, 'a')
                b, db = prepared(ctx, shape, rb, cl[1], gb, 'b')
                tol = tol_of(da.dtype, db.dtype)
                scale = np.linalg.norm(da) * np.linalg.norm(db)
                scal(ctx, mp.inner(a, b), np.vdot(da, db), scale, tol, 'inner')
                ctx.step('inner')
                scal(ctx, mp.inner(b, a), np.vdot(db, da), scale, tol, 'inner')
                scal(ctx, mp.inner(a, a), np.vdot(da, da),
                     np.linalg.norm(da)**2, tol, 'inner(a, a)')
                if all(len(s) == 1 for s in shape) and all(r == 1 for r in ra):
                    scal(ctx, mpsp.inner_prod_mps(a, b), np.vdot(da, db),
                         scale, tol, 'inner_prod_mps')
                    ctx.step('inner_prod_mps')
                ctx.state(shape, ra, rb, cl, ga)


def run_outer(ctx, shape):
    n = len(shape)
    sb = tuple(s[::-1] + (2,) if i % 2 else (3,) for i, s in enumerate(shape))
    for ra, rb in it.product(ranks_of(n)[:2], repeat=2):
        for cl in ('rc', 'cr', 'ir', 'mr', 'rM'):
            a, da = prepared(ctx, shape, ra, cl[0], 'norm' if cl == 'rc'
                             else 'raw', 'a')
            b, db = build(sb, rb, cl[1], 'b')
            la, lb, out, cnt = [], [], [], it.count()
            for x, y in zip(shape, sb):
                p = [next(cnt) for _ in x]
                r = [next(cnt) for _ in y]
                la += p
                lb += r
                out += p + r
            ref = np.einsum(da, la, db, lb, out)
            c = mp.localouter(a, b)
            ctx.step('localouter')
            verify(ctx, c, ref, 'localouter',
                   shape=[x + y for x, y in zip(shape, sb)], norm=False)
            ctx.state(shape, ra, rb, cl)


def run_sandwich(ctx, n, rk):
    for rko in ranks_of(n):
        for dims in ([2] * n, [2, 3, 1, 2][:n]):
            for cl in ('rr', 'cc', 'rc', 'cr', 'mr', 'rm', 'Mm'):
                o, do = build([(d, d) for d in dims], rko, cl[0], 'o')
                rect, drect = build([(d + 1, d) for d in dims], rko, cl[0], 'o')
                for g in ('raw', 'norm', 'scal'):
                    v, dv = prepared(ctx, [(d,) for d in dims], rk, cl[1], g, 'v')
                    w, dw = prepared(ctx, [(d,) for d in dims],
                                     rk[::-1], 'c', g, 'w')
                    x, dx = build([(d + 1,) for d in dims], rk, 'c', 'x')
                    od, _ = site_contract(do, [(d, d) for d in dims], dv,
                                          [(d,) for d in dims], (-1, 0))
                    rd, _ = site_contract(drect, [(d + 1, d) for d in dims], dv,
                                          [(d,) for d in dims], (-1, 0))
                    nv = np.linalg.norm(od)
                    scal(ctx, mp.sandwich(o, v), np.vdot(dv, od),
                         nv * np.linalg.norm(dv), 1e-8, 'sandwich')
                    scal(ctx, mp.sandwich(o, v, w), np.vdot(dw, od),
                         nv * np.linalg.norm(dw), 1e-8, 'sandwich mps2')
                    scal(ctx, mp.sandwich(rect, v, x), np.vdot(dx, rd),
                         np.linalg.norm(rd) * np.linalg.norm(dx), 1e-8,
                         'sandwich with rectangular operator')
                    ctx.step('sandwich x3')
                    ctx.state(n, rk, rko, tuple(dims), cl, g)
                    ctx.check(close(dense(v), dv), 'sandwich changed the state')
                    ctx.check(close(dense(o), do), 'sandwich changed the operator')


def run_chain(ctx, lens):
    for legs in it.product([(2,), (1, 2), (3,)], repeat=len(lens)):
        for cl in ('rrr', 'rcr', 'crc', 'iri', 'mrM', 'rmr'):
            for g in ('raw', 'norm', 'scal'):
                parts = [prepared(ctx, (l,) * k, (2,) * (k - 1), c, g, 'p', i)
                         for i, (k, l, c) in enumerate(zip(lens, legs, cl))]
                ref = parts[0][1]
                for _, d in parts[1:]:
                    ref = np.tensordot(ref, d, axes=0)
                for src in (list, iter):
                    c = mp.chain(src([p for p, _ in parts]))
                    ctx.step('chain')
                    verify(ctx, c, ref, 'chain',
                           shape=[l for k, l in zip(lens, legs) for _ in range(k)])
                if len(lens) == 1 or cl == 'rrr':
                    k = mp.MPArray.from_kron([p.to_array() for p, _ in parts])
                    ctx.step('from_kron')
                    ctx.check(close(dense(k), ref), 'from_kron')
                for p, d in parts:
                    ctx.check(close(dense(p), d), 'chain changed a factor')
                ctx.state(lens, legs, cl, g)


def sum_forms(shape):
    """(argument, summed legs per site)"""
    n = len(shape)
    m = min(map(len, shape))
    yield None, [tuple(range(len(s))) for s in shape]
    for k in range(-m, m):
        yield k, [(k % len(s),) for s in shape]
    yield (), [()] * n
    for r in range(1, m + 1):
        for ax in it.combinations(range(m), r):
            yield ax, [ax] * n
            yield list(ax), [ax] * n
        for ax in it.permutations(range(-m, 0), r):
            yield ax, [tuple(a % len(s) for a in ax) for s in shape]
    opts = []
    for s in shape:
        o = [None, ()] + [(k,) for k in range(-len(s), len(s))]
        if len(s) > 1:
            o.append((0, len(s) - 1))
        opts.append(o)
    for sel in it.product(*opts):
        exp = [tuple(range(len(s))) if a is None else
               tuple(x % len(s) for x in a) for a, s in zip(sel, shape)]
        yield list(sel), exp
        yield tuple(sel), exp
        if n < 3:
            yield iter(sel), exp


def run_sum(ctx, shape):
    n = len(shape)
    off = offsets(shape)
    for ranks in ranks_of(n)[-1:] if ctx.quick else ranks_of(n):
        for cls, g in [('r', 'raw'), ('c', 'norm')]:
            a, da = prepared(ctx, shape, ranks, cls, g, 's')
            scale = np.abs(da).sum()
            for k, (arg, exp) in enumerate(sum_forms(shape)):
                if cls == 'c' and k % 3 or n == 3 and k > 40 and k % 5 and ctx.quick:
                    continue
                ref = da.sum(axis=tuple(o + x for o, e in zip(off, exp)
                                        for x in e))
                res = a.sum(arg) if k else a.sum()
                ctx.step('sum {}'.format(arg))
                left = [tuple(d for j, d in enumerate(s) if j not in e)
                        for s, e in zip(shape, exp)]
                if sum(map(len, left)) == 0:
                    scal(ctx, res, ref, scale, 1e-8, 'sum({})'.format(arg))
                else:
                    verify(ctx, res, ref, 'sum({})'.format(arg), shape=left,
                           scale=scale, norm=False)
                ctx.state(shape, ranks, tuple(map(tuple, exp)), cls)
            m, M = min(map(len, shape)), max(map(len, shape))
            site = max(range(n), key=lambda i: len(shape[i]))
            for bad in (m, -m - 1, M, (0, m), [(0,)] * (n - 1) + [(M,)],
                        [(-M - 1,)] + [()] * (n - 1), [()] * (n + 1),
                        [()] * site + [(M,)] + [None] * (n - site - 1)):
                ctx.step('sum rejects {}'.format(bad))
                rejects(ctx, lambda: a.sum(bad), 'sum({})'.format(bad))
            ctx.check(close(dense(a), da), 'sum changed the operand')


def run_trace(ctx, shape):
    """trace / partialtrace over every admissible pair on every site"""
    n = len(shape)
    off = offsets(shape)
    opts = []
    for s in shape:
        o = [None]
        for i, j in it.permutations(range(len(s)), 2):
            if s[i] == s[j]:
                o += [(i, j), (i - len(s), j)]
        opts.append(o)
    for ranks in ranks_of(n)[-1:] if ctx.quick else ranks_of(n):
        for cls, g in [('r', 'raw'), ('c', 'norm')]:
            a, da = prepared(ctx, shape, ranks, cls, g, 't')
            scale = np.abs(da).sum()
            forms = [(sel, sel) for sel in it.product(*opts)]
            if n == 3 and ctx.quick:
                forms = forms[::7] + forms[-1:]
            for ax in [(0, 1), (1, 0), (-1, -2), (0, 2), (-1, 1)]:
                if all(all(-len(s) <= x < len(s) for x in ax) and
                       ax[0] % len(s) != ax[1] % len(s) and
                       s[ax[0]] == s[ax[1]] for s in shape):
                    forms.append((ax, (ax,) * n))
            for bad in ((None,) * (n - 1), (None,) * (n + 1), ((0, 1),) * (n + 1),
                        ((0, 1),) * (n - 1)):
                if bad:
                    rejects(ctx, lambda: mp.partialtrace(a, axes=bad),
                            'partialtrace, number of sites')
                    rejects(ctx, lambda: mp.trace(a, axes=bad),
                            'trace, number of sites')
            for arg, sel in forms:
                labs, out, left, cnt = [], [], [], it.count()
                for s, ax in zip(shape, sel):
                    l = [next(cnt) for _ in s]
                    if ax is not None:
                        i, j = ax[0] % len(s), ax[1] % len(s)
                        l[j] = l[i]
                        out += [x for k, x in enumerate(l) if k not in (i, j)]
                        left.append(tuple(d for k, d in enumerate(s)
                                          if k not in (i, j)))
                    else:
                        out += l
                        left.append(s)
                    labs += l
                ref = np.einsum(da, labs, out)
                res = mp.partialtrace(a, axes=arg)
                ctx.step('partialtrace {}'.format(arg))
                pruned = [s for s in left if s] or [()]
                verify(ctx, res, ref, 'partialtrace({})'.format(arg),
                       shape=pruned, scale=scale, norm=False)
                if not out:
                    scal(ctx, mp.trace(a, axes=arg), ref, scale, 1e-8,
                         'trace({})'.format(arg))
                    ctx.step('trace {}'.format(arg))
                    if arg == (0, 1):
                        scal(ctx, mp.trace(a), ref, scale, 1e-8, 'trace()')
                        verify(ctx, mp.partialtrace(a), ref, 'partialtrace()',
                               scale=scale, norm=False)
                ctx.state(shape, ranks, cls, sel)
            ctx.check(close(dense(a), da), 'trace changed the operand')


def run_get(ctx, shape):
    n = len(shape)
    for ranks in ranks_of(n)[-1:]:
        for cls, g in [('r', 'raw'), ('c', 'norm')]:
            a, da = prepared(ctx, shape, ranks, cls, g, 'g')
            off = offsets(shape)
            for idx in it.product(*[range(s[0]) for s in shape]):
                sl = [slice(None)] * da.ndim
                for o, i in zip(off, idx):
                    sl[o] = i
                neg = [i - s[0] for i, s in zip(idx, shape)]
                for ind in (idx, list(idx), np.array(idx), neg):
                    res = a.get(ind)
                    ctx.step('get {}'.format(ind))
                    verify(ctx, res, da[tuple(sl)], 'get', norm=False,
                           scale=maxabs(da), shape=[s[1:] for s in shape])
            for k in range(n):     # one site out of range, or missing
                for bad in (shape[k][0], -shape[k][0] - 1):
                    ind = [0] * n
                    ind[k] = bad
                    rejects(ctx, lambda: a.get(ind), 'get {}'.format(ind))
            rejects(ctx, lambda: a.get([0] * (n + 1)), 'get, too many')
            forms = [(0, [0] * n)]
            m = min(map(len, shape))
            forms += [(k, [k] * n) for k in range(1, m)]
            for sel in it.product(*[range(len(s)) for s in shape]):
                forms += [(list(sel), sel), (iter(sel), sel)]
            forms.append(('default', [0] * n))
            for k in range(1, m + 1):    # counted from the last leg
                forms.append((-k, [len(s) - k for s in shape]))
            for sel in it.product(*[range(-len(s), 0) for s in shape]):
                forms.append((list(sel), [len(s) + k for s, k in zip(shape, sel)]))
            for bad in (m, -m - 1, max(map(len, shape)), [0] * (n - 1)):
                ctx.step('axis_iter rejects {}'.format(bad))
                rejects(ctx, lambda: list(a.axis_iter(bad)),
                        'axis_iter({})'.format(bad))
            for arg, sel in forms:
                res = list(a.axis_iter() if arg == 'default' else
                           a.axis_iter(arg))
                ctx.step('axis_iter {}'.format(sel))
                idxs = list(it.product(*[range(s[k]) for s, k in zip(shape, sel)]))
                ctx.check(len(res) == len(idxs), 'axis_iter: {} items, expected {}'
                          .format(len(res), len(idxs)))
                for r, idx in zip(res, idxs):
                    sl = [slice(None)] * da.ndim
                    for o, k, i in zip(off, sel, idx):
                        sl[o + k] = i
                    verify(ctx, r, da[tuple(sl)], 'axis_iter', norm=False,
                           scale=maxabs(da),
                           shape=[s[:k] + s[k + 1:] for s, k in zip(shape, sel)])
            ctx.state(shape, ranks, cls)


def run_diag(ctx, shape):
    n = len(shape)
    if len(set(map(len, shape))) > 1:
        a, _ = build(shape, (2,) * (n - 1), 'r')
        rejects(ctx, lambda: mp.diag(a), 'diag with different numbers of legs')
        return
    off = offsets(shape)
    for ranks in ranks_of(n):
        for cls, g in [('r', 'raw'), ('c', 'norm'), ('i', 'raw')]:
            a, da = prepared(ctx, shape, ranks, cls, g, 'd')
            for axis in range(len(shape[0])):
                if len({s[axis] for s in shape}) > 1:
                    rejects(ctx, lambda: mp.diag(a, axis), 'diag, dimensions differ')
                    continue
                for res in [mp.diag(a, axis), mp.diag(a, axis - len(shape[0]))] + (
                        [mp.diag(a)] if axis == 0 else []):
                    ctx.step('diag {}'.format(axis))
                    ctx.check(len(res) == shape[0][axis], 'diag: length')
                    for i, r in enumerate(res):
                        sl = [slice(None)] * da.ndim
                        for o in off:
                            sl[o + axis] = i
                        if len(shape[0]) == 1:
                            scal(ctx, r, da[tuple(sl)], maxabs(da), 1e-8, 'diag')
                        else:
                            verify(ctx, r, da[tuple(sl)], 'diag', norm=False,
                                   scale=maxabs(da))
                ctx.state(shape, ranks, cls, axis)
            for axis in (len(shape[0]), -len(shape[0]) - 1):
                rejects(ctx, lambda: mp.diag(a, axis), 'diag, no such leg')


def run_types(ctx):
    """The documented type of the result for operands of a subclass"""
    for n in (1, 2, 3):
        pl, dp = build(((3, 2, 2),) * n, (2,) * (n - 1), 'c', 'p')
        p = mpp.MPPovm([np.array(t) for t in pl.lt])
        o, do = build(((2, 2),) * n, (2,) * (n - 1), 'c', 'o')
        sp, so = [(3, 2, 2)] * n, [(2, 2)] * n
        ref, shape = site_contract(dp, sp, do, so, (-1, 0))
        left, lshape = site_contract(do, so, dp, sp, (-1, 1))
        idx = (1,) * n
        sl = tuple(x for _ in range(n) for x in (1, slice(None), slice(None)))
        both = np.multiply.outer(dp, dp)
        forms = [
            ('dot', lambda: mp.dot(p, o), ref, shape, mpp.MPPovm),
            ('dot astype', lambda: mp.dot(p, o, astype=mp.MPArray), ref, shape,
             mp.MPArray),
            ('dot from the left', lambda: mp.dot(o, p, axes=(-1, 1)), left,
             lshape, mp.MPArray),
            ('get', lambda: p.get(idx, astype=mp.MPArray), dp[sl], so,
             mp.MPArray),
            ('chain', lambda: mp.chain([p, p]), both, sp + sp, mpp.MPPovm),
            ('chain astype', lambda: mp.chain([p, p], astype=mp.MPArray), both,
             sp + sp, mp.MPArray),
            ('chain of both', lambda: mp.chain([pl, p]), both, sp + sp,
             mp.MPArray),
        ]
        for what, f, want, shp, cls in forms:
            r = f()
            ctx.step('{} {}'.format(what, n))
            ctx.check(type(r) is cls, lambda: '{}: type {} expected {}'.format(
                what, type(r), cls))
            verify(ctx, r, want, what, shape=shp, norm=False)
        ctx.state('types', n)


def run_reject(ctx):
    a, _ = build(((2, 2),) * 2, (2,), 'r')
    b, _ = build(((2, 2),) * 3, (2, 2), 'r')
    c, _ = build(((3, 3),) * 2, (2,), 'r')
    p = [build(((d,),) * n, (r,) * (n - 1), 'r')[0] for d, n, r in
         ((2, 2, 1), (2, 3, 1), (2, 2, 2), (2, 3, 2), (3, 2, 2))]
    for what, f in [
            ('dot, lengths', lambda: mp.dot(a, b)),
            ('inner, lengths', lambda: mp.inner(a, b)),
            ('localouter, lengths', lambda: mp.localouter(a, b)),
            ('dot, dimensions', lambda: mp.dot(a, c)),
            ('inner, dimensions', lambda: mp.inner(a, c)),
            ('dot, number of legs', lambda: mp.dot(a, a, axes=((0, 1), (0,)))),
            ('product inner, lengths', lambda: mpsp.inner_prod_mps(p[0], p[3])),
            ('product inner, lengths', lambda: mpsp.inner_prod_mps(p[1], p[2])),
            ('product inner, dimensions', lambda: mpsp.inner_prod_mps(p[0], p[4])),
            ('chain of nothing', lambda: mp.chain([])),
            ('partialtrace of a bond', lambda: mp.partialtrace(a, axes=(0, 2))),
            ('trace, leg out of range', lambda: mp.trace(a, axes=(-3, 0))),
            ('trace, bond leg', lambda: mp.trace(a, axes=((0, 1), (0, -3)))),
            ('sum, too few sites', lambda: b.sum([(0,), (0,)])),
            ('sum, too many sites', lambda: a.sum([(0,), (0,), (0,)])),
            ('sum, leg out of range', lambda: a.sum(2)),
            ('sum, negative leg out of range', lambda: a.sum(-3)),
            ('get, length', lambda: a.get((0,)))]:
        rejects(ctx, f, what)
        ctx.step(what)
    ctx.state('reject')
