"""C04 structural operations."""
import itertools as it

import numpy as np

import mpnum as mp

from .. import fine, scale
from ..lib import (all_ranks, build, close, dense, dense_of, fp, gauges, maxabs,
                   offsets, prepared, rejects, snapshot, tensor, tol_of,
                   unchanged, verify)

RULE = ('a case is one leg structure; all rank vectors, gauges, positions and '
        'arguments run inside it; histories are all words of structural '
        'operations up to the depth')
ASSUMPTIONS = ['values are representatives of the listed classes']

LEGS = [(2,), (1,), (2, 2), (1, 3), ()]


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                larger_structures=scale.bounds(),
                sites='1..4', legs=[str(l) for l in LEGS], ranks='1..3',
                gauges='raw, all canonical pairs (n<=3), norm, scaled',
                inject='all position sets, 0..2 copies, own tensors',
                word_length=3 if q else 4)


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 4):
        for s in it.product(LEGS, repeat=n):
            if n == 3 and q and len(set(s)) == 3 and s[0] != ():
                continue
            yield ('ops', s)
    for s in [((2,),) * 4, ((2, 2),) * 4, ((2,), (1,), (2, 2), (3,)),
              ((1,), (1, 1), (2,), (1,)), ((), (2,), (), (2,)), ((2,),) * 6,
              ((1,), (2,), (1,), (1,), (3,))]:
        yield ('ops', s)
    for n in range(1, 4):
        for s in it.product([(2,), (2, 2), (3, 3), (2, 3)], repeat=n):
            yield ('inject', s)
    for n in range(1, 5):
        for s in it.product([(2,), (3, 2), (1,)], repeat=n):
            if n == 4 and q and len(set(s)) > 1 and s[0] == s[1]:
                continue
            yield ('pad', s)
    for s in [((2,),), ((4, 2),), ((2, 2), (2, 2)), ((2,), (3,)),
              ((2, 2), (1, 1), (2, 2)), ((2,),) * 4]:
        for g in gauges(len(s), full=True):
            for first in range(NWORD):
                yield ('word', s, g, first)
    for key in scale.keys(sorted(scale.STRUCT)):
        yield key
    for key in fine.keys(['v3', 'v4', 'm3', 'o3']):
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c04(ctx, *key)


def run_scale(ctx, *key):
    scale.c04(ctx, *key)


def open_parts(m, pos):
    """Left and right halves with the bond as an open leg."""
    lts = [np.asarray(t) for t in m.lt]
    left = lts[0]
    for t in lts[1:pos + 1]:
        left = np.tensordot(left, t, axes=([left.ndim - 1], [0]))
    right = lts[pos + 1]
    for t in lts[pos + 2:]:
        right = np.tensordot(right, t, axes=([right.ndim - 1], [0]))
    return left[0], right[..., 0]


def run_ops(ctx, shape):
    n = len(shape)
    for ranks in [()] if n == 1 else all_ranks(n, (1, 2, 3)) if n == 2 else \
            [(1,) * (n - 1), (2, 3, 2, 1, 2)[:n - 1], (3, 1, 3, 2, 2)[:n - 1]]:
        for k, g in enumerate(gauges(n, full=n < 4)):
            for cls in ('rcF' if k == 0 else 'c' if k % 2 else 'r'):
                if n > 2 and ctx.quick and ranks != (2, 3, 2, 1, 2)[:n - 1] and k % 2:
                    continue
                a, da = prepared(ctx, shape, ranks, cls, g, 'o')
                structural(ctx, a, da, shape, tol_of(*[t.dtype for t in a.lt]))
                ctx.state(shape, ranks, g, cls)


def structural(ctx, a, da, shape, tol):
    n = len(shape)
    snap = snapshot(a)
    sc = maxabs(da)
    size = [int(np.prod(s)) for s in shape]

    def ok(res, ref, what, sh=None, norm=True):
        ctx.step(what)
        verify(ctx, res, ref, what, shape=sh, scale=sc, tol=tol, norm=norm)

    # reshape
    flat = [(k,) for k in size]
    ok(a.ravel(), da.reshape(size), 'ravel', flat)
    ok(a.reshape((-1,)), da.reshape(size), 'reshape((-1,))', flat)
    ok(a.reshape(flat), da.reshape(size), 'reshape(list)', flat)
    ok(a.reshape(iter(flat)), da.reshape(size), 'reshape(iter)', flat, False)
    two = [(1, k, 1) if i % 2 else (k, 1) for i, k in enumerate(size)]
    ok(a.reshape(two), da.reshape(sum(two, ())), 'reshape two', two)
    if len(set(size)) == 1:
        s = (1, size[0])
        ok(a.reshape(s), da.reshape(s * n), 'reshape(single)', [s] * n)
    pr = [tuple(d for d in s if d > 1) for s in shape]
    ok(a.reshape('prune'), da.reshape(sum(pr, ())), "reshape('prune')", pr)
    bad = [(k + 1,) for k in size]
    rejects(ctx, lambda: a.reshape(bad), 'reshape to wrong size')
    for bad in (flat[:-1], flat + flat[:1], flat[:1] * (n + 2)):
        rejects(ctx, lambda: a.reshape(bad), 'reshape, number of sites')
        rejects(ctx, lambda: a.reshape(iter(bad)), 'reshape, number of sites')
    # group / split sites
    for k in range(1, n + 1):
        if n % k:
            rejects(ctx, lambda: a.group_sites(k), 'group_sites({})'.format(k))
            continue
        sh = [sum(shape[i:i + k], ()) for i in range(0, n, k)]
        g = a.group_sites(k)
        ok(g, da, 'group_sites({})'.format(k), sh)
        if len({len(s) for s in shape}) == 1 and len(shape[0]) > 0:
            ok(g.split_sites(k), da, 'split_sites after group', shape)
    for k in (1, 2, 3):
        if all(len(s) and len(s) % k == 0 for s in shape):
            sh = []
            for s in shape:
                m = len(s) // k
                sh += [s[i:i + m] for i in range(0, len(s), m)]
            ok(a.split_sites(k), da, 'split_sites({})'.format(k), sh)
        elif any(len(s) % k for s in shape):
            rejects(ctx, lambda: a.split_sites(k), 'split_sites')
    # reverse
    off = offsets(shape)
    perm = [o + j for o, s in list(zip(off, shape))[::-1] for j in range(len(s))]
    r = a.reverse()
    ok(r, da.transpose(perm), 'reverse', shape[::-1])
    ok(r.reverse(), da, 'reverse twice', shape, False)
    # virtual legs
    for pos in range(n - 1):
        L, R = open_parts(a, pos)
        D = L.shape[-1]
        ref = np.tensordot(L, R, axes=0)
        sh = [s + (D,) if i == pos else (D,) + s if i == pos + 1 else s
              for i, s in enumerate(shape)]
        v = a.vleg2leg(pos)
        ctx.step('vleg2leg {}'.format(pos))
        verify(ctx, v, ref, 'vleg2leg({})'.format(pos), shape=sh, tol=tol,
               scale=maxabs(L) * maxabs(R))
        ctx.check(v.ranks[pos] == 1, 'vleg2leg: rank is not 1')
        b = v.leg2vleg(pos)
        ok(b, da, 'leg2vleg({})'.format(pos), shape)
        ctx.check(tuple(b.ranks) == tuple(a.ranks), 'leg2vleg: ranks changed')
        if D > 1:
            rejects(ctx, lambda: a.leg2vleg(pos), 'leg2vleg with rank > 1')
        elif not shape[pos] or not shape[pos + 1] or \
                shape[pos][-1] != shape[pos + 1][0]:
            if shape[pos] and shape[pos + 1]:
                rejects(ctx, lambda: a.leg2vleg(pos), 'leg2vleg, legs differ')
        else:
            o1 = off[pos] + len(shape[pos]) - 1
            ref = np.trace(da, axis1=o1, axis2=o1 + 1)
            sh = [s[:-1] if i == pos else s[1:] if i == pos + 1 else s
                  for i, s in enumerate(shape)]
            ctx.step('leg2vleg {}'.format(pos))
            verify(ctx, a.leg2vleg(pos), ref, 'leg2vleg on physical legs',
                   shape=sh, scale=sc * shape[pos][-1], tol=tol)
        ml, mr = a.split(pos)
        ctx.step('split {}'.format(pos))
        verify(ctx, ml, L, 'split({})[0]'.format(pos), tol=tol,
               shape=list(shape[:pos]) + [shape[pos] + (D,)])
        verify(ctx, mr, R, 'split({})[1]'.format(pos), tol=tol,
               shape=[(D,) + shape[pos + 1]] + list(shape[pos + 2:]))
    for pos, (x, y) in [(-1, (False, True)), (n, (True, False))]:
        l, r = a.split(pos)
        ctx.step('split {}'.format(pos))
        for m, want in ((l, x), (r, y)):
            ctx.check((m is not None) == want, 'split outside the chain')
            if m is not None:
                ok(m, da, 'split outside', shape, False)
    # prune
    left = [s for s in shape if s] or [()]
    ok(mp.prune(a), da, 'prune', left)
    left = [s for s in shape if int(np.prod(s)) != 1] or [()]
    keep = sum(left, ())
    ok(mp.prune(a, singletons=True), da.reshape(keep), 'prune singletons', left)
    unchanged(ctx, a, snap, 'structural operations', tol)


def run_inject(ctx, shape):
    n = len(shape)
    t1 = tensor((2,), 'r', 'inj')
    t2 = tensor((3, 1), 'c', 'inj')
    for ranks in [()] if n == 1 else [(1,) * (n - 1), (3, 2)[:n - 1]]:
        for cls, g in [('r', 'raw'), ('c', 'norm'), ('r', 'scal')]:
            a, da = prepared(ctx, shape, ranks, cls, g, 'inj')

            def expect(pos, lists):
                """reference: lists[i] tensors before site pos[i]"""
                seq = []
                for i in range(n + 1):
                    if i in pos:
                        seq += [('t', x) for x in lists[pos.index(i)]]
                    if i < n:
                        seq.append(('s', i))
                la, cnt, args, out, sh = {}, it.count(), [], [], []
                for kind, x in seq:
                    if kind == 's':
                        la[x] = [next(cnt) for _ in shape[x]]
                        out += la[x]
                        sh.append(shape[x])
                    else:
                        lab = [next(cnt) for _ in x.shape]
                        args += [x, lab]
                        out += lab
                        sh.append(x.shape)
                flat = [l for i in range(n) for l in la[i]]
                return np.einsum(da, flat, *(args + [out])), sh

            def check(res, pos, lists, what):
                ref, sh = expect(pos, lists)
                ctx.step(what)
                verify(ctx, res, ref, what, shape=sh, norm=ref.size < 3000)
                ctx.state(shape, ranks, cls, what)

            for pos in range(n + 1):
                site = shape[pos] if pos < n else shape[n - 1]
                eye = np.eye(site[0])
                for num in (0, 1, 2):
                    check(mp.inject(a, pos, num), [pos], [[eye] * num],
                          'inject({}, {})'.format(pos, num))
                    check(mp.inject(a, pos, num, t2), [pos], [[t2] * num],
                          'inject({}, {}, t)'.format(pos, num))
                for lst in ([t1], [t1, t2], [t2, t1], []):
                    check(mp.inject(a, pos, None, lst), [pos], [lst],
                          'inject({}, None, {} tensors)'.format(pos, len(lst)))
                rejects(ctx, lambda: mp.inject(a, pos, None, t1),
                        'inject with num=None and a single tensor')
            for r in (1, 2, 3):
                for pos in it.combinations(range(n + 1), r):
                    if ctx.quick and r == 3 and n == 3 and pos[0]:
                        continue
                    num = [k % 2 + 1 for k in range(r)]
                    eyes = [np.eye((shape[p] if p < n else shape[n - 1])[0])
                            for p in pos]
                    check(mp.inject(a, pos, num), list(pos),
                          [[e] * k for e, k in zip(eyes, num)],
                          'inject({}, {})'.format(pos, num))
                    tens = [(t1, t2, t1)[k] for k in range(r)]
                    check(mp.inject(a, list(pos), num, tens), list(pos),
                          [[t] * k for t, k in zip(tens, num)],
                          'inject({}, {}, tensors)'.format(pos, num))
                    lists = [([t1, t2], [t2], [])[k] for k in range(r)]
                    check(mp.inject(a, pos, None, lists), list(pos), lists,
                          'inject({}, None, lists)'.format(pos))
                    mixed = [None] + [1] * (r - 1)
                    mt = [[t2, t1]] + [None] * (r - 1)
                    check(mp.inject(a, pos, mixed, mt), list(pos),
                          [[t2, t1]] + [[e] for e in eyes[1:]],
                          'inject({}, mixed)'.format(pos))
            for pos in range(-n, 0):    # before the site with that index
                check(mp.inject(a, pos, 1, t2), [n + pos], [[t2]],
                      'inject({}, 1, t)'.format(pos))
            for pos in (-n - 1, n + 1, (-n - 1, 0), (0, n + 1), (-1, 0), (-2, 0)):
                k = [1] * len(pos) if isinstance(pos, tuple) else 1
                t = [t1] * len(pos) if isinstance(pos, tuple) else t1
                if pos in ((-1, 0), (-2, 0)) and n == -pos[0] - 1:
                    continue
                rejects(ctx, lambda: mp.inject(a, pos, k, t),
                        'inject, positions {}'.format(pos))
            if n > 1:
                rejects(ctx, lambda: mp.inject(a, (1, 0), (1, 1)),
                        'inject, descending positions')
                rejects(ctx, lambda: mp.inject(a, (1, 1), (1, 1)),
                        'inject, equal positions')
            ctx.check(close(dense(a), da), 'inject changed the operand')


def run_pad(ctx, shape):
    n = len(shape)
    size = [int(np.prod(s)) for s in shape]
    full = [min(int(np.prod(size[:k])), int(np.prod(size[k:])))
            for k in range(1, n)]
    for ranks in all_ranks(n, (1, 2, 4) if n < 4 else (1, 3)):
        for cls, g in [('r', 'raw'), ('c', 'norm')]:
            a, da = prepared(ctx, shape, ranks, cls, g, 'pad')
            cur = list(a.ranks)
            for rank in (None, 1, 2, 3, 6):
                for force in (False, True):
                    rk = rank if rank is not None else max(cur) if n > 1 else 1
                    want = [max(c, rk if force else min(rk, f))
                            for c, f in zip(cur, full)]
                    p = a.pad_ranks(rank, force_rank=force)
                    ctx.step('pad_ranks({}, {})'.format(rank, force))
                    verify(ctx, p, da, 'pad_ranks({}, force={})'.format(
                        rank, force), shape=shape, norm=not force)
                    ctx.check(list(p.ranks) == want,
                              'pad_ranks({}, {}): ranks {} expected {}'.format(
                                  rank, force, p.ranks, want))
                    ctx.state(shape, tuple(cur), rank, force)
            p = a.pad_ranks()
            verify(ctx, p, da, 'pad_ranks()', shape=shape, norm=False)
            ctx.check(close(dense(a), da), 'pad_ranks changed the operand')


def _ops():
    def ravel(m, d, s):
        s = [(int(np.prod(x)),) for x in s]
        return m.ravel(), d.reshape(sum(s, ())), s

    def fold(m, d, s):
        s = [(x[0], 1) + tuple(x[1:]) if x else (1,) for x in s]
        return m.reshape(s), d.reshape(sum(s, ())), s

    def prune(m, d, s):
        s2 = [tuple(x) for x in s if int(np.prod(x)) != 1] or [()]
        return mp.prune(m, singletons=True), d.reshape(sum(s2, ())), s2

    def group(m, d, s):
        for k in (2, 3):
            if len(s) % k == 0 and len(s) > 1:
                return (m.group_sites(k), d,
                        [sum(map(tuple, s[i:i + k]), ())
                         for i in range(0, len(s), k)])

    def ungroup(m, d, s):
        if all(len(x) and len(x) % 2 == 0 for x in s):
            return (m.split_sites(2), d,
                    [tuple(h) for x in s
                     for h in (x[:len(x) // 2], x[len(x) // 2:])])

    def reverse(m, d, s):
        off = offsets(s)
        perm = [o + j for o, x in list(zip(off, s))[::-1] for j in range(len(x))]
        return m.reverse(), d.transpose(perm), list(s[::-1])

    def legs(m, d, s):
        if len(s) > 1:
            p = len(s) // 2 - 1
            return m.vleg2leg(p).leg2vleg(p), d, s

    def inject(m, d, s):
        t = np.array([1., -2.])
        if d.size < 200:
            k = sum(len(x) for x in s[:1])
            ref = np.tensordot(d, t, axes=0)
            ref = np.moveaxis(ref, -1, k)
            return mp.inject(m, 1, 1, t), ref, [s[0], (2,)] + list(s[1:])

    def pad(m, d, s):
        return m.pad_ranks(3), d, s

    def rechain(m, d, s):
        if len(s) > 1:
            p = len(s) // 2
            a, b = m.split(p - 1)
            return mp.chain([a, b]).leg2vleg(p - 1), d, s

    def gl(m, d, s):
        m = m.copy()
        m.canonicalize(right=1)
        return m, d, s

    def gr(m, d, s):
        m = m.copy()
        m.canonicalize(left='afull')
        return m, d, s
    return [ravel, fold, prune, group, ungroup, reverse, legs, inject, pad,
            rechain, gl, gr]


NWORD = len(_ops())


def run_word(ctx, shape, gauge, first):
    ops = _ops()
    depth = 3 if ctx.quick else 4
    n = len(shape)

    def rec(m, d, s, word):
        for op in ([ops[first]] if not word else ops):
            out = op(m, d, s)
            if out is None:
                continue
            new, nd, ns = out
            ctx.step(op.__name__)
            verify(ctx, new, nd, ' '.join(word + [op.__name__]), shape=ns,
                   norm=len(word) + 1 == depth or op.__name__ in ('rechain',))
            ctx.state(tuple(map(tuple, ns)), tuple(new.canonical_form),
                      tuple(new.ranks))
            if len(word) + 1 < depth:
                rec(new, nd, ns, word + [op.__name__])
    m, d = prepared(ctx, shape, (2, 3, 2)[:n - 1], 'c', gauge, 'w')
    rec(m, d, list(shape), [])
