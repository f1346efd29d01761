"""C11 sums of embedded local terms equal the dense sum."""
import itertools as it

import numpy as np

import mpnum as mp
from mpnum.utils import physics

from .. import fine
from ..lib import (all_ranks, apply_gauge, build, close, dense, dense_of, fp,
                   global_to_local_ref, local_to_global_ref, maxabs, op_matrix,
                   rejects, snapshot, tensor, tol_of, unchanged, verify)

RULE = ('all (width, number of terms, legs, ranks, value classes, embedding, '
        'gauge) of consecutive sums; all sequences of windows up to the number '
        'of terms; all (length, width, offset) of slices; all cyclic sizes')
ASSUMPTIONS = ['values are representatives of the listed classes',
               'the last cyclic term acts with its first leg on the first site '
               '(both constructions agree on that)']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                width='1..4', terms='1..6 (10 for one leg of dimension 2)', chain='up to 10',
                ranks='1..3', legs='(2,2) (3,3) (2,) (2,3) (2,1) (2,2,2)',
                embedding='default, generic real/complex/int/zero/ones',
                window_sequences='chains 1..{}, up to 3 terms'.format(3 if q else 4),
                slice_lengths='1..12', cyclic='2..{} sites, ldim 2, 3'.format(
                    4 if q else 6))


EMB = ['def', 'r', 'c', 'i', 'z', 'o']


def embed_ref(term, start, length, emb):
    """Dense array of a dense term placed at `start`; own code"""
    arr, n = term
    res = np.ones(())
    for _ in range(start):
        res = np.multiply.outer(res, emb)
    res = np.multiply.outer(res, arr)
    for _ in range(length - start - n):
        res = np.multiply.outer(res, emb)
    return res


def emb_of(leg, kind):
    """(argument, dense tensor)"""
    if kind == 'def':
        return None, np.eye(leg[0])
    t = tensor(tuple(leg), kind, 'emb')
    return t, t.copy()


def maxterms(w, size):
    """Terms such that the dense sum stays small"""
    lim = {2: 10, 4: 6, 6: 5, 8: 4, 9: 4}[size]
    if size == 2:
        return lim - w + 1
    return max(1, min(5 if w > 1 else 6, lim - w + 1))


def cases(tier):
    q = tier == 'quick'
    legs = [(2, 2), (2,), (2, 3), (3, 3), (2, 1), (2, 2, 2)]
    for leg in legs:
        size = int(np.prod(leg))
        for w in (1, 2, 3, 4):
            for k in range(1, maxterms(w, size) + 1):
                yield ('reg', leg, w, k)
    for L in (1, 2, 3) if q else (1, 2, 3, 4):
        wins = [(a, b) for a in range(L) for b in range(a + 1, L + 1)]
        for first in wins:
            yield ('slices', L, first, 3 if L < 4 else 2)
    if q:
        for first in [(a, b) for a in range(4) for b in range(a + 1, 5)]:
            yield ('slices', 4, first, 2)
    for L in range(1, 13):
        yield ('regslices', L)
    for L in range(1, 6):
        yield ('embed', L)
    for N in range(2, 5 if q else 7):
        for ld in (2, 3):
            if ld ** N <= (81 if q else 729):
                yield ('cyc', N, ld)
    yield ('reject',)
    for key in fine.c11_keys():
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c11(ctx, *key)


def gauge_set(w):
    if w == 1:
        return ['raw', 'norm', 'scal']
    return ['raw', 'c0:1', 'c{}:{}'.format(w - 1, w), 'scal']


def run_reg(ctx, leg, w, k):
    leg = tuple(leg)
    square = len(leg) == 2 and leg[0] == leg[1]
    L = w + k - 1
    rkss = all_ranks(w, (1, 2)) + [(3,) * (w - 1)] * (w > 1)
    rkss = [[rk] * k for rk in rkss]
    if w > 1:
        rkss.append([tuple(1 + (i + j) % 3 for j in range(w - 1))
                     for i in range(k)])
    clss = [['r'] * k, ['c'] * k, ['i'] * k,
            ['ricfz'[i % 5] for i in range(k)],
            ['zF'[i % 2] for i in range(k)]]
    for rks, cl, emb, g in it.product(rkss, clss, EMB, gauge_set(w)):
        if emb == 'def' and not square:
            continue
        if g == 'scal' and set(cl) & set('i'):
            continue
        big = len(rks[0]) and (rks is not rkss[-1]) and max(rks[0]) < 3
        if ctx.quick:
            # pairwise: generic values with everything, everything generic
            if sum([emb not in ('def', 'c'), g != 'raw', cl is not clss[1],
                    bool(big)]) > 1:
                continue
        terms, refs = [], []
        for i in range(k):
            m, ref = build([leg] * w, rks[i], cl[i], 'ls', i)
            f = apply_gauge(m, g)
            terms.append(m)
            refs.append((ref * f, w))
        arg, t = emb_of(leg, emb)
        want = sum(embed_ref(r, i, L, t) for i, r in enumerate(refs))
        scale = max(maxabs(embed_ref(r, i, L, t)) for i, r in enumerate(refs))
        tol = tol_of(*([m.dtype for m in terms] + [t.dtype]))
        D = max(max(m.ranks) if w > 1 else 1 for m in terms)
        snaps = [snapshot(m) for m in terms]
        variants = [('list', lambda: mp.local_sum(terms, arg)),
                    ('gen', lambda: mp.local_sum((m for m in terms), arg)),
                    ('length', lambda: mp.local_sum(terms, arg, L + 3)),
                    ('slices', lambda: mp.local_sum(
                        terms, arg, L, [slice(i, i + w) for i in range(k)]))]
        for name, fun in variants:
            what = 'local_sum {} width {} {} terms emb {} {}'.format(
                name, w, k, emb, ''.join(cl))
            res = fun()
            ctx.step(what)
            verify(ctx, res, want, what, [leg] * L, max(scale, 1e-300), tol,
                   norm=scale > 0)
            if len(res) > 1:
                ctx.check(max(res.ranks) <= w * D + 1, lambda:
                          '{}: rank {} exceeds width*D+1 = {}'.format(
                              what, res.ranks, w * D + 1))
        for m, s in zip(terms, snaps):
            unchanged(ctx, m, s, what, max(1e-8, tol))
        ctx.state('reg', leg, w, k, fp(want))


def run_slices(ctx, L, first, depth):
    wins = [(a, b) for a in range(L) for b in range(a + 1, L + 1)]
    for extra in range(depth):
        for rest in it.product(wins, repeat=extra):
            seq = [tuple(first)] + list(rest)
            for leg, emb, cl in (((2, 2), 'def', 'r'), ((2, 2), 'c', 'r'),
                                 ((2,), 'r', 'c')):
                if extra == 2 and leg == (2,) and ctx.quick:
                    continue
                terms, refs = [], []
                for i, (a, b) in enumerate(seq):
                    m, ref = build([leg] * (b - a), (2,) * (b - a - 1), cl, 'sl', i)
                    terms.append(m)
                    refs.append((ref, b - a))
                arg, t = emb_of(leg, emb)
                want = sum(embed_ref(r, a, L, t) for r, (a, b) in zip(refs, seq))
                what = 'local_sum slices {} L={}'.format(seq, L)
                res = mp.local_sum(iter(terms), arg, L,
                                   iter([slice(a, b) for a, b in seq]))
                ctx.step(what)
                verify(ctx, res, want, what, [leg] * L, maxabs(want) + 1.)
                ctx.state('sl', leg, L, fp(want))


def run_regslices(ctx, L):
    for w, o in it.product(range(1, L + 1), range(1, 13)):
        what = 'regular_slices({}, {}, {})'.format(L, w, o)
        if (L - w) % o:
            rejects(ctx, lambda: list(mp.regular_slices(L, w, o)), what)
            continue
        got = list(mp.regular_slices(L, w, o))
        ctx.step(what)
        want = [(i, i + w) for i in range(0, L - w + 1, o)]
        ctx.check([s.indices(L) for s in got] == [(a, b, 1) for a, b in want],
                  lambda: '{}: {} expected {}'.format(what, got, want))
        ctx.check(len(got) == (L - w) // o + 1, what + ': number of slices')
        covered = {p for s in got for p in range(*s.indices(L))}
        if o <= w:
            ctx.check(covered == set(range(L)), what + ': does not cover the chain')
        ctx.state('rs', L, w, o)
        if L > 6:
            continue
        leg = (2,) if L > 4 else (2, 2)
        terms, refs = zip(*[build([leg] * w, (2,) * (w - 1), 'r', 'rg', i)
                            for i in range(len(want))])
        arg, t = emb_of(leg, 'r')
        ref = sum(embed_ref((r, w), a, L, t) for r, (a, b) in zip(refs, want))
        res = mp.local_sum(terms, arg, L, mp.regular_slices(L, w, o))
        ctx.step('local_sum ' + what)
        verify(ctx, res, ref, 'local_sum ' + what, [leg] * L, maxabs(ref) + 1.)
        if o == 1 and L > 1:
            D = 2 if w > 1 else 1
            ctx.check(max(res.ranks) <= w * D + 1,
                      lambda: 'local_sum {}: ranks {}'.format(what, res.ranks))


def run_embed(ctx, L):
    for a in range(L):
        for b in range(a + 1, L + 1):
            w = b - a
            forms = [slice(a, b), slice(a, b, 1), slice(a - L, b), slice(a, b, None)]
            if b < L:
                forms.append(slice(a, b - L))
            if a == 0:
                forms.append(slice(None, b))
            if b == L:
                forms += [slice(a, None), slice(a, L + 3)]
            for leg, emb, cl, g in it.product(
                    [(2, 2), (2,), (2, 3)], EMB, 'rcf', gauge_set(w)):
                if emb == 'def' and leg != (2, 2) or int(np.prod(leg)) ** L > 5000:
                    continue
                m, ref = build([leg] * w, (2,) * (w - 1), cl, 'em')
                ref = ref * apply_gauge(m, g)
                arg, t = emb_of(leg, emb)
                want = embed_ref((ref, w), a, L, t)
                tol = tol_of(m.dtype)
                for s in forms if g == 'raw' else forms[:1]:
                    what = 'embed_slice({}, {}) {}'.format(L, s, emb)
                    res = mp.embed_slice(L, s, m, arg)
                    ctx.step(what)
                    verify(ctx, res, want, what, [leg] * L,
                           max(maxabs(want), 1e-300), tol, norm=emb != 'z')
                if len(m) < L:
                    res *= 2
                    ctx.check(close(dense(m), ref, tol=tol),
                              what + ': operand follows the result')
                ctx.state('em', L, a, b, leg, fp(want))
    m, _ = build([(2, 2)], (), 'r', 'em')
    for s in (slice(0, 2), slice(0, 1, 2), slice(1, 0, -1), slice(L, L + 1),
              slice(0, 0)):
        rejects(ctx, lambda: mp.embed_slice(L, s, m) if not
                (s == slice(0, 2) and L == 1) else fail(), 'embed_slice {}'.format(s))


def fail():
    raise ValueError


def run_cyc(ctx, N, ld):
    for kind in ('r', 'c', 'XY', 'ri', 'same'):
        for rank in (1, 2, 4):
            if kind == 'XY':
                if ld != 2 or rank > 1:
                    continue
                terms = list(physics.cXY_local_terms(N, 0.3))
                refs = [dense(t) for t in terms]
            else:
                terms, refs = [], []
                for i in range(N):
                    c = kind[i % len(kind)] if kind != 'same' else 'r'
                    m, ref = build([(ld, ld)] * 2, (rank,), c, 'cy',
                                   0 if kind == 'same' else i)
                    terms.append(m)
                    refs.append(ref)
            eye = np.eye(ld)
            want = sum(embed_ref((r, 2), i, N, eye)
                       for i, r in enumerate(refs[:-1]))
            cyc = refs[-1]
            for _ in range(N - 2):
                cyc = np.multiply.outer(cyc, eye)
            # axes: i1 j1 in jn (i2 j2) ... -> last site to the end
            perm = [0, 1] + list(range(4, 2 * N)) + [2, 3]
            want = want + cyc.transpose(perm)
            wantm = local_to_global_ref(want, N).reshape((ld ** N,) * 2)
            what = 'mpo_cH N={} ldim {} {} rank {}'.format(N, ld, kind, rank)
            snaps = [snapshot(t) for t in terms]
            H = physics.mpo_cH(terms)
            ctx.step(what)
            verify(ctx, H, want, what, [(ld, ld)] * N)
            D = max(max(t.ranks) for t in terms)
            ctx.check(max(H.ranks) <= 3 * D + 1, what + ': rank')
            mats = [op_matrix(t) for t in terms]
            for name, ts in (('mpo', terms),
                             ('mixed', mats[:-1] + terms[-1:]),
                             ('tuple', tuple(terms))):
                S = physics.sparse_cH(ts, ld)
                ctx.step('sparse_cH ' + name)
                ctx.check(hasattr(S, 'todense'), 'sparse_cH is not sparse')
                ctx.check(close(np.asarray(S.todense()), wantm),
                          lambda: 'sparse_cH {} differs from the dense sum '
                          '({})'.format(name, what))
            if ld == 2:
                ctx.check(close(np.asarray(physics.sparse_cH(terms).todense()),
                                wantm), 'sparse_cH default ldim')
            # terms in another gauge
            for g in ('c0:1', 'c1:2'):
                if kind == 'XY':
                    continue
                t2 = [t.copy() for t in terms]
                for t in t2:
                    apply_gauge(t, g)
                verify(ctx, physics.mpo_cH(t2), want, what + g, [(ld, ld)] * N)
                ctx.check(close(np.asarray(physics.sparse_cH(t2, ld).todense()),
                                wantm), what + ' sparse ' + g)
            for t, s in zip(terms, snaps):
                unchanged(ctx, t, s, what)
            ctx.state('cyc', N, ld, kind, rank)


def run_reject(ctx):
    def t(w, leg=(2, 2)):
        return build([leg] * w, (2,) * (w - 1), 'r', 'rj')[0]
    rej = [
        ('different widths', lambda: mp.local_sum([t(2), t(1)])),
        ('different widths', lambda: mp.local_sum([t(1), t(2)])),
        ('no embedding', lambda: mp.local_sum([t(1, (2,)), t(1, (2,))])),
        ('no embedding', lambda: mp.local_sum([t(1, (2, 3)), t(1, (2, 3))])),
        ('no embedding', lambda: mp.embed_slice(2, slice(0, 1), t(1, (2,)))),
        ('width of slices', lambda: mp.local_sum(
            [t(1)] * 3, None, 4, [slice(i, i + 2) for i in range(3)])),
        ('width of slices', lambda: mp.local_sum(
            [t(2)] * 2, None, 3, [slice(0, 1), slice(2, 3)])),
        ('missing term', lambda: mp.local_sum(
            [t(2)] * 2, None, 4, [slice(i, i + 2) for i in range(3)])),
        ('too many terms', lambda: mp.local_sum(
            [t(1)] * 3, None, 2, [slice(0, 1), slice(1, 2)])),
        ('outside', lambda: mp.local_sum([t(2)], None, 2, [slice(1, 3)])),
        ('dimension', lambda: mp.local_sum([t(1, (2, 2)), t(1, (3, 3))])),
        ('no length', lambda: mp.local_sum([t(1)], None, None, [slice(0, 1)])),
    ]
    for name, fun in rej:
        ctx.step('reject ' + name)
        rejects(ctx, fun, name)
