"""C06 gauge operations keep the tensor; norm and singular values are right."""
import itertools as it

import numpy as np

import mpnum as mp

from .. import fine, scale
from ..lib import (all_ranks, build, close, dense, dense_of, fp, matricize, maxabs,
                   tol_of, verify)

RULE = ('all words over the gauge alphabet up to the depth from every '
        '(shape, ranks, value class) start')
ASSUMPTIONS = ['values are representatives of the listed classes']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                larger_structures=scale.bounds(),
                sites='1..4', ranks='1..4', value_classes='r c i F f z o e d t h m M n',
                word_length='2 (all starts), 3 (selected)' if q else
                '3 (all starts), 4 (selected)', long_chain_sites=8)


SHAPES = {
    1: [((2,),), ((2, 3),)],
    2: [((2,), (2,)), ((1,), (3,)), ((2, 2), (2,)), ((4,), (1,))],
    3: [((2,),) * 3, ((2,), (1,), (3,)), ((3,), (2, 2), (2,)), ((1,), (1,), (2,))],
    4: [((2,),) * 4, ((1,), (2,), (3,), (2,))]}


def cases(tier):
    q = tier == 'quick'
    for n, shapes in SHAPES.items():
        for s in shapes:
            rks = all_ranks(n, (1, 2, 4)) if n < 4 else \
                [(1, 1, 1), (2, 2, 2), (2, 4, 2), (3, 1, 3), (4, 2, 1)]
            for rk in rks:
                for cls in 'rcifFzoedthmMn':
                    if n == 4 and cls in 'thoi':
                        continue
                    yield ('word', s, rk, cls, 2 if q else 3)
    for s, rk in [(((2,),) * 3, (2, 2)), (((2, 2), (2,)), (3,)),
                  (((2,),) * 4, (2, 3, 2))]:
        for cls in 'rcz':
            for first in range(len(alphabet(len(s)))):
                yield ('deep', s, rk, cls, first, 3 if q else 4)
    for n in (6, 8):
        yield ('long', n)
    for key in scale.keys(sorted(scale.STRUCT)):
        yield key
    for key in fine.keys():
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c06(ctx, *key)


def run_scale(ctx, *key):
    scale.c06(ctx, *key)


def alphabet(n):
    ops = []
    for l, r in [(l, r) for l in range(n) for r in range(l + 1, n + 1)]:
        if (l, r) == (0, n):
            continue
        if n == 4 and r - l == 2:
            continue
        ops.append(('can {}:{}'.format(l, r), lambda m, l=l, r=r:
                    m.canonicalize(left=l, right=r)))
    ops += [('can', lambda m: m.canonicalize()),
            ('norm', lambda m: mp.norm(m)),
            ('compress', lambda m: m.compress()),
            ('compress left', lambda m: m.compress(direction='left')),
            ('compress right 0', lambda m: m.compress(direction='right', relerr=0.)),
            ('compress left 0', lambda m: m.compress(direction='left', relerr=0)),
            ('sv', lambda m: list(m.singularvals())),
            ('sv 1', lambda m: next(iter(m.singularvals()), None)),
            ('sv 2', lambda m: [x for _, x in zip(range(2), m.singularvals())]),
            ('copy', lambda m: m.copy()),
            ('*= -2.5', lambda m: m.__imul__(-2.5)),
            ('/= 2j', lambda m: m.__itruediv__(2j))]
    for i in sorted({0, n // 2, n - 1}):
        def upd(m, i=i):
            m.lt[i] = new_tensor(m, i)
        ops.append(('update {}'.format(i), upd))
    return ops


def new_tensor(m, i):
    t = np.array(m.lt[i])
    return np.roll(t, 1, axis=1) + .5 * t if t.ndim > 2 else t * 3


def new_ref(m, ref, name):
    if name == '*= -2.5':
        return ref * -2.5
    if name == '/= 2j':
        return ref / 2j
    if name.startswith('update'):
        i = int(name.split()[1])
        lts = list(m.lt)
        lts[i] = new_tensor(m, i)
        return dense_of(lts)
    return ref


def svs_of(ref, shape):
    return [np.linalg.svd(matricize(ref, shape, k), compute_uv=False)
            for k in range(1, len(shape))]


def monitors(ctx, m, ref, svs, shape, what, tol, full):
    got = dense(m)
    scale = maxabs(ref)
    ctx.check(tuple(m.shape) == tuple(shape), what + ': shape changed')
    ctx.check(close(got, ref, scale, tol), lambda:
              '{}: represented tensor changed by {:.2e} (scale {:.2e})'.format(
                  what, maxabs(got - ref), scale))
    if not full:
        return
    nrm = np.linalg.norm(ref)
    c = m.copy()
    val = mp.norm(c)
    ctx.check(abs(val - nrm) <= 10 * tol * nrm + 1e-290,
              '{}: norm {} expected {}'.format(what, val, nrm))
    ctx.check(close(dense(c), ref, scale, tol), what + ': norm() changed the tensor')
    again = mp.norm(c)
    ctx.check(abs(again - nrm) <= 10 * tol * nrm + 1e-290,
              '{}: second norm {} expected {}'.format(what, again, nrm))
    c = m.copy()
    got = list(c.singularvals())
    ctx.check(len(got) == len(svs), '{}: {} singular value arrays, expected {}'
              .format(what, len(got), len(svs)))
    for k, (g, w) in enumerate(zip(got, svs)):
        g = np.sort(np.asarray(g).real)[::-1]
        size = max(len(g), len(w))
        g = np.concatenate([g, np.zeros(size - len(g))])
        w = np.concatenate([w, np.zeros(size - len(w))])
        ctx.check(np.all(np.abs(g - w) <= 10 * tol * nrm + 1e-290),
                  lambda: '{}: singular values of cut {}: {} expected {}'.format(
                      what, k + 1, g, w))
    ctx.check(close(dense(c), ref, scale, tol),
              what + ': singularvals() changed the tensor')
    ctx.count('full monitors')


def start(shape, rk, cls):
    m, ref = build(shape, rk, cls, 'c06')
    return m, ref, svs_of(ref, shape), tol_of(*[t.dtype for t in m.lt])


def explore(ctx, shape, rk, cls, depth, first=None):
    m0, ref, svs, tol = start(shape, rk, cls)
    ops = alphabet(len(shape))
    monitors(ctx, m0.copy(), ref, svs, shape, 'start', tol, True)
    seen = {}

    def rec(m, word, ref, svs):
        for k, (name, op) in enumerate(ops):
            if not word and first is not None and k != first:
                continue
            new = m.copy()
            op(new)
            ctx.step(name)
            nref = new_ref(m, ref, name)
            nsvs = svs if nref is ref else svs_of(nref, shape)
            key = (tuple(new.canonical_form), tuple(new.ranks), name)
            # the expensive monitors run for the first occurrence of every
            # (canonical form, ranks, last operation)
            monitors(ctx, new, nref, nsvs, shape, '{}'.format(word + [name]), tol,
                     key not in seen)
            seen[key] = True
            ctx.state(shape, rk, cls, key)
            if len(word) + 1 < depth:
                rec(new, word + [name], nref, nsvs)
    rec(m0, [], ref, svs)


def run_word(ctx, shape, rk, cls, depth):
    explore(ctx, shape, rk, cls, depth)


def run_deep(ctx, shape, rk, cls, first, depth):
    explore(ctx, shape, rk, cls, depth, first)


def run_long(ctx, n):
    shape = ((2,),) * n
    for cls in 'rcem':
        m0, ref, svs, tol = start(shape, (2, 3, 4, 3, 2, 2, 2)[:n - 1], cls)
        for k, (name, op) in enumerate(alphabet(n)):
            m = m0.copy()
            op(m)
            ctx.step(name)
            nref = new_ref(m0, ref, name)
            monitors(ctx, m, nref, svs_of(nref, shape), shape, name, tol, True)
            ctx.state(n, cls, name)
