"""C01 dense <-> matrix product conversion."""
import itertools as it

import numpy as np

import mpnum as mp
from mpnum.utils import global_to_local, local_to_global

from .. import fine
from ..lib import (build, cform_error, close, dense, dense_of, fp,
                   global_to_local_ref, local_to_global_ref, maxabs, prepared,
                   rejects, tensor, tensors, tol_of, verify, all_ranks, gauges)

RULE = ('every (leg structure, value class, entry point) of the alphabet; '
        'a case is one leg structure, all value classes and entry points are '
        'executed for it')
ASSUMPTIONS = ['values are representatives of the listed classes',
               'sites without legs only in directly constructed arrays']

LEGS = [(1,), (2,), (3,), (2, 2), (1, 2), (3, 2), (2, 1, 2)]
CLS = 'rczoedthifF'


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                sites_full_alphabet=3 if q else 4, sites_small_alphabet=4 if q else 6,
                legs=[str(l) for l in LEGS], value_classes=list(CLS),
                ranks='1..3' if q else '1..4', gauges='all (left,right) pairs + 5 histories',
                reorder_sites=4, reorder_legs=3, skips=2, full_rank_sites=130)


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 4 if q else 5):
        for s in it.product(LEGS, repeat=n):
            if np.prod([np.prod(x) for x in s]) <= (300 if q else 1500):
                yield ('arr', s)
    small = [(2,), (1,), (3,), (2, 2)]
    for n in range(4, 5 if q else 7):
        for s in it.product(small[:4 if n < 6 else 2], repeat=n):
            if np.prod([np.prod(x) for x in s]) <= 600:
                yield ('arr', s)
    for sites in range(1, 5):
        for legs in range(1, 4):
            if sites * legs <= 8:
                yield ('order', sites, legs)
                yield ('glob', sites, legs)
    opn = [(), (2,), (1, 3), (2, 2)]
    for n in range(1, 4):
        for s in it.product(opn, repeat=n):
            yield ('direct', s)
    for l, r in it.product((1, 2, 3), repeat=2):
        for n in (1, 2, 3):
            yield ('virt', l, r, n)
    for d in (1, 2, 3, 7, 255):
        yield ('rank', d)
    yield ('rank', 'mixed')
    for key in fine.keys(gauges=('raw',)):
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c01(ctx, *key)


def run_arr(ctx, shape):
    dims = sum(shape, ())
    ndims = [len(s) for s in shape]
    full = [min(int(np.prod(dims[:sum(ndims[:k])], dtype=object)),
                int(np.prod(dims[sum(ndims[:k]):], dtype=object)))
            for k in range(1, len(shape))]
    got = mp.full_rank(shape)
    ctx.step('full_rank')
    ctx.check(list(got) == full, 'full_rank({}) = {} expected {}'.format(
        shape, got, full))
    for cls in CLS:
        arr = tensor(dims, cls, 'arr')
        keep = arr.copy()
        forms = [list(ndims), tuple(ndims), iter(ndims)]
        if len(set(ndims)) == 1:
            forms.append(ndims[0])
        if len(shape) == 1:
            forms.append(None)
        for k, form in enumerate(forms):
            m = mp.MPArray.from_array(arr, form)
            ctx.step('from_array {} ndims form {}'.format(cls, k))
            verify(ctx, m, keep, 'from_array', shape=shape,
                   tol=tol_of(arr.dtype))
            ctx.check(all(r <= f for r, f in zip(m.ranks, full)),
                      'from_array rank {} exceeds {}'.format(m.ranks, full))
            back = m.to_array()
            ctx.step('to_array')
            ctx.check(close(back, keep, tol=tol_of(arr.dtype)),
                      'to_array(from_array(x)) != x')
            ctx.check(back.flags.writeable, 'to_array result is read-only')
            ctx.state(m.canonical_form, m.ranks, fp(keep))
        ctx.check(np.array_equal(arr, keep), 'from_array modified its input')
        if cls in 'rci':
            # Non-contiguous input
            arr2 = np.asfortranarray(arr)[...]
            m = mp.MPArray.from_array(arr2, list(ndims))
            ctx.step('from_array fortran order')
            verify(ctx, m, keep, 'from_array of a fortran ordered array', shape=shape)
            factors = [tensor(s, cls, 'kron', i) for i, s in enumerate(shape)]
            ref = factors[0]
            for f in factors[1:]:
                ref = np.multiply.outer(ref, f)
            for conv in (list, iter):
                m = mp.MPArray.from_kron(conv([f.copy() for f in factors]))
                ctx.step('from_kron')
                verify(ctx, m, ref, 'from_kron', shape=shape)
                ctx.check(all(r == 1 for r in m.ranks), 'from_kron rank != 1')
                ctx.check(close(m.to_array(), ref), 'to_array(from_kron)')
    arr = tensor(dims, 'r', 'arr')
    if len(shape) > 1:
        rejects(ctx, lambda: mp.MPArray.from_array(arr, ndims[:-1] + [ndims[-1] + 1]),
                'from_array with too many legs')


def run_glob(ctx, sites, legs):
    for var in range(3):
        dims = tuple([(2, 2, 2, 2), (1, 2, 3, 2), (3, 1, 2, 2)][var][s] if k == 0
                     else (1 + (s + k + var) % 2) for k in range(legs)
                     for s in range(sites))
        for cls in CLS:
            arr = tensor(dims, cls, 'glob', var)
            loc = global_to_local_ref(arr, sites)
            shape = [tuple(dims[k * sites + s] for k in range(legs))
                     for s in range(sites)]
            for nd in ([legs] if sites > 1 else [legs, None]):
                m = mp.MPArray.from_array_global(arr, nd)
                ctx.step('from_array_global')
                verify(ctx, m, loc, 'from_array_global', shape=shape,
                       tol=tol_of(arr.dtype))
                back = m.to_array_global()
                ctx.step('to_array_global')
                ctx.check(close(back, arr, tol=tol_of(arr.dtype)),
                          'to_array_global(from_array_global(x)) != x')
            ctx.state(sites, legs, fp(arr))
        if legs > 1 and sites > 1 and arr.ndim % (legs + 1):
            rejects(ctx, lambda: mp.MPArray.from_array_global(arr, legs + 1),
                    'from_array_global with invalid ndims')


def run_order(ctx, sites, legs):
    for ls, rsk in it.product(range(3), repeat=2):
        nd = ls + rsk + sites * legs
        # All dims different where affordable, so that any mix-up shows
        dims = tuple((2, 3, 1, 2, 3, 1, 2, 2, 1, 2, 1, 1, 2, 1, 1, 1)[:nd])
        arr = np.arange(np.prod(dims)).reshape(dims)
        core = list(range(ls, ls + sites * legs))
        tail = list(range(ls + sites * legs, nd))
        g2l = [core[k * sites + s] for s in range(sites) for k in range(legs)]
        l2g = [core[s * legs + k] for k in range(legs) for s in range(sites)]
        want_l = arr.transpose(list(range(ls)) + g2l + tail)
        want_g = arr.transpose(list(range(ls)) + l2g + tail)
        got_l = global_to_local(arr, sites, left_skip=ls, right_skip=rsk)
        got_g = local_to_global(arr, sites, left_skip=ls, right_skip=rsk)
        ctx.step('global_to_local {} {}'.format(ls, rsk))
        ctx.step('local_to_global {} {}'.format(ls, rsk))
        ctx.state('order', sites, legs, ls, rsk)
        ctx.check(got_l.shape == want_l.shape and np.array_equal(got_l, want_l),
                  'global_to_local wrong order')
        ctx.check(got_g.shape == want_g.shape and np.array_equal(got_g, want_g),
                  'local_to_global wrong order')
        back = local_to_global(got_l, sites, left_skip=ls, right_skip=rsk)
        ctx.check(np.array_equal(back, arr), 'local_to_global is not the inverse')


def run_direct(ctx, shape):
    n = len(shape)
    for ranks in all_ranks(n, (1, 2, 3) if n < 3 else (1, 3) if ctx.quick
                           else (1, 2, 3, 4)):
        for cls in 'rcifFzmMn':
            lts = tensors(shape, ranks, cls, 'direct')
            ref = dense_of(lts)
            for src in (list, tuple, iter) if cls == 'r' else (list,):
                m = mp.MPArray(src([t.copy() for t in lts]))
                ctx.step('MPArray({})'.format(src.__name__))
                ctx.check(len(m) == n, 'len')
                ctx.check(tuple(m.shape) == tuple(shape), 'shape {} expected {}'
                          .format(m.shape, shape))
                ctx.check(tuple(m.ndims) == tuple(map(len, shape)), 'ndims')
                ctx.check(tuple(m.ranks) == tuple(ranks), 'ranks {} expected {}'
                          .format(m.ranks, ranks))
                ctx.check(m.size == sum(t.size for t in lts), 'size')
                arr = m.to_array()
                ctx.check(close(arr, ref, tol=tol_of(ref.dtype)), 'to_array')
                ctx.check(arr.flags.writeable, 'to_array result is read-only')
                if not np.issubdtype(ref.dtype, np.integer):
                    ctx.check(np.dtype(m.dtype) == arr.dtype == ref.dtype,
                              'dtype {} array {} expected {}'.format(
                                  m.dtype, arr.dtype, ref.dtype))
                arr[...] = 7
                ctx.check(close(m.to_array(), ref, tol=tol_of(ref.dtype)),
                          'modifying the dense array changed the MPArray')
                ctx.state(shape, ranks, fp(ref))
            if len(set(map(len, shape))) == 1:
                g = mp.MPArray([t.copy() for t in lts]).to_array_global()
                ctx.step('to_array_global')
                ctx.check(close(g, local_to_global_ref(ref, n),
                                tol=tol_of(ref.dtype)), 'to_array_global')
        # mixed dtypes in one chain
        if n > 1:
            for c1, c2 in it.product('rcfF', repeat=2):
                lts = tensors(shape, ranks, c1, 'mix')
                lts[-1] = tensor(lts[-1].shape, c2, 'mix')
                m = mp.MPArray([t.copy() for t in lts])
                ref = dense_of(lts)
                ctx.step('mixed dtypes {}{}'.format(c1, c2))
                arr = m.to_array()
                ctx.check(close(arr, ref, tol=2e-3), 'to_array, mixed dtypes')
                ctx.check(np.dtype(m.dtype) == arr.dtype, 'dtype of mixed chain')
        for g in gauges(n, full=n < 3 or not ctx.quick):
            for cls in 'rc' if n < 3 else 'c':
                m, ref = prepared(ctx, shape, ranks, cls, g, 'gauge')
                ctx.step('to_array after ' + g)
                ctx.check(close(m.to_array(), ref), 'to_array after ' + g)
                ctx.check(m.to_array().flags.writeable, 'read-only')
                ctx.state(state_key(m))
                ctx.check(tuple(m.shape) == tuple(shape), 'shape after ' + g)


def state_key(m):
    return tuple(m.canonical_form), m.ranks, m.shape, fp(dense(m))


def run_virt(ctx, l, r, n):
    for legs in it.product([(2,), (1,), (3,), (2, 2)], repeat=n):
        for cls in 'rczod':
            arr = tensor((l,) + sum(legs, ()) + (r,), cls, 'virt')
            m = mp.MPArray.from_array(arr, [len(x) for x in legs],
                                      has_virtual=True)
            ctx.step('from_array has_virtual')
            tens = list(m.lt)
            ctx.check(tuple(m.shape) == tuple(legs), 'has_virtual: shape')
            ctx.check(tens[0].shape[0] == l and tens[-1].shape[-1] == r,
                      'has_virtual: outer ranks')
            res = tens[0]
            for t in tens[1:]:
                res = np.tensordot(res, t, axes=([-1], [0]))
            ctx.check(close(res, arr), 'has_virtual: wrong tensor')
            err = cform_error(m.lt, 1e-7)
            ctx.check(err is None, 'has_virtual: {}'.format(err))
            ctx.state(fp(arr))


def run_rank(ctx, d):
    for n in range(1, 130 if isinstance(d, int) else 40):
        if d == 'mixed':
            forms = [[(2 + (i * 7) % 5, 3) if i % 3 else (i % 4 + 1,)
                      for i in range(n)]]
        else:
            forms = [[d] * n, [(d,)] * n, [(d, d)] * n, [(d, 2, 1)] * n,
                     [()] * n, [(d,) if i % 2 else () for i in range(n)]]
        for form in forms:
            dims = []
            for x in form:
                p = 1
                for y in (x if isinstance(x, tuple) else (x,)):
                    p *= y
                dims.append(p)
            want = []
            for cut in range(1, n):
                a = b = 1
                for x in dims[:cut]:
                    a *= x
                for x in dims[cut:]:
                    b *= x
                want.append(min(a, b))
            got = mp.full_rank(form)
            ctx.step('full_rank n={}'.format(n))
            ctx.state('rank', tuple(want)[:50], n)
            ctx.check(list(got) == want, lambda: 'full_rank({}) = {}'.format(
                form, got))
