"""C18 saving and loading returns the identical array."""
import gc
import itertools as it
import os
import shutil
import tempfile

import numpy as np

import mpnum as mp
import mpnum.povm as mpp
from mpnum import mpstruct

from ..lib import (all_ranks, apply_gauge, build, cform_error, close, dense, fp,
                   gauges, tensors, tol_of)

RULE = ('all (shape, ranks, dtype, gauge history, target kind) combinations and '
        'all histories of saves into files and groups up to the depth of the '
        'bound')
ASSUMPTIONS = ['the file system keeps what was written (no crash points: a file '
               'is written in one go by the storage library)']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(sites='1..4 all shapes of the list, 5..12, 25, 101',
                ranks='all vectors over {1,2,3} (1..3 sites)',
                dtypes='float32 float64 complex64 complex128 int64 bool',
                targets='path, file root, group, nested group, reopened file',
                history='all sequences of {} saves over 2 files/3 groups and 3 '
                'arrays'.format(2 if q else 3))


SHAPES = [((2,),), ((3, 2),), ((),), ((2,), (3,)), ((2, 2), (1,)), ((), (2,)),
          ((1,), (1, 3)), ((2,), (2,), (2,)), ((2, 2), (3,), (1, 2)),
          ((2,), (), (3,)), ((2,), (1,), (2,), (3,)), ((2, 2), (2, 2), (2, 2), (2, 2))]
TARGETS = ['path', 'root', 'group', 'nested', 'reopen']


def cases(tier):
    q = tier == 'quick'
    for si, sh in enumerate(SHAPES):
        n = len(sh)
        rks = all_ranks(n, (1, 2, 3) if n < 3 or not q else (1, 3)) if n < 4 else [(2, 3, 2), (1, 4, 1)]
        for rk in rks:
            yield ('one', si, rk)
    for n in list(range(5, 13)) + [25, 101]:
        yield ('many', n)
    for depth in ((1, 2) if q else (1, 2, 3)):
        for first in range(len(SLOTS) * 3):
            yield ('hist', depth, first)
    yield ('klass',)
    for g in range(len(gauges(3))):
        yield ('after', g)


def run(key, ctx):
    d = tempfile.mkdtemp(prefix='verif-c18-')
    try:
        globals()['run_' + key[0]](ctx, d, *key[1:])
    finally:
        shutil.rmtree(d)


_calls = [0]


def tidy():
    """The storage library keeps handles until garbage collection; without
    this every further file gets slower (no reference counting in PyPy)."""
    _calls[0] += 1
    if _calls[0] % 30 == 0:
        gc.collect()


def full_snapshot(a):
    return (type(a), tuple(a.shape), tuple(a.ranks), tuple(a.canonical_form),
            [np.array(t) for t in a.lt], [t.dtype for t in a.lt])


def same(ctx, got, snap, what, cls=None):
    kl, shape, ranks, cf, ts, dts = snap
    ctx.check(type(got) is (cls or kl), lambda: '{}: class {}'.format(what, type(got)))
    ctx.check(len(got) == len(ts), lambda: '{}: {} sites'.format(what, len(got)))
    ctx.check(tuple(got.shape) == shape, lambda: '{}: shape {} expected {}'.format(
        what, got.shape, shape))
    ctx.check(tuple(got.ranks) == ranks, lambda: '{}: ranks {} expected {}'.format(
        what, got.ranks, ranks))
    l, r = got.canonical_form
    ctx.check((int(l), int(r)) == cf, lambda: '{}: canonical form {} expected {}'
              .format(what, got.canonical_form, cf))
    for i, (a, b, dt) in enumerate(zip(got.lt, ts, dts)):
        ctx.check(a.dtype == dt, lambda: '{}: dtype {} expected {} at site {}'.format(
            what, a.dtype, dt, i))
        ctx.check(a.shape == b.shape and np.array_equal(a, b),
                  lambda: '{}: tensor at site {} differs'.format(what, i))


def save(a, d, target):
    """Save, return a function that loads with the given class"""
    import h5py
    path = os.path.join(d, 'x.h5')
    if target == 'path':
        a.dump(path)
        return lambda cls: cls.load(path)
    if target == 'reopen':
        with h5py.File(path, 'w') as f:
            f.attrs['unrelated'] = 5
        with h5py.File(path, 'a') as f:
            a.dump(f.create_group('g'))

        def load(cls):
            with h5py.File(path, 'r') as f:
                return cls.load(f['g'])
        return load
    name = {'root': '/', 'group': 'arr', 'nested': 'a/b/0'}[target]
    with h5py.File(path, 'w') as f:
        g = f if target == 'root' else f.create_group(name)
        a.dump(g)
        first = type(a).load(g)

    def load(cls):
        with h5py.File(path, 'r') as f:
            b = cls.load(f[name])
            same(_ctx[0], first, full_snapshot(b), 'load before and after closing')
            return b
    return load


_ctx = [None]


def roundtrip(ctx, a, d, target, what, cls=None):
    _ctx[0] = ctx
    tidy()
    snap = full_snapshot(a)
    ctx.step('dump+load', target)
    load = save(a, d, target)
    same(ctx, a, snap, what + ': array after dump')
    cls = cls or type(a)
    for rep in range(2):
        got = load(cls)
        same(ctx, got, snap, '{} loaded from {}'.format(what, target), cls)
    ctx.check(not any(np.may_share_memory(x, y) for x, y in zip(got.lt, a.lt)),
              'loaded array shares memory')
    ctx.state(fp(snap[4][0]), snap[1:4], target)
    return got, snap


def variants(sh, rk, cls):
    n = len(sh)
    for g in gauges(n):
        a, _ = build(sh, rk, cls, 'c18')
        apply_gauge(a, g)
        yield 'gauge ' + g, a
    a, _ = build(sh, rk, cls, 'c18')
    yield 'scaled', a * 2
    a.canonicalize()
    yield 'scaled canonical', a * .5
    yield 'conj', a.conj()
    yield 'sum', a + a
    if n > 1:
        b = a.copy()
        b.compress(method='svd', rank=1)
        yield 'compressed', b
    if all(len(x) for x in sh):
        yield 'reversed', a.reverse()


def run_one(ctx, d, si, rk):
    sh = SHAPES[si]
    for cls in 'rcfFizmMn':
        if cls in 'ifFz' and sum(rk) > 4 and ctx.quick:
            continue
        for k, (what, a) in enumerate(variants(sh, rk, cls)):
            tg = TARGETS if cls in 'rc' and not ctx.quick else [
                TARGETS[(k + len(what)) % len(TARGETS)]]
            if k == 0:
                tg = TARGETS
            for target in tg:
                roundtrip(ctx, a, d, target, '{} {} {} {}'.format(sh, rk, cls, what))


def run_many(ctx, d, n):
    """Site numbers with several digits"""
    sh = [(1 + i % 3,) for i in range(n)]
    rk = [1 + i % 4 for i in range(n - 1)]
    for target in TARGETS:
        full = [1] + rk + [1]
        # every site is recognisable
        a = mp.MPArray([np.full((full[i], sh[i][0], full[i + 1]), i + 1.)
                        for i in range(n)])
        got, _ = roundtrip(ctx, a, d, target, '{} sites'.format(n))
        ctx.check([t.ravel()[0] for t in got.lt] == [i + 1. for i in range(n)],
                  'order of the sites')
        b = mp.MPArray(tensors(sh, rk, 'c', 'many', n))
        b.canonicalize(left=min(3, n - 1), right=n - 1)
        roundtrip(ctx, b, d, target, '{} sites gauged'.format(n))


SLOTS = ['file1', 'file2', 'g', 'g/sub', 'h']


def arrays():
    a, _ = build([(2,)] * 3, (2, 2), 'r', 'hA')
    b, _ = build([(3, 1)] * 2, (3,), 'c', 'hB')
    b.canonicalize(left=1)
    c, _ = build([(2,)] * 12, (2,) * 11, 'r', 'hC')
    c.canonicalize(right=4)
    return [a, b, c]


def run_hist(ctx, d, depth, first):
    """All histories of saves: a model maps each place to the array saved last"""
    import h5py
    arrs = arrays()
    snaps = [full_snapshot(a) for a in arrs]
    acts = list(it.product(SLOTS, range(3)))
    shared = os.path.join(d, 'shared.h5')
    for rest in it.product(acts, repeat=depth - 1):
        tidy()
        with h5py.File(shared, 'w'):
            pass
        for f in ('file1', 'file2'):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))
        model = {}
        for slot, k in (acts[first],) + rest:
            ctx.step('dump', slot, k)
            if slot.startswith('file'):
                arrs[k].dump(os.path.join(d, slot))
            else:
                with h5py.File(shared, 'a') as f:
                    if slot in f:
                        if slot == 'g':
                            for x in list(f['g']):
                                if x != 'sub':
                                    del f['g'][x]
                        else:
                            del f[slot]
                    arrs[k].dump(f.require_group(slot))
            model[slot] = k
        for slot, k in model.items():
            if slot.startswith('file'):
                got = mp.MPArray.load(os.path.join(d, slot))
            else:
                with h5py.File(shared, 'r') as f:
                    got = mp.MPArray.load(f[slot])
            same(ctx, got, snaps[k], 'history {} slot {}'.format(
                (acts[first],) + rest, slot))
        ctx.state(sorted(model.items()))
    for a, s in zip(arrs, snaps):
        same(ctx, a, s, 'array after saving')


def run_klass(ctx, d):
    for m in [mpp.pauli_mpp(2, 2), mpp.MPPovm.eye([2, 3]),
              mpp.MPPovm.from_local_povm(mpp.x_povm(3), 3)]:
        for g in ('raw', 'norm'):
            if g == 'norm':
                mp.norm(m)
            for target in TARGETS:
                got, _ = roundtrip(ctx, m, d, target, 'MPPovm')
                ctx.check(got.outdims == m.outdims and got.hdims == m.hdims,
                          'MPPovm structure')
                # explicit choice of the class
                p = os.path.join(d, 'y.h5')
                m.dump(p)
                b = mp.MPArray.load(p)
                ctx.check(type(b) is mp.MPArray and close(dense(b), dense(m)),
                          'MPPovm loaded as MPArray')
    # mixed dtypes, memory layout, special values
    ts = tensors([(2,), (3,), (2,)], (2, 3), 'r', 'mix')
    ts[1] = ts[1] + 1j
    a = mp.MPArray(ts)
    for t in TARGETS:
        roundtrip(ctx, a, d, t, 'mixed dtypes')
    ts = [np.asfortranarray(t) for t in tensors([(2, 2)] * 3, (2, 3), 'c', 'ord')]
    for t in TARGETS:
        roundtrip(ctx, mp.MPArray(ts), d, t, 'fortran order')
        roundtrip(ctx, mp.MPArray(ts).transpose((1, 0)), d, t, 'transposed view')
    ts = [t[::1, ::2] for t in tensors([(4,)] * 3, (2, 3), 'r', 'str')]
    for t in TARGETS:
        roundtrip(ctx, mp.MPArray(ts), d, t, 'strided')
    big = mp.MPArray.from_kron([np.array([1e300, -1e-300, 0., -0.]),
                                np.array([5e-324, 1.7e308])])
    for t in TARGETS:
        roundtrip(ctx, big, d, t, 'extreme values')
    b = mp.MPArray.from_kron([np.array([True, False]), np.array([False, True])])
    for t in TARGETS:
        roundtrip(ctx, b, d, t, 'bool')


def run_after(ctx, d, gi):
    """A loaded array behaves like the saved one in later operations"""
    ops = [('norm', lambda a: mp.norm(a)), ('inner', lambda a: mp.inner(a, a)),
           ('canonicalize', lambda a: a.canonicalize(left=1, right=2)),
           ('left', lambda a: a.canonicalize(left=len(a) - 1)),
           ('compress', lambda a: a.compress(method='svd', relerr=1e-3)),
           ('scale', lambda a: a.__imul__(3.)), ('add', lambda a: a + a),
           ('sum', lambda a: a.sum()), ('get', lambda a: a.to_array()),
           ('dump', None)]
    p = os.path.join(d, 'z.h5')
    for g in gauges(3)[gi:gi + 1]:
        for seq in it.product(ops, repeat=2):
            tidy()
            a, _ = build([(2,)] * 3, (2, 3), 'c', 'after')
            apply_gauge(a, g)
            a.dump(p)
            b = mp.MPArray.load(p)
            for name, f in seq:
                ctx.step(g, name)
                if f is None:
                    a.dump(p)
                    b.dump(p)
                    b = mp.MPArray.load(p)
                    continue
                x, y = f(a), f(b)
                if x is not None and not isinstance(x, mp.MPArray):
                    ctx.check(close(x, y), 'result of {} differs'.format(name))
            ctx.check(close(dense(a), dense(b)), 'operations after loading differ')
            ctx.check(tuple(a.canonical_form) == tuple(b.canonical_form) and
                      tuple(a.ranks) == tuple(b.ranks),
                      'structure after loading differs')
            ctx.check(not cform_error(b.lt, tol_of(complex)), lambda: 'canonical form '
                      'after loading: {}'.format(cform_error(b.lt, 1e-8)))
