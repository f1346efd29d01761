"""C05 canonical form claims are true after every history."""
import itertools as it

import numpy as np

import mpnum as mp

from .. import fine, scale
from ..lib import (all_ranks, build, cform_error, close, dense, fp,
                   isometry_error, local_to_global_ref, maxabs, prepared, tensor,
                   gauges)

RULE = ('all words over the operation alphabet up to the depth, from every '
        'start; plus all canonicalize() argument pairs from every reachable '
        'canonical form; all ways of making an array for all shapes')
ASSUMPTIONS = ['values are representatives of the listed classes',
               'update() flags are only passed when they are true']

STARTS = [
    (((2,), (2,)), (2,), 'r'), (((2, 2), (3,)), (3,), 'c'),
    (((2,),) * 3, (2, 2), 'c'), (((1,), (2,), (2,)), (3, 1), 'r'),
    (((2,), (2, 1), (3,)), (2, 4), 'i'), (((2,),), (), 'c'),
    (((2,),) * 3, (2, 2), 'z'), (((2,),) * 3, (2, 2), 'e'),
    (((2,),) * 4, (2, 3, 2), 'r'), (((2,),) * 3, (2, 2), 'm')]


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(fine_structure=fine.bounds(),
                larger_structures=scale.bounds(),
                starts=[str(s) for s in STARTS], word_length='2 from every start, 3 from two starts' if q else '3 from every start, 4 from one',
                alphabet=len(OPS(4)), canonicalize_arguments='None, afull and '
                'all integers from -n-2 to n+2, n <= 4',
                canonicalize_starts='every reachable (left, right) pair')


def tensor_for(m, i, kind):
    """A tensor that fits at site i and is left/right isometric if possible"""
    s = m.lt[i].shape
    t = tensor(s, 'r', 'upd', kind, i).astype(float)
    if kind == 'left' and int(np.prod(s[:-1])) >= s[-1]:
        q, _ = np.linalg.qr(t.reshape((-1, s[-1])))
        return q.reshape(s), 'left'
    if kind == 'right' and int(np.prod(s[1:])) >= s[0]:
        q, _ = np.linalg.qr(t.reshape((s[0], -1)).T)
        return q.T.reshape(s), 'right'
    return t, None


def OPS(n):
    """Operation alphabet for chains with n sites: (name, function)"""
    ops = []

    def inplace(name, f):
        def g(m):
            m = m.copy()
            f(m)
            return [m]
        ops.append((name, g))

    def derive(name, f):
        def g(m):
            old = m.copy()
            out = f(old)
            out = list(out) if isinstance(out, (tuple, list)) else [out]
            return out + [old]
        ops.append((name, g))
    inplace('canonicalize()', lambda m: m.canonicalize())
    for l, r in sorted({(0, 1), (n - 1, n), (n // 2, n // 2 + 1), (1, n),
                        (0, max(n - 1, 1))}):
        if l < r:
            inplace('canonicalize({},{})'.format(l, r),
                    lambda m, l=l, r=r: m.canonicalize(left=l, right=r)
                    if r <= len(m) and l < len(m) else None)
    inplace('norm', lambda m: mp.norm(m))
    inplace('compress', lambda m: m.compress())
    inplace('compress left rank 2', lambda m: m.compress(rank=2, direction='left'))
    inplace('compress right relerr', lambda m: m.compress(
        relerr=.1, direction='right'))
    inplace('compress var', lambda m: m.compress(
        'var', rank=1, num_sweeps=1, var_sites=1,
        randstate=np.random.RandomState(3)))
    inplace('singularvals', lambda m: list(m.singularvals()))
    inplace('singularvals[0]', lambda m: next(iter(m.singularvals()), None))
    inplace('*=', lambda m: m.__imul__(-2.5))
    inplace('/=', lambda m: m.__itruediv__(2j))
    for i in sorted({0, n // 2, n - 1, -1}):
        for kind in ('left', 'right', None):
            def upd(m, i=i, kind=kind):
                if -len(m) <= i < len(m):
                    t, flag = tensor_for(m, i, kind)
                    m.lt.update(i, t, canonicalization=flag)
            inplace('update {} {}'.format(i, kind), upd)

    def setitem(m):
        m.lt[0] = np.array(m.lt[0]) * 2
    inplace('setitem', setitem)

    def upd2(m):
        if len(m) > 1:
            ts = [tensor_for(m, i, k) for i, k in ((0, 'left'), (1, None))]
            m.lt.update(slice(0, 2), [t for t, _ in ts],
                        canonicalization=[f for _, f in ts])
    inplace('update slice', upd2)

    def upd3(m):
        if len(m) > 1:
            ts = [tensor_for(m, i, 'right') for i in (len(m) - 2, len(m) - 1)]
            if all(f == 'right' for _, f in ts):
                m.lt.update(slice(-2, None), [t for t, _ in ts],
                            canonicalization='right')
    inplace('update slice right', upd3)
    derive('copy', lambda m: m.copy())
    derive('*', lambda m: m * 3)
    derive('* complex', lambda m: (.5 + 1j) * m)
    derive('neg', lambda m: -m)
    derive('/', lambda m: m / 4.)
    derive('conj', lambda m: m.conj())
    derive('T', lambda m: m.T)
    derive('adj', lambda m: m.adj())
    derive('transpose', lambda m: m.transpose())
    derive('ravel', lambda m: m.ravel())
    derive('reshape', lambda m: m.reshape([s + (1,) for s in m.shape]))
    derive('reverse', lambda m: m.reverse())
    for p in sorted({0, n - 2}):
        if p >= 0:
            derive('vleg2leg {}'.format(p), lambda m, p=p: m.vleg2leg(p)
                   if p + 1 < len(m) else m.copy())
            derive('vleg2leg leg2vleg {}'.format(p), lambda m, p=p:
                   m.vleg2leg(p).leg2vleg(p) if p + 1 < len(m) else m.copy())
            derive('split {}'.format(p), lambda m, p=p: m.split(p)
                   if p + 1 < len(m) else m.copy())
    derive('add', lambda m: m + m)
    derive('sumup', lambda m: mp.sumup([m, m], weights=[1, 2]))
    derive('chain', lambda m: mp.chain([m, m]) if len(m) < 3 else m.copy())
    derive('group', lambda m: m.group_sites(2) if len(m) % 2 == 0 else m.copy())
    derive('pad', lambda m: m.pad_ranks(2, force_rank=True))
    derive('compression', lambda m: m.compression(rank=2)[0])
    derive('compression var', lambda m: m.compression(
        'var', startmpa=m.copy(), num_sweeps=1)[0])
    derive('sum', lambda m: m.sum([()] * len(m)))
    derive('prune', lambda m: mp.prune(m, singletons=True))
    derive('localouter', lambda m: mp.localouter(m, m)
           if max((1,) + m.ranks) < 3 and m.size < 60 else m.copy())
    return ops


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5):
        for ranks in all_ranks(n, (1, 2, 3) if not q or n < 4 else (2,)):
            if n == 3 and q and ranks[0] == ranks[1] != 2:
                continue
            yield ('target', n, ranks)
    legs = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2)]
    for n in range(1, 5):
        for s in it.product(legs if n < 4 else legs[:2], repeat=n):
            yield ('make', s)
    for k, s in enumerate(STARTS):
        depth = (3 if k == 0 else 2) if q else (4 if k == 0 else 3)
        for first in range(len(OPS(len(s[0])))):
            yield ('word', s, first, depth)
    if q:
        # depth 3 on three sites: first operation changes the gauge
        for first, (name, _) in enumerate(OPS(3)):
            if name in ('canonicalize()', 'canonicalize(1,2)', 'update 1 left',
                        'compress', 'canonicalize(0,1)', 'singularvals[0]',
                        'vleg2leg 0', '*'):
                yield ('word', STARTS[2], first, 3)
    for key in scale.keys(sorted(scale.STRUCT), gauges=('raw', 'norm')):
        yield key
    for key in fine.keys(gauges=('raw', 'norm')):
        yield key


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def run_fine(ctx, *key):
    fine.c06(ctx, *key)


def run_scale(ctx, *key):
    scale.c05(ctx, *key)


def run_word(ctx, start, first, depth):
    shape, ranks, cls = start
    ops = OPS(len(shape))

    def rec(m, word):
        for name, op in (ops[first:first + 1] if not word else ops):
            out = op(m)
            ctx.step(name)
            for new in out:
                tol = 1e-7
                err = cform_error(new.lt, tol)
                if err:
                    ctx.fail('after {}: {}'.format(word + [name], err))
            ctx.state(tuple(out[0].canonical_form),
                      tuple(t.shape for t in out[0].lt), word[-1:], name)
            if len(word) + 1 < depth:
                for new in out[:2] if name.startswith('split') else out[:1]:
                    if new.size < 400:
                        rec(new, word + [name])
    m, _ = build(shape, ranks, cls, 'c05')
    rec(m, [])


def run_target(ctx, n, ranks):
    """canonicalize(left, right): exact meaning of every argument pair"""
    shape = ((2,), (3,), (2, 1), (2,))[:n]
    args = [None, 'afull'] + list(range(-n - 2, n + 3))
    starts = [(l, r) for l in range(n) for r in range(l + 1, n + 1)]
    for cls in ('r', 'c') if n < 3 else ('c',):
        if n > 2 and ctx.quick:
            args = [None, 'afull'] + list(range(-n - 1, n + 2))
        for l0, r0 in starts:
            for left, right in it.product(args, repeat=2):
                m, ref = build(shape, ranks, cls, 'tgt')
                m.canonicalize(left=l0, right=r0)
                before = tuple(m.canonical_form)
                tl = {None: 0, 'afull': n - 1}.get(left, left)
                tr = {None: n, 'afull': 1}.get(right, right)
                tl = tl + n if tl < 0 else tl
                tr = tr + n if tr < 0 else tr
                ctx.step('canonicalize({}, {}) from {}'.format(left, right, before))
                what = 'canonicalize(left={!r}, right={!r}) from {}'.format(
                    left, right, before)
                try:
                    m.canonicalize(left=left, right=right)
                    exc = None
                except (IndexError, ValueError) as e:
                    exc = type(e)
                if left is None and right is None:
                    want = None
                elif not (0 <= tl <= n and 0 <= tr <= n):
                    want = IndexError
                elif not tl < tr:
                    want = ValueError
                else:
                    want = None
                ctx.check(exc is want, '{}: raised {}, expected {}'.format(
                    what, exc, want))
                cur = tuple(m.canonical_form)
                err = cform_error(m.lt, 1e-7)
                ctx.check(err is None, '{}: {}'.format(what, err))
                ctx.check(close(dense(m), ref), what + ': tensor changed')
                if want is not None:
                    ctx.check(cur == before, what + ': rejected, but form changed')
                elif left is None and right is None:
                    ctx.check(cur[0] == n - 1 or cur[1] == 1,
                              '{}: form {}'.format(what, cur))
                else:
                    for i in range(tl):
                        ctx.check(isometry_error(m.lt[i], 'left') < 1e-7,
                                  '{}: site {} not left-canonical'.format(what, i))
                    for i in range(tr, n):
                        ctx.check(isometry_error(m.lt[i], 'right') < 1e-7,
                                  '{}: site {} not right-canonical'.format(what, i))
                    ctx.check(cur[0] >= tl and cur[1] <= tr,
                              '{}: form {}'.format(what, cur))
                ctx.state(n, ranks, cls, before, left, right, cur)


def run_make(ctx, shape):
    """Claims of freshly made arrays, and canonicalization starting from them"""
    n = len(shape)
    nd = [len(s) for s in shape]
    dims = sum(map(tuple, shape), ())
    made = []
    for cls in 'rcze':
        arr = tensor(dims, cls, 'mk')
        made.append(('from_array ' + cls, mp.MPArray.from_array(arr, nd), arr))
        if len(set(nd)) == 1 and cls == 'c':
            g = local_to_global_ref(arr, n)
            made.append(('from_array_global', mp.MPArray.from_array_global(
                g, nd[0]), arr))
        fac = [tensor(s, cls, 'mk', i) for i, s in enumerate(shape)]
        ref = fac[0]
        for f in fac[1:]:
            ref = np.multiply.outer(ref, f)
        made.append(('from_kron ' + cls, mp.MPArray.from_kron(fac), ref))
        k = max(1, n // 2)
        parts = [mp.MPArray.from_array(a, d) for a, d in
                 ((tensor(sum(map(tuple, shape[:k]), ()), cls, 'm1'), nd[:k]),
                  (tensor(sum(map(tuple, shape[k:]), ()), cls, 'm2'), nd[k:]))
                 if d]
        ref = dense(parts[0])
        for q in parts[1:]:
            ref = np.multiply.outer(ref, dense(q))
        made.append(('chain of from_array ' + cls, mp.chain(parts), ref))
    for rank in (1, 2, 4):
        m = mp.random_mpa(n, [tuple(s) for s in shape], rank,
                          randstate=np.random.RandomState(rank))
        made.append(('random_mpa {}'.format(rank), m, dense(m)))
    z = mp.factory.zero(n, [tuple(s) for s in shape], 2)
    made.append(('zero', z, np.zeros(dims)))
    for name, m, ref in made:
        ctx.step(name)
        err = cform_error(m.lt, 1e-7)
        ctx.check(err is None, lambda: '{}: {}'.format(name, err))
        ctx.state(name, tuple(m.canonical_form), tuple(t.shape for t in m.lt))
        nrm = np.linalg.norm(ref)
        ctx.check(abs(mp.norm(m.copy()) - nrm) <= 1e-8 * max(nrm, 1e-290),
                  lambda: '{}: norm'.format(name))
        for l, r in {(0, 1), (n - 1, n), (0, n)} | {(n // 2, n // 2 + 1)}:
            new = m.copy()
            new.canonicalize(left=l, right=r)
            ctx.step('canonicalize', l, r)
            err = cform_error(new.lt, 1e-7)
            ctx.check(err is None, lambda: '{} canonicalize({}, {}): {}'.format(
                name, l, r, err))
            ctx.check(close(dense(new), ref), lambda: '{} canonicalize({}, {}): '
                      'tensor changed'.format(name, l, r))
