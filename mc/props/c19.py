"""C19 factories deliver the promised structure using only the given randomness."""
import functools as ft
import itertools as it
import random

import numpy as np

import mpnum as mp
from mpnum.utils.extmath import randomized_svd

from ..lib import (all_ranks, as_matrix, build, cform_error, close, dense,
                   eigs_dense, fp, maxabs, mpo_from_matrix, herm, op_matrix,
                   rejects, rs, tol_of, verify)

RULE = ('all (function, number of sites, leg request, rank request, flags, '
        'generator) combinations of the bound')
ASSUMPTIONS = ['generators are a finite set of seeds and generators with '
               'constant or alternating answers']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(sites='1..5 (70 for the rank cap)', legs='int, tuple, list, '
                'iterator, per-site (with 0..2 legs), dimensions 1..4',
                rank_requests='int 1..40, tuples, lists, iterators',
                flags='normalized, force_rank, hermitian, dtype',
                seeds=2 if q else 5)


# leg request -> explicit shape for n sites
def legs(n):
    yield 2, [(2,)] * n
    yield np.int64(3), [(3,)] * n
    yield 1, [(1,)] * n
    yield (2, 3), [(2, 3)] * n
    yield [2, 2], [(2, 2)] * n
    yield (4,), [(4,)] * n
    per = [(1 + (i + n) % 3,) + ((2,) if i % 2 else ()) for i in range(n)]
    yield per, per
    yield tuple(tuple(x) for x in per), per
    zero = [() if i == n - 1 else (2,) for i in range(n)]
    if n > 1:
        yield zero, zero


def ranks_req(n):
    for r in (1, 2, 3, 7, 40):
        yield r, (r,) * (n - 1)
    if n > 1:
        r = tuple(1 + (2 * i) % 5 for i in range(n - 1))
        yield r, r
        r = tuple(9 - i for i in range(n - 1))
        yield list(r), r
        yield 'iter', r


def full(shape):
    ds = [int(np.prod(s)) if s else 1 for s in shape]
    out = []
    for c in range(1, len(ds)):
        l = r = 1
        for d in ds[:c]:
            l *= d
        for d in ds[c:]:
            r *= d
        out.append(min(l, r))
    return tuple(out)


def cases(tier):
    for n in range(1, 6):
        for li in range(len(list(legs(n)))):
            yield ('mpa', n, li)
    for n in range(1, 6):
        yield ('eye', n)
        yield ('diag', n)
        for ldim in (1, 2, 3):
            if ldim**n > 81:
                continue
            yield ('mps', n, ldim)
            yield ('mpo', n, ldim)
            yield ('mpdo', n, ldim)
    for n in (2, 3, 4):
        for ldim in (2, 3):
            for il in range(1, n + 1):
                if ldim**n <= 32:
                    yield ('ham', n, ldim, il)
    for k in range(len(RANDOM)):
        yield ('source', k)
    yield ('long',)
    yield ('reject',)


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


class Constant(np.random.RandomState):
    """Degenerate generator: every normal draw gives the same pattern"""

    def __init__(self, kind):
        np.random.RandomState.__init__(self, 0)
        self._kind = kind

    def randn(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        v = np.ones(n) if self._kind == 'ones' else \
            (-1.)**np.arange(n) if self._kind == 'alt' else np.arange(1., n + 1)
        return v.reshape(shape) if shape else float(v[0])

    def standard_normal(self, size=None):
        return self.randn(*(size if np.iterable(size) else
                            () if size is None else (size,)))

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.standard_normal(size)


def generators(quick):
    for s in range(2 if quick else 5):
        yield 'seed{}'.format(s), np.random.RandomState(s)
    for k in ('ones', 'alt', 'up'):
        yield k, Constant(k)


def request(x, r):
    return iter(r) if isinstance(x, str) else x


def structure(ctx, a, shape, ranks, what):
    ctx.check(type(a) is mp.MPArray, lambda: '{}: type {}'.format(what, type(a)))
    ctx.check(tuple(a.shape) == tuple(tuple(s) for s in shape),
              lambda: '{}: shape {} expected {}'.format(what, a.shape, shape))
    ctx.check(tuple(int(x) for x in a.ranks) == tuple(ranks),
              lambda: '{}: ranks {} expected {}'.format(what, a.ranks, ranks))
    e = cform_error(a.lt, 1e-8)
    ctx.check(e is None, lambda: '{}: {}'.format(what, e))


def run_mpa(ctx, n, li):
    for ri, (rq, rk) in enumerate(ranks_req(n)):
        for force in (False, True):
            lq, shape = list(legs(n))[li]
            if force and rk and max(rk) > 9 and n > 3:
                continue
            want = rk if force else tuple(min(a, b) for a, b in zip(rk, full(shape)))
            small = int(np.prod([int(np.prod(s)) for s in shape])) <= 3000
            ctx.step('zero', lq, rq, force)
            z = mp.zero(n, lq, request(rq, rk), force_rank=force)
            structure(ctx, z, shape, want, 'zero')
            ctx.check(all(maxabs(t) == 0 for t in z.lt) and np.dtype(z.dtype).kind == 'f',
                      'zero is not zero')
            for dt in (np.float_, np.complex_):
                for norm in (False, True):
                    for gname, g in generators(ctx.quick):
                        ctx.step('random_mpa', lq, rq, force, dt.__name__, norm, gname)
                        a = mp.random_mpa(n, lq, request(rq, rk), randstate=g,
                                          normalized=norm, force_rank=force, dtype=dt)
                        structure(ctx, a, shape, want, 'random_mpa')
                        ctx.check(np.dtype(a.dtype) == np.dtype(dt), lambda: 'dtype {}'.format(
                            a.dtype))
                        ctx.state(n, li, ri, force, dt.__name__, norm, gname)
                        zero_sum = gname == 'alt' and maxabs(dense(a)) < 1e-9 \
                            if small else False
                        if norm and small and not zero_sum:
                            nn = np.linalg.norm(dense(a).ravel())
                            if np.isfinite(nn):
                                ctx.check(abs(nn - 1) < 1e-8, lambda: 'norm of '
                                          'random_mpa: {} ({})'.format(nn, gname))
                            else:
                                ctx.check(gname == 'alt', 'norm not finite')
                        if not norm and gname.startswith('seed'):
                            # documented: unit variance normal entries drawn
                            # site by site; reproducible across versions
                            r = np.random.RandomState(int(gname[4:]))
                            full_rk = (1,) + tuple(want) + (1,)
                            for i, t in enumerate(a.lt):
                                sh = (full_rk[i],) + tuple(shape[i]) + (full_rk[i + 1],)
                                x = r.randn(*sh)
                                if dt is np.complex_:
                                    x = x + 1j * r.randn(*sh)
                                ctx.check(np.allclose(t, x, rtol=1e-12, atol=0),
                                          lambda: 'entries of local tensor {} are '
                                          'not the normal draws'.format(i))


def run_long(ctx):
    for n in (30, 63, 64, 70, 130):
        ctx.step('random_mpa', n)
        a = mp.random_mpa(n, 2, 5, randstate=np.random.RandomState(1))
        structure(ctx, a, [(2,)] * n, tuple(min(5, 2**min(c, n - c))
                                           for c in range(1, n)), 'long chain')
        ctx.check(list(mp.full_rank([2] * n)) == [2**min(c, n - c)
                                                  for c in range(1, n)], 'full_rank')
    # all dimension vectors up to length 4
    for n in (1, 2, 3, 4):
        for ds in it.product((1, 2, 3, 5), repeat=n):
            want = list(full([(d,) for d in ds]))
            ctx.transitions += 1
            ctx.check(list(mp.full_rank(ds)) == want, lambda: 'full_rank({})'.format(ds))
            sh = [(d, 2) if i % 2 else (d,) for i, d in enumerate(ds)]
            ctx.check(list(mp.full_rank(sh)) == list(full(sh)),
                      lambda: 'full_rank({})'.format(sh))


def run_eye(ctx, n):
    reqs = [(d, (d,) * n) for d in (1, 2, 3)]
    for ds in it.product((1, 2, 3), repeat=n):
        reqs.append((ds, ds))
        reqs.append((list(ds), ds))
        reqs.append((iter(ds), ds))
        reqs.append((np.array(ds), ds))
    for rq, ds in reqs:
        if np.prod(ds) > 81:
            continue
        ctx.step('eye', n, str(rq))
        a = mp.eye(n, rq)
        structure(ctx, a, [(d, d) for d in ds], (1,) * (n - 1), 'eye')
        D = int(np.prod(ds))
        ctx.state('eye', ds)
        ctx.check(close(op_matrix(a), np.eye(D)), lambda: 'eye({}, {})'.format(n, ds))
    rejects(ctx, lambda: mp.eye(n, (2,) * (n + 1)), 'wrong number of dimensions')


def run_diag(ctx, n):
    for k in (1, 2, 3, 4):
        if k**n > 300:
            continue
        for ent in [np.arange(1., k + 1), np.arange(k), np.arange(k) - 1.5j,
                    np.zeros(k), -np.ones(k), np.array([(-1.)**i for i in range(k)])]:
            ent0 = ent.copy()
            ctx.step('diagonal_mpa', n, k, str(ent.dtype))
            a = mp.diagonal_mpa(ent, n)
            want = np.zeros((k,) * n, dtype=ent.dtype)
            for i in range(k):
                want[(i,) * n] = ent[i]
            structure(ctx, a, [(k,)] * n, (k,) * (n - 1), 'diagonal_mpa')
            ctx.state('diag', n, fp(want))
            ctx.check(close(dense(a), want), 'diagonal_mpa entries')
            # usable afterwards: local tensors must not be entangled
            b = a.copy()
            b *= 2
            a *= -1
            ctx.check(close(dense(b), 2 * want) and close(dense(a), -want),
                      'diagonal_mpa scaled in place')
            if maxabs(want):
                c = mp.diagonal_mpa(ent, n)
                for s in range(n - 1):
                    c.canonicalize(left=s, right=s + 1)
                    ctx.check(close(dense(c), want) and not cform_error(c.lt, 1e-8),
                              'diagonal_mpa canonicalised')
                nn = mp.norm(c)
                ctx.check(abs(nn - np.linalg.norm(ent)) < 1e-8, 'norm')
            ctx.check(np.array_equal(ent, ent0), 'entries were modified')
    rejects(ctx, lambda: mp.diagonal_mpa(np.ones((2, 2)), n), 'two-dimensional entries')


def run_mps(ctx, n, ldim):
    shape = [(ldim,)] * n
    for rq, rk in ranks_req(n):
        for force in (False, True):
            if force and rk and max(rk) > 9 and n > 3:
                continue
            want = rk if force else tuple(min(a, b) for a, b in zip(rk, full(shape)))
            for gname, g in generators(ctx.quick):
                if gname == 'alt' and n > 1:
                    continue       # the zero state cannot be normalised
                ctx.step('random_mps', rq, force, gname)
                a = mp.random_mps(n, ldim, request(rq, rk), randstate=g,
                                  force_rank=force)
                structure(ctx, a, shape, want, 'random_mps')
                ctx.check(tuple(a.canonical_form) == (0, n), 'canonical form')
                ctx.check(np.dtype(a.dtype) == np.dtype(complex), 'dtype')
                nn = np.linalg.norm(dense(a).ravel())
                ctx.check(abs(nn - 1) < 1e-8, lambda: 'random_mps has norm {}'.format(
                    nn))
                ctx.state('mps', n, ldim, want, gname)


def run_mpo(ctx, n, ldim):
    shape = [(ldim, ldim)] * n
    if ldim**n > 27:
        return
    for rq, rk in ranks_req(n):
        for force, hm, norm in it.product((False, True), repeat=3):
            if force and rk and max(rk) > 9 and n > 3:
                continue
            want = rk if force else tuple(min(a, b) for a, b in zip(rk, full(shape)))
            for gname, g in generators(ctx.quick):
                if gname == 'alt':
                    continue
                ctx.step('random_mpo', rq, force, hm, norm, gname)
                a = mp.random_mpo(n, ldim, request(rq, rk), randstate=g,
                                  hermitian=hm, normalized=norm, force_rank=force)
                structure(ctx, a, shape, want, 'random_mpo')
                ctx.check(tuple(a.canonical_form) == (0, n), 'canonical form')
                m = op_matrix(a)
                if hm:
                    ctx.check(close(m, m.conj().T), 'random_mpo is not Hermitian')
                elif gname.startswith('seed'):
                    ctx.check(ldim == 1 or not close(m, m.conj().T),
                              'operator is always Hermitian')
                if norm:
                    ctx.check(abs(np.linalg.norm(m) - 1) < 1e-8, lambda: 'norm {}'
                              .format(np.linalg.norm(m)))
                ctx.state('mpo', n, ldim, want, gname, hm, norm)


def run_mpdo(ctx, n, ldim):
    if ldim**n > 27:
        return
    for rk in (1, 2, 3, 5):
        for gname, g in generators(ctx.quick):
            if not gname.startswith('seed'):
                continue
            ctx.step('random_mpdo', rk, gname)
            a = mp.random_mpdo(n, ldim, rk, randstate=g)
            structure(ctx, a, [(ldim, ldim)] * n, (rk,) * (n - 1), 'random_mpdo')
            ctx.check(tuple(a.canonical_form) == (0, n), 'canonical form')
            m = op_matrix(a)
            ctx.check(abs(np.trace(m) - 1) < 1e-8, lambda: 'trace {}'.format(
                np.trace(m)))
            ctx.check(close(m, m.conj().T), 'random_mpdo is not Hermitian')
            w = np.linalg.eigvalsh((m + m.conj().T) / 2)
            ctx.check(w.min() > -1e-9, lambda: 'random_mpdo has eigenvalue {}'.format(
                w.min()))
            ctx.check((w > 1e-9).sum() <= rk, lambda: 'mixture of {} pure states has '
                      'rank {}'.format(rk, (w > 1e-9).sum()))
            if rk > 1 and ldim > 1:
                ctx.check((w > 1e-9).sum() == min(rk, ldim**n), 'rank of the mixture')
            ctx.state('mpdo', n, ldim, rk, gname)


def run_ham(ctx, n, ldim, il):
    """Hermitian and no component acting on more than il neighbouring sites"""
    for gname, g in generators(ctx.quick):
        if not gname.startswith('seed'):
            continue
        ctx.step('random_local_ham', n, ldim, il, gname)
        a = mp.random_local_ham(n, ldim, il, randstate=g)
        ctx.check(tuple(a.shape) == ((ldim, ldim),) * n, 'shape')
        H = op_matrix(a)
        ctx.state('ham', n, ldim, il, gname, fp(H))
        ctx.check(close(H, H.conj().T), 'not Hermitian')
        if il == n:
            ctx.check(abs(np.linalg.norm(H) - 1) < 1e-8, 'single term norm')
        t = H.reshape((ldim,) * (2 * n))
        for sup in it.product((0, 1), repeat=n):
            on = [i for i, x in enumerate(sup) if x]
            if not on:
                continue
            # part of H which is traceless on `on` and identity elsewhere
            part = t
            for s in range(n):
                tr = np.trace(part, axis1=s, axis2=n + s) / ldim
                back = np.tensordot(tr, np.eye(ldim), 0)
                back = np.moveaxis(back, [-2, -1], [s, n + s])
                part = part - back if sup[s] else back
            span = on[-1] - on[0] + 1
            size = maxabs(part)
            if span > il:
                ctx.check(size < 1e-9, lambda: 'component of weight {} on sites {} for '
                          'interaction length {}'.format(size, on, il))
            elif ldim > 1:
                ctx.check(size > 1e-6, lambda: 'no interaction on sites {}'.format(on))
        if ldim == 2 or il == 2:
            # documented defaults: qubits and interactions of two neighbours
            kw = dict([] if ldim == 2 else [('ldim', ldim)])
            kw.update([] if il == 2 else [('intlen', il)])
            seed = 3
            b, c = (mp.random_local_ham(n, randstate=np.random.RandomState(seed), **k)
                    for k in (kw, dict(ldim=ldim, intlen=il)))
            ctx.check(tuple(b.shape) == tuple(c.shape) and
                      close(op_matrix(b), op_matrix(c)), 'random_local_ham: defaults')
    rejects(ctx, lambda: mp.random_local_ham(n, ldim, n + 1), 'interaction too long')


def _ham(n):
    return mpo_from_matrix(herm(2**n, 'c', 'c19', n), (2,) * n)


def _mps(n, seed, rank=2):
    return mp.random_mps(n, 2, rank, randstate=np.random.RandomState(seed))


def _arr(n, cls='r'):
    return build([(2,)] * n, (3,) * (n - 1), cls, 'c19src')[0]


# name, call(generator), number of draws expected (False: none at all)
RANDOM = [
    ('random_mpa', lambda g: mp.random_mpa(3, 2, 2, randstate=g), True),
    ('random_mpa complex normalized', lambda g: mp.random_mpa(
        3, (2, 2), 3, randstate=g, dtype=np.complex_, normalized=True,
        force_rank=True), True),
    ('random_mps', lambda g: mp.random_mps(4, 2, 3, randstate=g), True),
    ('random_mpo', lambda g: mp.random_mpo(3, 2, 3, randstate=g), True),
    ('random_mpo herm', lambda g: mp.random_mpo(3, 2, 3, randstate=g, hermitian=True,
                                                normalized=False), True),
    ('random_mpdo', lambda g: mp.random_mpdo(3, 2, 3, randstate=g), True),
    ('random_mpdo rank 1', lambda g: mp.random_mpdo(2, 2, 1, randstate=g), True),
    ('random_local_ham', lambda g: mp.random_local_ham(3, 2, 2, randstate=g), True),
    ('random_local_ham 1', lambda g: mp.random_local_ham(3, 2, 1, randstate=g), True),
    ('eig', lambda g: mp.eig(_ham(3), 2, var_sites=1, startvec_rank=2, randstate=g,
                             eigs=ft.partial(eigs_dense, which='SA')), True),
    ('eig 2', lambda g: mp.eig(_ham(4), 1, var_sites=2, startvec_rank=3, randstate=g,
                               eigs=ft.partial(eigs_dense, which='SA')), True),
    ('eig startvec', lambda g: mp.eig(_ham(3), 1, var_sites=1, startvec=_mps(3, 4),
                                      randstate=g, eigs=ft.partial(
                                          eigs_dense, which='SA')), False),
    ('eig_sum', lambda g: mp.eig_sum([_ham(3), _mps(3, 8)], 1, var_sites=1,
                                     startvec_rank=2, randstate=g, eigs=ft.partial(
                                         eigs_dense, which='SA')), True),
    ('eig_sum startvec', lambda g: mp.eig_sum(
        [_ham(3)], 1, var_sites=1, startvec=_mps(3, 5), randstate=g,
        eigs=ft.partial(eigs_dense, which='SA')), False),
    ('compression', lambda g: _arr(4).compression('var', rank=2, num_sweeps=2,
                                                  randstate=g), True),
    ('compression complex', lambda g: _arr(4, 'c').compression(
        'var', rank=2, num_sweeps=1, var_sites=2, randstate=g), True),
    ('compress', lambda g: inplace(_arr(4), 'var', rank=2, num_sweeps=2,
                                   randstate=g, var_sites=1), True),
    ('compression startmpa', lambda g: _arr(4).compression(
        'var', startmpa=mp.random_mpa(4, 2, 2, randstate=np.random.RandomState(9)),
        num_sweeps=1, randstate=g), False),
    ('randomized_svd', lambda g: randomized_svd(rs('svd').randn(9, 7), 3,
                                                n_oversamples=2, randstate=g), True),
    ('randomized_svd transpose', lambda g: randomized_svd(
        rs('svd').randn(5, 12), 2, n_oversamples=1, n_iter=1, randstate=g), True),
    ('svd compression', lambda g: inplace(_arr(4), 'svd', rank=2), False),
    ('randomized compression', lambda g: inplace(
        build([(3,)] * 4, (7,) * 3, 'r', 'big')[0], 'svd', rank=3, svdfunc=ft.partial(
            randomized_svd, n_oversamples=2, randstate=g)), True),
]


def inplace(a, *args, **kw):
    o = a.compress(*args, **kw)
    return a, o


def flat(x):
    """Results as a list of arrays"""
    if isinstance(x, mp.MPArray):
        return [np.array(t) for t in x.lt]
    if isinstance(x, (tuple, list)):
        return sum((flat(y) for y in x), [])
    return [np.asarray(x)]


def gstate(g):
    s = g.get_state()
    return s[1].tolist(), s[2:]


def run_source(ctx, k):
    """Everything random comes from the generator passed in"""
    name, call, used = RANDOM[k]
    ref = None
    end = None
    for gseed in (1, 2):
        np.random.seed(gseed)
        random.seed(gseed)
        if gseed == 2:
            np.random.randn(3)
        before, pyb = gstate(np.random), random.getstate()
        g = np.random.RandomState(99)
        start = gstate(g)
        ctx.step(name, gseed)
        res = flat(call(g))
        ctx.check(gstate(np.random) == before, '{} changed the global numpy generator'
                  .format(name))
        ctx.check(random.getstate() == pyb, '{} used the generator of the random '
                  'module'.format(name))
        if used:
            ctx.check(gstate(g) != start, '{} does not use the generator passed'
                      .format(name))
        else:
            ctx.check(gstate(g) == start, '{} draws random numbers without need'
                      .format(name))
        if ref is None:
            ref, end = res, gstate(g)
        ctx.check(len(res) == len(ref) and all(
            a.shape == b.shape and np.array_equal(a, b) for a, b in zip(res, ref)),
            '{}: same generator state but different result'.format(name))
        ctx.check(gstate(g) == end, '{}: number of draws differs'.format(name))
        # a second call continues the stream
        again = flat(call(g))
        if used and name.startswith('random'):
            ctx.check(not all(a.shape == b.shape and np.allclose(a, b)
                              for a, b in zip(again, res)) or name.startswith(
                                  'randomized'),
                      '{}: second call repeats the first'.format(name))
    ctx.state('source', k, fp(ref[0]))


def run_reject(ctx):
    rejects(ctx, lambda: mp.random_mpa(3, 2, (2, 2, 2)), 'too many ranks')
    rejects(ctx, lambda: mp.random_mpa(3, 2, (2,)), 'too few ranks')
    rejects(ctx, lambda: mp.random_mpa(3, 2, (2,), force_rank=True), 'too few ranks')
    rejects(ctx, lambda: mp.random_mpa(3, [(2,), (2,)], 2), 'too few sites')
    rejects(ctx, lambda: mp.zero(2, [(2,), (2,), (2,)], 2), 'too many sites')
    rejects(ctx, lambda: mp.random_mpa(3, 2, 2, dtype=np.int64), 'integer dtype')
    rejects(ctx, lambda: mp.diagonal_mpa(np.ones(2), 0), 'no sites')
    # the default source is the global generator
    for f in (lambda: mp.random_mpa(3, 2, 2), lambda: mp.random_mpdo(2, 2, 2),
              lambda: mp.random_local_ham(3), lambda: mp.random_mpo(2, 2, 2)):
        np.random.seed(5)
        a = flat(f())
        np.random.seed(5)
        b = flat(f())
        ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)),
                  'default generator is not the global one')
