"""C08 isolation: histories 'derive, then change one side in place'."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.mpsmpo as mpsmpo
import mpnum.povm as mpp
import mpnum.special as mpsp
from mpnum.mpstruct import LocalTensors

from ..lib import (Harness, apply_gauge, build, cform_error, close, dense,
                   eigs_dense, herm, maxabs, mpo_from_matrix, rs, tensor, tensors)

RULE = ('a case is one (derivation, chain length, gauge history); inside it '
        'every object of the system is changed in place by every mutation '
        'word of the bound, every other object is compared with its snapshot')
ASSUMPTIONS = [
    'constructors which are handed local tensors own them afterwards '
    '(MPArray(list), LocalTensors.update): the caller does not write into '
    'these arrays any more; operations of the library on the MPArray must '
    'still not change them',
    '+a, a.group_sites(1) and a.split(out of range) return the operand itself',
]


def BOUNDS(tier):
    return dict(sites='1..3' if tier == 'quick' else '1..4',
                derivations=len(DERIV), mutations=sorted(MUT),
                words='length 1 for every gauge; length 2 (same object and '
                      'across objects) for raw operands')


###########################################################################
#  Operands: a, b MPOs; v, w MPSs; p PMPS; h Hermitian MPO; x, y dense arrays
###########################################################################

_CACHE = {}


def operand(n, gauge, k):
    """Fresh operand in the given gauge; no memory shared with earlier ones"""
    key = (n, gauge, k)
    if key not in _CACHE:
        _CACHE[key] = Make(n, gauge, k).objs[k]
        if isinstance(_CACHE[key], mp.MPArray):
            o = _CACHE[key]
            _CACHE[key] = (type(o), [np.array(t) for t in o.lt],
                           tuple(o.canonical_form))
    o = _CACHE[key]
    if isinstance(o, np.ndarray):
        return o.copy()
    return o[0](LocalTensors([t.copy() for t in o[1]], cform=o[2]))


class Sys(object):
    def __init__(self, n, gauge, names):
        self.n = n
        self.objs = {k: operand(n, gauge, k) for k in names}
        for k, o in self.objs.items():
            setattr(self, k, o)


class Make(object):
    """Fresh operands (always the same values)."""

    def __init__(self, n, gauge, names):
        self.n = n
        mpo, mps, pm = [(2, 2)] * n, [(2,)] * n, [(2, 3)] * n
        rk = (2,) * (n - 1)
        self.objs = {}
        for k in names:
            if k in 'abc':
                o = build(mpo, rk, 'c' if k == 'b' else 'r', k)[0]
            elif k in 'vw':
                o = build(mps, rk, 'r' if k == 'w' else 'c', k)[0]
            elif k == 'p':
                o = build(pm, rk, 'r', k)[0]
            elif k == 'h':
                o = mpo_from_matrix(herm(2**n, 'c', 'h'), (2,) * n)
            elif k == 'k':                     # product MPS
                o = build(mps, (1,) * (n - 1), 'r', k)[0]
            elif k == 'l':
                o = build(mps, (1,) * (n - 1), 'c', k)[0]
            elif k == 's':                     # normalised state
                o = build(mps, rk, 'c', k)[0]
                o = o / mp.norm(o)
            elif k == 't':                     # valid mpdo
                o = build(mps, rk, 'c', k)[0]
                o = mp.mps_to_mpo(o / mp.norm(o))
            elif k == 'q':                     # normalised pmps
                o = build(pm, rk, 'c', k)[0]
                o = o / mp.norm(o)
            elif k == 'm':
                o = mpp.pauli_mpp(n, 2)
            elif k == 'z':                     # povm of width 1
                o = mpp.MPPovm.from_local_povm(mpp.x_povm(2), 1)
            elif k == 'x':                     # dense, local order
                o = tensor((2, 2) * n, 'r', 'x')
            elif k == 'y':                     # one tensor
                o = tensor((2, 2), 'r', 'y')
            else:
                raise Harness(k)
            if isinstance(o, mp.MPArray) and len(o) == n:
                apply_gauge(o, gauge)
            self.objs[k] = o
            setattr(self, k, o)


def stop(n, g='raw'):
    return dict(num_sweeps=1, var_sites=min(n, 2))


def D(fun, ops, lo=1, hi=9):
    return fun, ops, lo, hi


DERIV = {
    'copy': D(lambda s: [s.a.copy()], 'a'),
    'mul': D(lambda s: [s.a * 2., 3 * s.a, 1 * s.a], 'a'),
    'div': D(lambda s: [s.a / 2.], 'a'),
    'neg': D(lambda s: [-s.a], 'a'),
    'conj': D(lambda s: [s.b.conj(), s.a.conj()], 'ab'),
    'T': D(lambda s: [s.a.T], 'a'),
    'Tmps': D(lambda s: [s.v.T, s.v.transpose()], 'v'),
    'transpose': D(lambda s: [s.a.transpose((0, 1)), s.a.transpose((1, 0))], 'a'),
    'adj': D(lambda s: [s.a.adj(), s.v.adj()], 'av'),
    'reshape': D(lambda s: [s.a.reshape((4,)), s.a.reshape((2, 2)),
                            s.a.reshape((2, 1, 2))], 'a'),
    'ravel': D(lambda s: [s.a.ravel(), s.v.ravel()], 'av'),
    'prunestr': D(lambda s: [s.a.reshape('prune')], 'a'),
    'group': D(lambda s: [s.a.group_sites(s.n)], 'a', 2),
    'splitsites': D(lambda s: [s.a.split_sites(2), s.v.split_sites(1)], 'av'),
    'vleg2leg': D(lambda s: [s.a.vleg2leg(k) for k in range(s.n - 1)], 'a', 2),
    'leg2vleg': D(lambda s: [s.a.vleg2leg(0).leg2vleg(0)], 'a', 2),
    'split': D(lambda s: list(s.a.split(0)), 'a', 2),
    'reverse': D(lambda s: [s.a.reverse()], 'a'),
    'get': D(lambda s: [s.a.get((0,) * s.n),
                        s.a.get((slice(None),) * s.n)], 'a'),
    'axis_iter': D(lambda s: list(s.a.axis_iter())[:3], 'a'),
    'sum': D(lambda s: [s.a.sum([(0,)] * s.n), s.a.sum([()] * s.n),
                        s.a.sum([(0, 1)] + [()] * (s.n - 1))], 'a'),
    'sumall': D(lambda s: [s.a.sum()], 'a'),
    'add': D(lambda s: [s.a + s.b, s.a + s.a], 'ab'),
    'sub': D(lambda s: [s.a - s.b], 'ab'),
    'sumup': D(lambda s: [mp.sumup([s.a, s.b, s.a]), mp.sumup([s.a])], 'ab'),
    'sumupw': D(lambda s: [mp.sumup([s.a, s.b], [2., 1.]),
                           mp.sumup([s.a], [1])], 'ab'),
    'special_sumup': D(lambda s: [mpsp.sumup([s.k, s.l], 2),
                                  mpsp.sumup([s.k], 1, [1.])], 'kl', 2),
    'dot': D(lambda s: [mp.dot(s.a, s.b), mp.dot(s.a, s.v),
                        mp.dot(s.a, s.a)], 'abv'),
    'partialdot': D(lambda s: [mp.partialdot(s.a, mp.MPArray([s.y[None, ..., None].copy()]), k)
                               for k in range(s.n)], 'ay', 2),
    'localouter': D(lambda s: [mp.localouter(s.a, s.v)], 'av'),
    'chain': D(lambda s: [mp.chain([s.a, s.b]), mp.chain([s.a, s.a]),
                          mp.chain([s.a])], 'ab'),
    'inject': D(lambda s: [mp.inject(s.a, 0, 2), mp.inject(s.a, s.n, 1, s.y),
                           mp.inject(s.a, 1, None, [s.y, s.y])], 'ay'),
    'embed': D(lambda s: [mp.embed_slice(s.n + 2, slice(1, s.n + 1), s.a),
                          mp.embed_slice(s.n + 1, slice(0, s.n), s.a, s.y),
                          mp.embed_slice(s.n, slice(0, s.n), s.a)], 'ay'),
    'local_sum': D(lambda s: [mp.local_sum([s.a, s.b, s.a]),
                              mp.local_sum([s.a]),
                              mp.local_sum([s.a, s.b], s.y)], 'aby'),
    'local_sum_sl': D(lambda s: [mp.local_sum([s.a, s.b], s.y, s.n + 2,
                                              [slice(2, s.n + 2), slice(0, s.n)])],
                      'aby'),
    'prune': D(lambda s: [mp.prune(s.a), mp.prune(s.a, True)], 'a'),
    'pad_ranks': D(lambda s: [s.a.pad_ranks(), s.a.pad_ranks(1),
                              s.a.pad_ranks(3, force_rank=True)], 'a'),
    'partialtrace': D(lambda s: [mp.partialtrace(s.a),
                                 mp.partialtrace(s.a, [None] * s.n),
                                 mp.partialtrace(s.a, [(0, 1)] + [None] * (s.n - 1))],
                      'a'),
    'scalars': D(lambda s: [mp.trace(s.a), mp.inner(s.a, s.b),
                            mp.normdist(s.a, s.b), mp.norm(s.a),
                            mp.sandwich(s.a, s.v), mp.sandwich(s.b, s.v, s.w)],
                 'abvw'),
    'diag': D(lambda s: list(mp.diag(s.a)) + list(mp.diag(s.a, 1)), 'a'),
    'diagv': D(lambda s: [mp.diag(s.v)], 'v'),
    'to_array': D(lambda s: [s.a.to_array(), s.a.to_array_global(),
                             s.v.to_array()], 'av'),
    'svd': D(lambda s: [s.a.compression(rank=1)[0], s.a.compression()[0]], 'a'),
    'svd_rel': D(lambda s: [s.a.compression(relerr=0.3)[0],
                            s.a.compression(relerr=0., direction='left')[0]], 'a'),
    'var': D(lambda s: [s.a.compression('var', rank=1, randstate=rs('v'),
                                        **stop(s.n))[0],
                        s.a.compression('var', rank=9, **stop(s.n))[0]], 'a'),
    'varstart': D(lambda s: [s.a.compression('var', startmpa=s.c,
                                             **stop(s.n))[0]], 'ac'),
    'varstart1': D(lambda s: [s.a.compression('var', startmpa=s.c, num_sweeps=1,
                                              var_sites=1)[0]], 'ac'),
    'varself': D(lambda s: [s.a.compression('var', startmpa=s.a, num_sweeps=1,
                                            var_sites=1)[0]], 'a'),
    'varcompress': D(lambda s: [varcompress(s)], 'ac'),
    'from_array': D(lambda s: [mp.MPArray.from_array(s.x, 2)], 'x'),
    'from_array1': D(lambda s: [mp.MPArray.from_array(s.x, 2 * s.n)], 'x'),
    'from_array_global': D(lambda s: [mp.MPArray.from_array_global(s.x, 2)], 'x'),
    'from_kron': D(lambda s: [mp.MPArray.from_kron([s.y] * s.n)], 'y'),
    'construct': D(lambda s: [mp.MPArray([s.y[None, ..., None]] * s.n)], 'y'),
    'diagonal_mpa': D(lambda s: [mp.diagonal_mpa([s.y[0]] * s.n, sites=s.n)
                                 if False else mp.eye(s.n, 2)], 'y'),
    'mps_to_pmps': D(lambda s: [mp.mps_to_pmps(s.v)], 'v'),
    'mps_to_mpo': D(lambda s: [mp.mps_to_mpo(s.v)], 'v'),
    'pmps_to_mpo': D(lambda s: [mp.pmps_to_mpo(s.p)], 'p'),
    'pmps_to_mps': D(lambda s: [mp.pmps_to_mps(mp.mps_to_pmps(s.v))], 'v'),
    'pmps_dm': D(lambda s: [mp.pmps_dm_to_array(s.p),
                            mp.pmps_dm_to_array(s.p, True)], 'p'),
    'pmps_red': D(lambda s: [mp.pmps_reduction(s.p, [0]),
                             mp.pmps_reduction(s.p, list(range(s.n))),
                             mp.pmps_reduction(s.p, sorted({0, s.n - 1}))], 'p'),
    'red_mpo': D(lambda s: list(mp.reductions_mpo(s.a, 1)) +
                 list(mp.reductions_mpo(s.a, s.n)), 'a'),
    'red_pmps': D(lambda s: list(mp.reductions_pmps(s.p, 1)) +
                  list(mp.reductions_pmps(s.p, s.n)), 'p'),
    'red_mps': D(lambda s: list(mp.reductions_mps_as_pmps(s.v, s.n)) +
                 list(mp.reductions_mps_as_mpo(s.v, 1)), 'v'),
    'red': D(lambda s: list(mp.reductions(s.v, 'mps', width=1)[0]) +
             list(mp.reductions(s.p, 'pmps', width=1)[0]) +
             list(mp.reductions(s.a, 'mpdo', width=1)[0]), 'vpa'),
    'eig': D(lambda s: [mp.eig(s.h, num_sweeps=1, var_sites=1, startvec=s.w,
                               eigs=eigs_dense)[1]], 'hw', 2),
    'eig2': D(lambda s: [mp.eig(s.h, num_sweeps=1, var_sites=2, startvec=s.w,
                                eigs=eigs_dense)[1]], 'hw', 3),
    'eig_sum': D(lambda s: [mp.eig_sum([s.h, s.v], num_sweeps=1, var_sites=1,
                                       startvec=s.w, eigs=eigs_dense)[1]],
                 'hvw', 2),
    'povm_embed': D(lambda s: [s.m.embed(s.n + 2, 1, 2), s.m.embed(s.n, 0, 2)],
                    'm', 1, 2),
    'povm_block': D(lambda s: list(s.m.block(s.n + 1).mpps) +
                    list(mpp.MPPovmList([s.m]).block(s.n).mpps), 'm', 1, 2),
    'povm_repeat': D(lambda s: [s.z.repeat(3), s.z.repeat(1)], 'z', 1, 1),
    'povm_elems': D(lambda s: list(s.m.elements)[:2], 'm', 1, 2),
    'povm_pmap': D(lambda s: [s.m.probability_map], 'm', 1, 2),
    'povm_pmf': D(lambda s: [s.m.pmf(s.s, 'mps'), s.m.pmf(s.t, 'mpdo'),
                             s.m.pmf(s.q, 'pmps')], 'mstq', 1, 2),
    'povm_pmfa': D(lambda s: [s.m.pmf_as_array(s.s, 'mps'),
                              s.m.pmf_as_array(s.t, 'mpdo'),
                              s.m.pmf_as_array(s.q, 'pmps')] +
                   [s.m.pmf_as_array(s.q, 'pmps', impl=i)
                    for i in ('default', 'pmps-ltr', 'pmps-symm')], 'mstq', 1, 2),
    'povm_block_pmfs': D(lambda s: [s.z.block_pmfs_as_array(o, k, asarray=True)
                                    for o, k in ((s.s, 'mps'), (s.t, 'mpdo'),
                                                 (s.q, 'pmps'))], 'zstq', 1, 3),
    'povm_expect': D(lambda s: list(s.z.expectations(s.s, 'mps')) +
                     list(s.z.expectations(s.t, 'mpdo')), 'zst', 1, 3),
    'povm_sample': D(lambda s: [s.m.sample(rs('s'), s.s, 2, 'cond', mode='mps'),
                                s.m.sample(rs('s'), s.t, 2, 'direct', mode='mpdo')],
                     'mst', 1, 2),
    'povm_lfun': D(lambda s: list(s.z.embed(s.n, 0, 2).lfun(
        np.array([1., 2.]), None, s.s, 'mps')), 'zs', 1, 3),
}


def varcompress(s):
    """In-place variant: the start vector must not be tied to the result"""
    t = s.a.copy()
    t.compress('var', startmpa=s.c, **stop(s.n))
    return t


# name -> (function on the object, factor or None = value not predicted)
def _set(m, i):
    t = m.lt[i]
    m.lt[i] = t * 3.


def _upd(m):
    k = min(len(m), 2)
    m.lt.update(slice(0, k), [2. * t for t in list(m.lt)[:k]])


def _imul(m, f):
    m *= f


def _idiv(m, f):
    m /= f


MUT = {
    'imul': (lambda m: _imul(m, 3.), 3.),
    'imulc': (lambda m: _imul(m, 2j), 2j),
    'idiv': (lambda m: _idiv(m, -2.), -.5),
    'canl': (lambda m: m.canonicalize(left='afull'), 1),
    'canr': (lambda m: m.canonicalize(right='afull'), 1),
    'canc': (lambda m: m.canonicalize(left=len(m) // 2, right=len(m) // 2 + 1), 1),
    'can': (lambda m: m.canonicalize(), 1),
    'norm': (lambda m: mp.norm(m), 1),
    'sv': (lambda m: list(m.singularvals()), 1),
    'comp': (lambda m: m.compress(), 1),
    'comp1': (lambda m: m.compress(rank=1), None),
    'compl': (lambda m: m.compress(rank=1, direction='left'), None),
    'var': (lambda m: m.compress('var', rank=1, num_sweeps=1, var_sites=1,
                                 randstate=rs('m')), None),
    'set0': (lambda m: _set(m, 0), 3.),
    'setl': (lambda m: _set(m, -1), 3.),
    'upd': (_upd, None),
}
WORD2 = ['imul', 'canr', 'comp1', 'set0', 'canl', 'setl']


def cases(tier):
    q = tier == 'quick'
    for name in sorted(DERIV):
        _, ops, lo, hi = DERIV[name]
        for n in range(max(lo, 1), min(hi, 3 if q else 4) + 1):
            gs = ['raw'] + ['c0:1', 'scal', 'comp', 'norm'] * (n == 1) + \
                ['c0:1', 'c{}:{}'.format(n - 1, n), 'scal', 'comp',
                 'cnscal'] * (n > 1)
            if n > 2:
                gs += ['c1:2']
            if q:
                gs = [g for g in gs if g not in ('comp', 'cnscal')]
            if name.startswith('povm'):
                gs = [g for g in gs if 'scal' not in g]
            for g in gs:
                yield ('derive', name, n, g)
    yield ('stores',)


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def snap(o):
    """(value, canonical form truth irrelevant)"""
    if isinstance(o, mp.MPArray):
        return dense(o).copy()
    return np.array(o)


def same(ctx, o, ref, what):
    if isinstance(o, mp.MPArray):
        got = dense(o)
        ctx.check(close(got, ref, tol=1e-7),
                  lambda: '{}: represents a different tensor now (deviation '
                  '{})'.format(what, maxabs(got - ref)
                               if got.shape == ref.shape else 'shape'))
        err = cform_error(o.lt, 1e-7)
        ctx.check(err is None, lambda: '{}: {}'.format(what, err))
    else:
        ctx.check(np.shape(o) == ref.shape and
                  bool(np.all(np.asarray(o) == ref)), what + ': was modified')


def run_derive(ctx, name, n, gauge):
    fun, ops, _, _ = DERIV[name]

    def make():
        s = Sys(n, gauge, ops)
        refs = {k: snap(o) for k, o in s.objs.items()}
        res = fun(s)
        objs = dict(s.objs)
        for i, r in enumerate(res):
            objs['result%d' % i] = r
        return objs, refs
    objs, refs = make()
    ctx.step('{} n={} {}'.format(name, n, gauge))
    # 1. operands are not changed by the derivation
    for k, r in refs.items():
        same(ctx, objs[k], r, 'operand {} of {}'.format(k, name))
    full = {k: snap(o) for k, o in objs.items()}
    ctx.state(name, n, gauge)
    # 2. results do not change while others are changed
    names = sorted(objs)

    def mutate(objs, k, mut):
        """returns the predicted value or None"""
        o = objs[k]
        if isinstance(o, np.ndarray):
            if o.ndim == 0 or not o.flags.writeable:
                return False
            o[...] = 7
            return True
        if not isinstance(o, mp.MPArray):
            return False
        MUT[mut][0](o)
        ctx.step('{}: {}'.format(k, mut))
        return True

    def expect(val, mut):
        f = MUT[mut][1]
        return None if f is None else val * f
    for k in names:
        o = objs[k]
        if isinstance(o, np.ndarray):
            if k in refs:
                # arrays handed in belong to the caller; see ASSUMPTIONS
                continue
            if o.ndim:
                ctx.check(o.flags.writeable,
                          '{}: dense result is not writeable'.format(name))
            muts = ['fill']
        elif isinstance(o, mp.MPArray):
            muts = sorted(MUT)
        else:
            continue
        for mut in muts:
            cur, _ = make()
            if not mutate(cur, k, mut):
                continue
            for other in names:
                if other != k:
                    same(ctx, cur[other], full[other],
                         '{} of {} after {} on {}'.format(other, name, mut, k))
            if mut != 'fill':
                ref = expect(full[k], mut)
                if ref is not None:
                    same(ctx, cur[k], ref, '{} of {} after {} on itself'
                         .format(k, name, mut))
            ctx.state(name, n, gauge, k, mut)
    if ctx.quick and n > 2 or gauge != 'raw' and (ctx.quick or gauge not in ('c0:1', 'comp')):
        return
    # 3. words of length two: same object and across objects
    mpas = [k for k in names if isinstance(objs[k], mp.MPArray)]
    for k1, k2 in it.product(mpas, repeat=2):
        if k1 != k2 and len(mpas) > 3 and ctx.quick and \
                not (k1 in refs) ^ (k2 in refs):
            continue
        for m1, m2 in it.product(WORD2[:4] if ctx.quick else WORD2,
                                 repeat=2):
            cur, _ = make()
            mutate(cur, k1, m1)
            mutate(cur, k2, m2)
            for other in names:
                if other not in (k1, k2):
                    same(ctx, cur[other], full[other],
                         '{} of {} after {} on {}, {} on {}'.format(
                             other, name, m1, k1, m2, k2))
            if k1 != k2:
                for k, m in ((k1, m1), (k2, m2)):
                    ref = expect(full[k], m)
                    if ref is not None:
                        same(ctx, cur[k], ref,
                             '{} of {} after {} on {}, {} on {}'.format(
                                 k, name, m1, k1, m2, k2))
            ctx.state(name, n, gauge, k1, m1, k2, m2)


def run_stores(ctx):
    """Arrays written into / taken out of the local tensor store."""
    for n, mut in it.product((1, 2, 3), sorted(MUT)):
        for idx in range(-n, n):
            m, _ = build([(2, 2)] * n, (2,) * (n - 1), 'r', 'st')
            new = tensor(m.lt[idx].shape, 'r', 'new')
            keep = new.copy()
            m.lt[idx] = new
            views = list(m.lt)
            kept = [np.array(v) for v in views]
            other = m.copy()
            ref = dense(other)
            MUT[mut][0](m)
            ctx.step('store {} {}'.format(idx, mut))
            ctx.check(bool((new == keep).all()),
                      'array written to site {} modified by {}'.format(idx, mut))
            for v, w in zip(views, kept):
                ctx.check(bool((v == w).all()),
                          'tensor read earlier modified by {}'.format(mut))
            same(ctx, other, ref, 'copy after ' + mut)
            for v in m.lt:
                def write(v=v):
                    v[...] = 0
                try:
                    write()
                except (ValueError, RuntimeError):
                    continue
                ctx.fail('tensor read from the store is writeable')
            ctx.state('store', n, idx, mut)
    # lists of tensors and flags given to constructors and updates
    for n in (2, 3):
        lst = tensors([(2,)] * n, (2,) * (n - 1), 'r', 'lst')
        keep = [t.copy() for t in lst]
        a, b = mp.MPArray(lst), mp.MPArray(tuple(lst))
        ref = dense(b)
        for mut in sorted(MUT):
            a = mp.MPArray(lst)
            MUT[mut][0](a)
            same(ctx, b, ref, 'array built from the same tensors, ' + mut)
            ctx.check(len(lst) == n and all((x == y).all()
                                            for x, y in zip(lst, keep)),
                      'list of tensors changed by ' + mut)
            ctx.step('list ' + mut)
