"""Larger structures: long chains, high ranks, large local dimensions.

The dense tensor of these chains cannot be written down, so results are compared
with a chain of reference tensors computed here.  The distance of two chains is
the norm of their difference, found with one QR sweep over the direct sum (no
cancellation, no use of the library)."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.special as mpsp

from . import fine
from .lib import apply_gauge, cform_error, close, maxabs, rs, site_cls

_MIX = [(2,), (4,), (1,), (3, 2), (6,), (2, 1, 2), (1,), (5,), (2, 2), (3,)]
STRUCT = {
    'vec6': (((5,),) * 6, (5, 9, 11, 9, 5)),
    'vec12': (((2,),) * 12, (2, 4, 8, 9, 10, 16, 10, 9, 8, 4, 2)),
    'vec40': (((2,),) * 40, (3,) * 39),
    'vec101': (((2,),) * 101, (2, 1) * 50),
    'mix10': (tuple(_MIX), (2, 5, 5, 4, 7, 3, 3, 6, 2)),
    'wide4': (((7,), (9,), (8,), (6,)), (7, 20, 6)),
    'big3': (((36,), (4,), (40,)), (33, 38)),
    'op8': (((3, 3),) * 8, (5, 6, 7, 8, 7, 6, 5)),
    'op24': (((2, 2),) * 24, (3,) * 23),
    'op5': (((5, 5),) * 5, (4, 9, 9, 4)),
}
OPS = ('op8', 'op24', 'op5')
VECS = ('vec6', 'vec12', 'vec40', 'vec101', 'wide4', 'big3')


def bounds():
    return {k: '{} sites, legs up to {}, ranks up to {}'.format(
        len(s), max(map(max, s)), max(r)) for k, (s, r) in sorted(STRUCT.items())}


def tt(shape, ranks, cls, *label):
    """Generic tensors of moderate norm"""
    rk = (1,) + tuple(ranks) + (1,)
    out = []
    for i, s in enumerate(shape):
        r = rs('scale', i, label)
        t = r.randn(*((rk[i],) + tuple(s) + (rk[i + 1],)))
        if site_cls(cls, i) == 'c':
            t = t + 1j * r.randn(*t.shape)
        out.append(t / np.sqrt(rk[i] * np.prod(s)))
    return out


def operand(ctx, name, cls, gauge, label):
    """(MPArray, tensors, shape)"""
    if name in STRUCT:
        shape, ranks = STRUCT[name]
        t = tt(shape, ranks, cls, name, label)
    else:
        shape, ranks = fine.STRUCT[name]
        t = fine.tens(shape, ranks, cls, name, label)
    m = mp.MPArray([x.copy() for x in t])
    f = apply_gauge(m, gauge.replace('E', str(len(t) - 1)).replace('N', str(len(t)))
                    .replace('H', str(len(t) // 2))
                    .replace('I', str(len(t) // 2 + 1)))
    ctx.step('build {} {} {}'.format(name, cls, gauge))
    if f != 1:
        t[0] = t[0] * f
    return m, t, shape


GAUGES = ['raw', 'norm', 'cE:N', 'cH:I', 'scal']


def flat(ts):
    return [np.asarray(t).reshape((t.shape[0], -1, t.shape[-1])) for t in ts]


def direct_sum(terms):
    """Tensors of sum_k c_k T_k"""
    chains = [flat(t) for _, t in terms]
    n = len(chains[0])
    out = []
    for i in range(n):
        ts = [c[i] for c in chains]
        if i == 0:
            ts = [t * f for t, (f, _) in zip(ts, terms)]
        if n == 1:
            out.append(sum(ts))
        elif i == 0:
            out.append(np.concatenate(ts, axis=2))
        elif i == n - 1:
            out.append(np.concatenate(ts, axis=0))
        else:
            l, r = sum(t.shape[0] for t in ts), sum(t.shape[2] for t in ts)
            z = np.zeros((l, ts[0].shape[1], r), dtype=np.result_type(*ts))
            a = b = 0
            for t in ts:
                z[a:a + t.shape[0], :, b:b + t.shape[2]] = t
                a, b = a + t.shape[0], b + t.shape[2]
            out.append(z)
    return out


def norm(ts):
    """Norm with QR decompositions from the left"""
    r = np.ones((1, 1))
    for t in flat(ts):
        m = np.tensordot(r, t, (1, 0))
        r = np.linalg.qr(m.reshape((-1, m.shape[2])), mode='r')
    return float(np.linalg.norm(r))


def inner(a, b):
    """<a, b>, antilinear in a"""
    e = np.ones((1, 1))
    for x, y in zip(flat(a), flat(b)):
        e = np.einsum('ab,aic,bid->cd', e, x.conj(), y, optimize=True)
    return complex(e[0, 0])


def err(got, terms):
    """Norm of got - sum of terms, relative to the largest norm involved"""
    scale = max([abs(c) * norm(t) for c, t in terms] + [1e-290])
    return norm(direct_sum([(1., got)] + [(-c, t) for c, t in terms])) / scale


def same(ctx, mpa, terms, what, shape=None, tol=None):
    """mpa is consistent and equal to the sum of terms"""
    if isinstance(terms, list) and isinstance(terms[0], np.ndarray):
        terms = [(1., terms)]
    ctx.check(isinstance(mpa, mp.MPArray), what + ': no MPArray')
    ts = list(mpa.lt)
    for a, b in zip(ts[:-1], ts[1:]):
        ctx.check(a.shape[-1] == b.shape[0], what + ': bonds do not match')
    ctx.check(ts[0].shape[0] == 1 and ts[-1].shape[-1] == 1, what + ': boundary')
    if shape is not None:
        ctx.check(tuple(map(tuple, mpa.shape)) == tuple(map(tuple, shape)),
                  lambda: '{}: shape {} expected {}'.format(what, mpa.shape, shape))
    tol = tol or getattr(ctx, 'tol', 1e-9)
    e = err(ts, terms)
    ctx.check(e <= tol, lambda: '{}: relative deviation {:.2e}'.format(what, e))
    c = cform_error(mpa.lt, 1e-7)
    ctx.check(c is None, lambda: '{}: {}'.format(what, c))
    ctx.step(what)


def number(ctx, got, want, scale, what, tol=1e-9):
    got = np.asarray(got)
    ctx.check(got.shape == () and abs(complex(got) - want) <= tol * scale,
              lambda: '{}: {} expected {}'.format(what, got, want))
    ctx.step(what)


def keys(names, classes=('r', 'c'), gauges=GAUGES):
    for name, cls, g in it.product(names, classes, gauges):
        if cls == 'r' and (g in ('cH:I', 'scal') or name == 'vec101'):
            continue
        yield ('scale', name, cls, g)


# -- C02 ----------------------------------------------------------------------
def c02(ctx, name, cls, g):
    a, ta, shape = operand(ctx, name, cls, g, 'a')
    b, tb, _ = operand(ctx, name, 'c' if cls == 'r' else 'r', 'raw', 'b')
    c, tc, _ = operand(ctx, name, 'm', 'norm', 'c')
    for what, f, terms in [
            ('a+b', lambda: a + b, [(1, ta), (1, tb)]),
            ('b-a', lambda: b - a, [(1, tb), (-1, ta)]),
            ('-a', lambda: -a, [(-1, ta)]),
            ('a*s', lambda: a * (2 - 1j), [(2 - 1j, ta)]),
            ('s*a', lambda: -.5 * a, [(-.5, ta)]),
            ('a/s', lambda: a / 4, [(.25, ta)]),
            ('sumup', lambda: mp.sumup([a, b, c]), [(1, ta), (1, tb), (1, tc)]),
            ('weighted sumup', lambda: mp.sumup(iter([a, b, c]), [2., -1., 1j]),
             [(2, ta), (-1, tb), (1j, tc)]),
            ('conj', lambda: a.conj(), [(1, [t.conj() for t in ta])]),
            ('a+b-c*2', lambda: a + b - c * 2, [(1, ta), (1, tb), (-2, tc)])]:
        same(ctx, f(), terms, what, shape)
        ctx.state(name, cls, g, what)
    if g == 'raw':
        # sums of product arrays
        for k in (2, 7, 11):
            ps = [tt(shape, (1,) * (len(shape) - 1), cls, name, 'prod', j)
                  for j in range(k)]
            w = [(-1.)**j * (1 + j / 4.) for j in range(k)]
            got = mpsp.sumup([mp.MPArray([x.copy() for x in t]) for t in ps],
                             rank=k, weights=w)
            same(ctx, got, list(zip(w, ps)), 'special.sumup', shape)
            ctx.check(max(got.ranks) <= k, 'special.sumup: rank')
    na, nb = norm(ta), norm(tb)
    number(ctx, mp.normdist(a, b), norm(direct_sum([(1, ta), (-1, tb)])), na + nb,
           'normdist')
    t = a.T
    same(ctx, t, [(1, [x.transpose([0] + list(range(1, x.ndim - 1))[::-1] +
                                   [x.ndim - 1]) for x in ta])], 'transpose',
         [s[::-1] for s in shape])
    d = a.copy()
    d *= 3
    d /= 2j
    same(ctx, d, [(-1.5j, ta)], 'in place', shape)
    same(ctx, a, ta, 'operand afterwards', shape)
    same(ctx, b, tb, 'operand afterwards', shape)


# -- C03 ----------------------------------------------------------------------
def site_dot(x, y, axes):
    """One site of a product; axes are lists of physical legs"""
    a = [k + 1 for k in axes[0]]
    b = [k + 1 for k in axes[1]]
    t = np.tensordot(x, y, (a, b))
    n = x.ndim - len(a)
    t = np.moveaxis(t, n, 1)            # left bonds together
    t = np.moveaxis(t, n, t.ndim - 2)   # right bonds together
    s = t.shape
    return t.reshape((s[0] * s[1],) + s[2:-2] + (s[-2] * s[-1],))


def c03(ctx, name, cls, g):
    a, ta, shape = operand(ctx, name, cls, g, 'a')
    b, tb, _ = operand(ctx, name, 'c', 'raw', 'b')
    n = len(shape)
    na, nb = norm(ta), norm(tb)
    number(ctx, mp.inner(a, b), inner(ta, tb), na * nb, 'inner')
    number(ctx, mp.inner(b, a), inner(tb, ta), na * nb, 'inner')
    ones = [np.ones((1,) + t.shape[1:-1] + (1,)) for t in ta]
    number(ctx, a.sum(), inner(ones, ta), na * norm(ones), 'sum')
    small = max(a.ranks) * max(b.ranks) <= 64
    if small:
        same(ctx, mp.localouter(a, b), [site_dot(x, y, ((), ())) for x, y in
                                        zip(ta, tb)], 'localouter',
             [s + s for s in shape])
        if g == 'raw':
            first = [site_dot(x, y, ((0,), (0,))) for x, y in zip(ta, tb)]
            same(ctx, mp.dot(a, b, axes=(0, 0)), first, 'dot (0, 0)')
            same(ctx, mp.dot(a, b, axes=(-1, -1)),
                 [site_dot(x, y, ((x.ndim - 3,), (x.ndim - 3,)))
                  for x, y in zip(ta, tb)], 'dot (-1, -1)')
    ch = mp.chain([a, b])
    same(ctx, ch, ta + tb, 'chain', shape + shape)
    idx = [k % s[0] for k, s in enumerate(shape)]
    same(ctx, a.get(idx), [t[:, k] for t, k in zip(ta, idx)], 'get')
    r = rs('c03', name)
    ax = [None if r.rand() < .3 else tuple(range(int(r.randint(0, len(s) + 1))))
          for s in shape]
    red = [t.sum(tuple(range(1, t.ndim - 1))) if x is None else
           t.sum(tuple(k + 1 for k in x)) for t, x in zip(ta, ax)]
    got = a.sum(ax)
    if all(t.ndim == 2 for t in red):
        number(ctx, got, inner([np.ones((1, 1))] * n, red), na, 'sum {}'.format(ax))
    else:
        same(ctx, got, red, 'sum per site')
    if name in OPS:
        eye = [np.eye(s[0])[None, ..., None] for s in shape]
        number(ctx, mp.trace(a), inner(eye, ta), na * norm(eye), 'trace')
        sel = [(0, 1) if k % 3 == 1 else None for k in range(n)]
        got = mp.partialtrace(a, axes=sel)
        want, carry = [], None
        for t, s in zip(ta, sel):
            if s is None:
                want.append(t if carry is None else np.tensordot(carry, t, (1, 0)))
                carry = None
            else:
                m = np.trace(t, axis1=1, axis2=2)
                carry = m if carry is None else np.dot(carry, m)
        if carry is not None:
            want[-1] = np.tensordot(want[-1], carry, (-1, 0))
        same(ctx, got, want, 'partialtrace', [s for s, x in zip(shape, sel)
                                              if x is None])
        v = tt([(s[0],) for s in shape], (2,) * (n - 1), 'c', 'v')
        w = tt([(s[0],) for s in shape], (3,) * (n - 1), 'c', 'w')
        mv, mw = (mp.MPArray([x.copy() for x in y]) for y in (v, w))
        apply_gauge(mv, 'norm')
        ov = [site_dot(x, y, ((1,), (0,))) for x, y in zip(ta, v)]
        same(ctx, mp.dot(a, mv), ov, 'operator times vector', [s[:1] for s in shape])
        number(ctx, mp.sandwich(a, mv), inner(v, ov), norm(v) * norm(ov), 'sandwich')
        number(ctx, mp.sandwich(a, mv, mw), inner(w, ov), norm(w) * norm(ov),
               'sandwich')
        for k in (0, n // 2, n - 2):
            part = mp.MPArray([x.copy() for x in (
                tb[k][:1], tb[k + 1][..., :1])])
            pt = [tb[k][:1], tb[k + 1][..., :1]]
            want = list(ta)
            for j in (0, 1):
                want[k + j] = site_dot(ta[k + j], pt[j], ((1,), (0,)))
            same(ctx, mp.partialdot(a, part, k), want, 'partialdot {}'.format(k),
                 shape)
    elif name in VECS and g == 'raw':
        p, q = (tt(shape, (1,) * (n - 1), c, 'p') for c in ('c', cls))
        number(ctx, mpsp.inner_prod_mps(mp.MPArray(p), b), inner(p, tb),
               norm(p) * nb, 'inner_prod_mps')
    same(ctx, a, ta, 'operand afterwards', shape)
    ctx.state(name, cls, g)


# -- C04 ----------------------------------------------------------------------
def c04(ctx, name, cls, g):
    a, ta, shape = operand(ctx, name, cls, g, 'a')
    n = len(shape)
    same(ctx, a.copy(), ta, 'copy', shape)
    same(ctx, a.reverse(), [np.swapaxes(t, 0, -1) for t in ta[::-1]], 'reverse',
         shape[::-1])
    same(ctx, a.ravel(), ta, 'ravel', [(int(np.prod(s)),) for s in shape])
    same(ctx, a.reshape([(1,) + s[::-1] for s in shape]), ta, 'reshape',
         [(1,) + s[::-1] for s in shape])
    for k in (2, 3, 4, 5):
        if n % k or max(np.prod(s) for s in shape) ** k > 4000:
            continue
        want = []
        for i in range(0, n, k):
            t = ta[i]
            for u in ta[i + 1:i + k]:
                t = np.tensordot(t, u, (-1, 0))
            want.append(t)
        gs = a.group_sites(k)
        same(ctx, gs, want, 'group_sites {}'.format(k),
             [sum(shape[i:i + k], ()) for i in range(0, n, k)])
        if len(set(map(len, shape))) == 1:
            same(ctx, gs.split_sites(k), ta, 'split_sites {}'.format(k), shape)
    for pos in (0, n // 3, n - 2):
        l, r = a.split(pos)
        ctx.check(len(l) == pos + 1 and len(r) == n - pos - 1, 'split: lengths')
        x, y = [np.asarray(t) for t in l.lt], [np.asarray(t) for t in r.lt]
        ctx.check(x[-1].shape[-1] == y[0].shape[0] == 1, 'split: open bond')
        joined = x[:-1] + [x[-1][..., 0], y[0][0]] + y[1:]
        e = err(joined, [(1, ta)])
        ctx.check(e < 1e-9, 'split: parts do not make up the array')
        ctx.step('split {}'.format(pos))
        for part in (l, r):
            c = cform_error(part.lt, 1e-7)
            ctx.check(c is None, lambda: 'split: {}'.format(c))
        m = a.vleg2leg(pos)
        ctx.check(len(m) == n and m.shape[pos][-1] == m.shape[pos + 1][0] ==
                  a.ranks[pos] and m.ranks[pos] == 1, 'vleg2leg: shape')
        same(ctx, m.leg2vleg(pos), ta, 'vleg2leg and back', shape)
    rk = max(a.ranks) + 5
    p = a.pad_ranks(rank=rk)
    same(ctx, p, ta, 'pad_ranks', shape)
    lim = [min(rk, f) for f in mp.full_rank(shape)]
    ctx.check(all(x >= y and x >= z for x, y, z in zip(p.ranks, a.ranks, lim)),
              lambda: 'pad_ranks: ranks {} expected {}'.format(p.ranks, lim))
    p = a.pad_ranks(rank=rk, force_rank=True)
    same(ctx, p, ta, 'pad_ranks, forced', shape)
    ctx.check(tuple(p.ranks) == (rk,) * (n - 1), 'pad_ranks, forced: ranks')
    ten = np.arange(1., 4.)
    for pos in (0, n // 2, n):
        i = mp.inject(a, pos, 2, ten)
        same(ctx, i, insert(ta, {pos: [ten, ten]}), 'inject {}'.format(pos),
             shape[:pos] + ((3,), (3,)) + shape[pos:])
    same(ctx, mp.inject(a, (1, n - 1), None, ([ten], [ten, 2 * ten])),
         insert(ta, {1: [ten], n - 1: [ten, 2 * ten]}), 'inject two')
    eye = np.eye(shape[n // 2][0])
    same(ctx, mp.inject(a, (0, n // 2, n), (1, 3, 2), (ten, None, ten)),
         insert(ta, {0: [ten], n // 2: [eye] * 3, n: [ten, ten]}), 'inject three')
    same(ctx, mp.prune(mp.inject(a, n // 2, 1, np.ones(())), singletons=False), ta,
         'inject and prune', shape)
    same(ctx, a, ta, 'operand afterwards', shape)
    ctx.state(name, cls, g)


def insert(ts, new):
    out, bond = [], 1
    for k in range(len(ts) + 1):
        for t in new.get(k, []):
            d = np.multiply.outer(np.eye(bond), t)
            out.append(np.moveaxis(d, 1, -1))
        if k < len(ts):
            out.append(ts[k])
            bond = ts[k].shape[-1]
    return out


# -- C05, C06 -----------------------------------------------------------------
def right_canonical(ts):
    out, carry = [], np.ones((1, 1))
    for t in flat(ts)[::-1]:
        t = np.tensordot(t, carry, (2, 0))
        q, r = np.linalg.qr(t.reshape((t.shape[0], -1)).conj().T)
        out.insert(0, q.conj().T.reshape((-1,) + t.shape[1:]))
        carry = r.conj().T
    out[0] = np.tensordot(carry, out[0], (1, 0))
    return out


def rounding(ts, rank=None, relerr=None):
    """Truncated chain (from the left), singular values before truncation at
    every bond, and whether the result is unique"""
    cur, out, svs, unique = right_canonical(ts), [], [], True
    for i in range(len(cur) - 1):
        t = cur[i]
        u, s, v = np.linalg.svd(t.reshape((-1, t.shape[2])), full_matrices=False)
        svs.append(s)
        r = len(s) if rank is None else min(rank, len(s))
        if relerr is not None:
            frac = np.cumsum(s) / s.sum()
            r = min(r, int(np.argmax(frac >= 1 - relerr)) + 1)
            unique = unique and np.abs(frac - (1 - relerr)).min() > 1e-7
        if r < len(s):
            unique = unique and s[r - 1] - s[r] > 1e-5 * s[0]
        out.append(u[:, :r].reshape(t.shape[:2] + (r,)))
        cur[i + 1] = np.tensordot(s[:r, None] * v[:r], cur[i + 1], (1, 0))
    return out + [cur[-1]], svs, unique


def swap(ts):
    """Chain read from the right"""
    return [np.swapaxes(t, 0, -1) for t in flat(ts)[::-1]]


def c06(ctx, name, cls, g):
    a, ta, shape = operand(ctx, name, cls, g, 'a')
    n = len(shape)
    na = norm(ta)
    svs = rounding(ta)[1]
    words = [(0, 1), (n // 2, n // 2 + 1), (n - 1, n), (1, n - 1), (n - 2, n),
             (None, None), (0, n), (None, 1), (n - 1, None), (n // 3, None)]
    for (l, r), (l2, r2) in it.product(words, repeat=2):
        if (l, r) != words[0] and (l2, r2) not in words[:3]:
            continue
        m = a.copy()
        for x, y in ((l, r), (l2, r2)):
            old = m.canonical_form
            m.canonicalize(left=x, right=y)
            cf = m.canonical_form
            if x is None and y is None:
                ctx.check(cf[1] - cf[0] == 1, lambda: 'canonicalize(): form {}'
                          .format(cf))
            else:
                ctx.check(cf[0] >= (x or 0) and cf[1] <= (n if y is None else y),
                          lambda: 'canonicalize({}, {}): form {}'.format(x, y, cf))
        same(ctx, m, ta, 'canonicalize {} {} {} {}'.format(l, r, l2, r2), shape)
        number(ctx, mp.norm(m), na, na, 'norm')
        got = list(m.singularvals())
        ctx.check(len(got) == n - 1, 'number of singular value arrays')
        for k, (x, y) in enumerate(zip(got, svs)):
            z = min(len(x), len(y))
            x = np.sort(np.asarray(x))[::-1]
            ctx.check(close(x[:z], y[:z], na) and
                      maxabs(x[z:]) <= 1e-8 * na and maxabs(y[z:]) <= 1e-8 * na,
                      lambda: 'singular values at bond {}'.format(k))
        same(ctx, m, ta, 'after singularvals', shape)
        ctx.state(name, cls, g, l, r, l2, r2)


# -- C09 ----------------------------------------------------------------------
def c09(ctx, name, cls, g):
    a, ta, shape = operand(ctx, name, cls, g, 'a')
    n = len(shape)
    na = norm(ta)
    for rank, relerr, d in it.product((None, 1, 2, 4, 8, 15, 100),
                                      (None, 1e-12, 1e-3, .05, .4),
                                      (None, 'left', 'right')):
        if rank in (1, 8, 15, 100) and relerr is not None:
            continue
        if d is None and rank not in (None, 4):
            continue
        kw = dict((k, v) for k, v in (('rank', rank), ('relerr', relerr),
                                      ('direction', d)) if v is not None)
        what = 'compression({})'.format(kw)
        c, ov = a.compression('svd', **kw)
        ctx.step(what)
        ct = [np.asarray(t) for t in c.lt]
        if d is None:
            d = 'right' if c.canonical_form[0] == n - 1 else 'left'
        ctx.check(tuple(c.canonical_form) == ((n - 1, n) if d == 'right' else (0, 1)),
                  lambda: '{}: canonical form {}'.format(what, c.canonical_form))
        want, svs, unique = rounding(ta if d == 'right' else swap(ta), rank, relerr)
        if d == 'left':
            want, svs = swap(want), svs[::-1]
        wr = [t.shape[-1] for t in want[:-1]]
        if unique:
            same(ctx, c, want, what, shape, tol=1e-7)
            if relerr is not None and relerr > 1e-9:
                ctx.check(list(c.ranks) == wr, lambda: '{}: ranks {} expected {}'
                          .format(what, c.ranks, wr))
        ctx.check(all(x <= y for x, y in zip(c.ranks, a.ranks)) and
                  (rank is None or max(c.ranks) <= rank),
                  lambda: '{}: ranks {}'.format(what, c.ranks))
        nc = norm(ct)
        ctx.check(abs(ov - nc**2) <= 1e-8 * na**2 and
                  abs(ov - inner(ta, ct)) <= 1e-8 * na**2,
                  lambda: '{}: overlap {} <c|c> {} <u|c> {}'.format(
                      what, ov, nc**2, inner(ta, ct)))
        m = a.copy()
        ov2 = m.compress('svd', **kw)
        ctx.check(abs(ov - ov2) <= 1e-8 * na**2 and tuple(m.ranks) == tuple(c.ranks),
                  what + ': in place variant')
        ctx.check(err(list(m.lt), [(1, ct)]) < 1e-7, what + ': in place variant')
        ctx.state(name, cls, g, rank, relerr, d)
    same(ctx, a, ta, 'operand afterwards', shape)


# -- C10 ----------------------------------------------------------------------
def c10(ctx, name, cls, g):
    a, ta, shape = operand(ctx, name, cls, g, 'a')
    n = len(shape)
    na = norm(ta)
    for rank, vs, sweeps in ((2, 1, 2), (3, 2, 1), (5, 1, 1), (4, 3, 1)):
        if rank > max(a.ranks) or vs == 3 and max(max(s) for s in shape) > 3 or \
                name in ('op8', 'op5') and vs > 1:
            continue
        what = 'compression(var, rank {}, var_sites {}, sweeps {})'.format(
            rank, vs, sweeps)
        start = tt(shape, rounding_ranks(shape, rank), cls, 'start')
        ms = mp.MPArray([x.copy() for x in start])
        for kw in (dict(startmpa=ms), dict(rank=rank, randstate=rs('v', rank))):
            c, ov = a.compression('var', num_sweeps=sweeps, var_sites=vs, **kw)
            ctx.step(what)
            ct = [np.asarray(t) for t in c.lt]
            nc, uc = norm(ct), inner(ta, ct)
            ctx.check(max(c.ranks) <= rank and
                      tuple(map(tuple, c.shape)) == tuple(shape),
                      lambda: '{}: ranks {}'.format(what, c.ranks))
            ctx.check(abs(ov - nc**2) <= 1e-8 * na**2 and
                      abs(ov - uc) <= 1e-8 * na**2, lambda: '{}: overlap {} <c|c> {} '
                      '<u|c> {} <u|u> {}'.format(what, ov, nc**2, uc, na**2))
            e = cform_error(c.lt, 1e-7)
            ctx.check(e is None, lambda: what + ': ' + e)
        ctx.check(err([np.asarray(t) for t in ms.lt], [(1, start)]) < 1e-12,
                  'start vector modified')
        # a start which is already good does not get worse
        if vs < 3:
            good = rounding(ta, rank)[0]
            gm = mp.MPArray([t.reshape(t.shape[:1] + s + t.shape[-1:]) for t, s in
                             zip(good, shape)])
            c, ov = a.compression('var', num_sweeps=1, var_sites=vs, startmpa=gm)
            ctx.check(ov >= norm(good)**2 - 1e-8 * na**2, lambda: '{}: overlap {} '
                      'below that of the start {}'.format(what, ov, norm(good)**2))
        ctx.state(name, cls, g, rank, vs, sweeps)
    same(ctx, a, ta, 'operand afterwards', shape)


def rounding_ranks(shape, rank):
    return [min(rank, x) for x in _full([int(np.prod(s)) for s in shape])]


def _full(dims):
    out = []
    for k in range(1, len(dims)):
        l = np.prod(dims[:k], dtype=float)
        r = np.prod(dims[k:], dtype=float)
        out.append(int(min(l, r, 1e6)))
    return out


# -- C12, C15 -----------------------------------------------------------------
def window(ts, a, b):
    """Dense reduced density matrix of sum_i |psi_i><psi_i| on sites a..b-1 for
    tensors with legs (l, phys, ancilla, r)"""
    def move(e, t):
        return np.einsum('xy,xpaz,ypaw->zw', e, t, t.conj(), optimize=True)
    left = np.ones((1, 1))
    for t in ts[:a]:
        left = move(left, t)
    right = np.ones((1, 1))
    for t in ts[b:][::-1]:
        right = np.einsum('zw,xpaz,ypaw->xy', right, t, t.conj(), optimize=True)
    rho = left.reshape((1, left.shape[0], 1, left.shape[1]))
    for t in ts[a:b]:
        rho = np.einsum('rxcy,xpaz,yqaw->rpzcqw', rho, t, t.conj(), optimize=True)
        s = rho.shape
        rho = rho.reshape((s[0] * s[1], s[2], s[3] * s[4], s[5]))
    return np.einsum('rxcy,xy->rc', rho, right)


def op_window(ts, a, b):
    """Reduced operator of an MPO"""
    left = np.ones((1, 1))
    for t in ts[:a]:
        left = np.dot(left, np.einsum('xppy->xy', t))
    right = np.ones((1, 1))
    for t in ts[b:][::-1]:
        right = np.dot(np.einsum('xppy->xy', t), right)
    rho = left.reshape((1, 1, -1))
    for t in ts[a:b]:
        rho = np.einsum('rcx,xpqy->rpcqy', rho, t)
        s = rho.shape
        rho = rho.reshape((s[0] * s[1], s[2] * s[3], s[4]))
    return np.tensordot(rho, right, (2, 0))[..., 0]


def dense_op(m):
    """Matrix of a short MPO"""
    return op_window([np.asarray(t) for t in m.lt], 0, len(m))


def dense_pmps(m):
    return window([np.asarray(t) for t in m.lt], 0, len(m))


def chain_state(ctx, fmt, n, d, anc, rk, cls, g):
    shape = {'mps': (d,), 'pmps': (d, anc), 'mpdo': (d, d)}[fmt]
    ts = tt((shape,) * n, (rk,) * (n - 1), cls, fmt, 'state')
    f = norm(ts)
    ts[0] = ts[0] / f
    m = mp.MPArray([t.copy() for t in ts])
    apply_gauge(m, g)
    return m, ts


CHAINS = [(fmt, n, d, anc, rk, cls, g)
          for fmt in ('mps', 'pmps', 'mpdo')
          for n, d, anc, rk in ((9, 2, 3, 5), (25, 2, 2, 3), (6, 5, 2, 7),
                                (60, 2, 1, 2))
          for cls, g in (('r', 'raw'), ('c', 'norm'), ('c', 'raw'))]


def as_pmps(ts):
    return [t[:, :, None] if t.ndim == 3 else t for t in ts]


def windows(n, d):
    ws = [w for w in (1, 2, 3, 5, 6) if d ** w <= 64 and w <= n]
    for w in ws:
        yield w, [(a, a + w) for a in range(n - w + 1)]


def c12(ctx, fmt, n, d, anc, rk, cls, g):
    m, ts = chain_state(ctx, fmt, n, d, anc, rk, cls, g)
    what = '{} of {} sites'.format(fmt, n)
    ref = (lambda a, b: op_window(ts, a, b)) if fmt == 'mpdo' else \
        (lambda a, b: window(as_pmps(ts), a, b))
    funs = {'mps': [('reductions_mps_as_mpo', mp.reductions_mps_as_mpo, dense_op),
                    ('reductions_mps_as_pmps', mp.reductions_mps_as_pmps,
                     dense_pmps)],
            'pmps': [('reductions_pmps', mp.reductions_pmps, dense_pmps)],
            'mpdo': [('reductions_mpo', mp.reductions_mpo, dense_op)]}[fmt]
    for w, wins in windows(n, d):
        for nm, f, den in funs:
            res = list(f(m, w))
            ctx.step('{} width {} {}'.format(nm, w, what))
            ctx.check(len(res) == len(wins), nm + ': number')
            for k in sorted({0, 1, len(wins) // 2, len(wins) - 2, len(wins) - 1}):
                if not 0 <= k < len(wins):
                    continue
                want = ref(*wins[k])
                got = den(res[k])
                ctx.check(close(got, want, maxabs(want) + 1e-3, 1e-8),
                          lambda: '{} {} window {}: deviation {}'.format(
                              nm, what, wins[k], maxabs(got - want)
                              if got.shape == want.shape else got.shape))
                ctx.transitions += 1
        # windows in any order, of different widths
        sel = [wins[-1], wins[0], wins[len(wins) // 2]]
        sel.append((sel[-1][0], sel[-1][0] + 1))
        for nm, f, den in funs:
            res = list(f(m, startsites=[a for a, _ in sel],
                         stopsites=[b for _, b in sel]))
            for (a, b), r in zip(sel, res):
                want = ref(a, b)
                ctx.check(close(den(r), want, maxabs(want) + 1e-3, 1e-8),
                          lambda: '{} {} window {}'.format(nm, what, (a, b)))
            ctx.step('{} in any order'.format(nm))
    if fmt != 'mpdo' and rk <= 5:
        o = mp.mps_to_mpo(m) if fmt == 'mps' else mp.pmps_to_mpo(m)
        same(ctx, o, [outer_site(t) for t in as_pmps(ts)], 'density operator',
             ((d, d),) * n)
    if fmt == 'pmps':
        if anc == 1:
            same(ctx, mp.pmps_to_mps(m), ts, 'pmps_to_mps', ((d,),) * n)
        sup = sorted({0, n // 3, n // 2, n - 1})
        r = mp.pmps_reduction(m, sup)
        got = dense_pmps(r)
        want = scattered(ts, sup)
        ctx.check(close(got, want, maxabs(want) + 1e-3, 1e-8),
                  'pmps_reduction {}'.format(sup))
        ctx.step('pmps_reduction')
    elif fmt == 'mps':
        p = mp.mps_to_pmps(m)
        same(ctx, p, ts, 'mps_to_pmps', ((d, 1),) * n)
    ctx.state(fmt, n, d, anc, rk, cls, g)


def outer_site(t):
    x = np.einsum('xpaz,yqaw->xypqzw', t, t.conj())
    s = x.shape
    return x.reshape((s[0] * s[1], s[2], s[3], s[4] * s[5]))


def scattered(ts, sup):
    e = np.ones((1, 1, 1, 1))
    for k, t in enumerate(ts):
        if k in sup:
            e = np.einsum('rxcy,xpaz,yqaw->rpzcqw', e, t, t.conj(), optimize=True)
            s = e.shape
            e = e.reshape((s[0] * s[1], s[2], s[3] * s[4], s[5]))
        else:
            e = np.einsum('rxcy,xpaz,ypaw->rzcw', e, t, t.conj(), optimize=True)
    return e[:, 0, :, 0]


def c15(ctx, fmt, n, d, anc, rk, cls, g):
    import mpnum.povm as mpp
    m, ts = chain_state(ctx, fmt, n, d, anc, rk, cls, g)
    if fmt == 'mpdo':
        # a positive operator: density operator of a state with ancillas
        p = tt(((d, 2),) * n, (2,) * (n - 1), cls, 'purification')
        p[0] = p[0] / norm(p)
        ts = [outer_site(t) for t in p]
        m = mp.MPArray([t.copy() for t in ts])
        apply_gauge(m, g)
        ref = lambda a, b: window(p, a, b)
    else:
        ref = lambda a, b: window(as_pmps(ts), a, b)
    for w, wins in windows(n, d):
        if w > 3:
            continue
        for name in 'xp':
            loc = np.array(list({'x': mpp.x_povm, 'p': mpp.pauli_povm}[name](d)))
            if len(loc)**w * d**(2 * w) > 3e5:
                continue
            povm = mpp.MPPovm.from_local_povm(loc, w)
            el = np.ones((1, 1, 1))
            for _ in range(w):
                el = np.einsum('kij,lpq->klipjq', el, loc)
                s = el.shape
                el = el.reshape((s[0] * s[1], s[2] * s[3], s[4] * s[5]))
            res = list(povm.block_pmfs_as_array(m, fmt))
            gen = list(povm.expectations(m, fmt)) if w < 3 else []
            ctx.step('block_pmfs {} {} {}'.format(fmt, w, name))
            ctx.check(len(res) == len(wins), 'number of blocks')
            for k in sorted({0, 1, len(wins) // 2, len(wins) - 2, len(wins) - 1}):
                if not 0 <= k < len(wins):
                    continue
                rho = ref(*wins[k])
                want = np.einsum('kij,ji->k', el, rho).real
                ctx.check(res[k].shape == (len(loc),) * w and
                          close(res[k].ravel(), want, 1.),
                          lambda: 'block pmf of {} sites {}: {} expected {}'.format(
                              fmt, wins[k], res[k], want))
                if gen:
                    t = gen[k]
                    got = np.ones((1, 1))
                    for x in t.lt:
                        got = np.tensordot(got, np.asarray(x), (-1, 0))
                    ctx.check(close(got.ravel(), want, 1.), lambda: 'expectations of '
                              '{} sites {}'.format(fmt, wins[k]))
                ctx.transitions += 1
    # a measurement on a few sites of the whole chain
    povm = mpp.MPPovm.from_local_povm(mpp.y_povm(d), 2).embed(n, n // 2, d)
    loc = np.array(list(mpp.y_povm(d)))
    rho = ref(n // 2, n // 2 + 2)
    want = np.einsum('kij,lpq,jqip->kl', loc, loc, rho.reshape((d,) * 4)).real
    got = povm.pmf_as_array(m, fmt)
    ctx.step('embedded measurement')
    ctx.check(got.shape == want.shape and close(got, want, 1.),
              lambda: 'embedded measurement {} of {} sites'.format(fmt, n))
    ctx.state('c15', fmt, n, d, anc, rk, cls, g)


def c05(ctx, name, cls, g):
    """Only the claims about canonical forms"""
    a, ta, shape = operand(ctx, name, cls, g, 'a')
    b, _, _ = operand(ctx, name, 'c', 'norm', 'b')
    n = len(shape)

    def claim(m, what):
        ctx.step(what)
        e = cform_error(m.lt, 1e-7)
        ctx.check(e is None, lambda: '{}: {}'.format(what, e))

    def derived(m, what):
        def upd():
            m.lt.update(n // 2, 2 * np.asarray(m.lt[n // 2]))
            return m
        ten = np.arange(1., 3.)
        ops = [
            ('copy', m.copy), ('conj', m.conj), ('reverse', m.reverse),
            ('ravel', m.ravel), ('T', lambda: m.T), ('+', lambda: m + b),
            ('-', lambda: m - b), ('*', lambda: m * (1 - 2j)),
            ('/', lambda: m / 3.), ('neg', lambda: -m),
            ('reshape', lambda: m.reshape([s + (1,) for s in m.shape])),
            ('vleg2leg', lambda: m.vleg2leg(n // 2 - 1)),
            ('leg2vleg', lambda: m.vleg2leg(n // 2 - 1).leg2vleg(n // 2 - 1)),
            ('pad', lambda: m.pad_ranks(rank=max(m.ranks) + 1)),
            ('inject', lambda: mp.inject(m, n // 2, 1, ten)),
            ('chain', lambda: mp.chain([m, b])),
            ('sumup', lambda: mp.sumup([m, b])),
            ('get', lambda: m.get([0] * n)),
            ('split', lambda: m.split(n // 2)[0]),
            ('split', lambda: m.split(n // 2)[1]),
            ('split', lambda: m.split(n - 2)[1]),
            ('compression', lambda: m.compression(rank=2)[0]),
            ('compression', lambda: m.compression(rank=3, direction='left')[0]),
            ('svd sv', lambda: (list(m.singularvals()), m)[1])]
        if len(set(map(len, shape))) == 1 and n % 2 == 0 and \
                max(np.prod(s) for s in shape) < 10:
            ops.append(('group', lambda: m.group_sites(2)))
            ops.append(('split sites', lambda: m.group_sites(2).split_sites(2)))
        for nm, f in ops:
            claim(f(), '{} of {}'.format(nm, what))
            claim(m, '{} after {}'.format(what, nm))
        x = m.copy()
        x *= 2
        claim(x, 'scaled ' + what)
        x = upd()
        claim(x, 'updated ' + what)

    claim(a, 'start')
    for l, r in ((None, None), (0, 1), (n - 1, n), (n // 2, n // 2 + 1), (1, n - 1),
                 (n // 3, n)):
        m = a.copy()
        m.canonicalize(left=l, right=r)
        cf = m.canonical_form
        claim(m, 'canonicalize({}, {})'.format(l, r))
        if l is None:
            ctx.check(cf[1] - cf[0] == 1, lambda: 'canonicalize(): {}'.format(cf))
        else:
            ctx.check(cf[0] >= l and cf[1] <= r, lambda: 'canonicalize({}, {}): {}'
                      .format(l, r, cf))
        derived(m, 'canonicalize({}, {})'.format(l, r))
        ctx.state(name, cls, g, l, r)
