"""Reference model, input alphabets and monitors shared by all checks.

Everything in here uses only the documented interface of mpnum (constructors,
``lt``, ``canonical_form``, ``shape`` ...) and computes the reference values
with plain numpy on dense arrays.
"""
import itertools as it
import os
import zlib

import numpy as np

import mpnum as mp
import mpnum.mpsmpo as mpsmpo   # noqa
from mpnum.mpstruct import LocalTensors

if not os.path.realpath(mp.__file__).startswith('/repo/'):
    raise SystemExit('mpnum was not imported from /repo: ' + mp.__file__)


class Violation(Exception):
    pass


class Harness(BaseException):
    """Mistake in the check itself."""


class Ctx(object):
    """Per-worker bookkeeping: states, transitions, trail of actions."""

    def __init__(self, prop, tier, findings):
        self.prop, self.tier = prop, tier
        self.quick = tier == 'quick'
        self.findings = dict(findings)
        self.transitions = 0
        self.known = {}
        self.counters = {}
        self.trail = []
        self._states = set()
        self.key = None

    def begin(self, key):
        self.key = key
        self.trail = []

    def where(self):
        return 'case {!r}\ntrace: {}\n'.format(
            self.key, ' ; '.join(str(t) for t in self.trail[-12:]))

    def step(self, *label):
        """One executed transition (call of the code under test)."""
        self.transitions += 1
        self.trail.append(label[0] if len(label) == 1 else label)
        if len(self.trail) > 40:
            del self.trail[:20]

    def state(self, *parts):
        self._states.add(zlib.crc32(repr(parts).encode()) |
                         (zlib.adler32(repr(parts).encode()) << 32))

    def nstates(self):
        return len(self._states)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fail(self, msg, marker=None):
        if marker is not None and marker in self.findings:
            self.known[marker] = self.known.get(marker, 0) + 1
            return
        raise Violation(msg)

    def check(self, cond, msg, marker=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, marker)


###########################################################################
#  Reference model
###########################################################################

def dense_of(tensors):
    """Dense array represented by a list of local tensors."""
    tensors = [np.asarray(t) for t in tensors]
    res = tensors[0]
    for t in tensors[1:]:
        res = np.tensordot(res, t, axes=([res.ndim - 1], [0]))
    assert res.shape[0] == 1 and res.shape[-1] == 1
    return np.array(res[0, ..., 0])


def dense(mpa):
    return dense_of(list(mpa.lt))


def offsets(shape):
    """Start of each site's legs in the dense array."""
    out, pos = [], 0
    for s in shape:
        out.append(pos)
        pos += len(s)
    return out


def matricize(arr, shape, cut):
    n = int(np.prod([int(np.prod(s, dtype=int)) for s in shape[:cut]],
                    dtype=int))
    return np.asarray(arr).reshape((n, -1))


def tol_of(*dtypes):
    """Comparison tolerance for the least precise dtype involved."""
    bad = any(np.dtype(d) in (np.dtype('float32'), np.dtype('complex64'))
              for d in dtypes)
    return 2e-3 if bad else 1e-8


def maxabs(a):
    a = np.asarray(a)
    return float(np.max(np.abs(a))) if a.size else 0.0


def close(a, b, scale=None, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if scale is None:
        scale = maxabs(b)
    with np.errstate(all='ignore'):
        d = np.abs(a.astype(complex) - b.astype(complex))
        return bool(np.all(d <= tol * scale + 1e-290))   # NaN -> False


def fp(a):
    """Fingerprint of an array: six significant digits relative to maximum."""
    a = np.asarray(a)
    m = maxabs(a)
    if m == 0 or not np.isfinite(m):
        return (a.shape, m)
    q = np.round(np.stack([a.real, a.imag]) / m * 1e5) + 0.0
    return (a.shape, float('%.3g' % m), zlib.crc32(np.ascontiguousarray(q).tobytes()))


def isometry_error(t, side):
    t = np.asarray(t)
    if side == 'left':
        m = t.reshape((-1, t.shape[-1]))
        g = np.dot(m.conj().T, m)
    else:
        m = t.reshape((t.shape[0], -1))
        g = np.dot(m, m.conj().T)
    return maxabs(g - np.eye(len(g)))


def cform_error(lt, tol):
    """None or a description of a false canonical form claim."""
    tens = list(lt)
    n = len(tens)
    l, r = lt.canonical_form
    if not (0 <= l < n and 0 < r <= n):
        return 'canonical form {} out of range for {} sites'.format((l, r), n)
    for i in range(l):
        e = isometry_error(tens[i], 'left')
        if not e <= tol:
            return ('site {} claimed left-canonical by {}, deviation {:.2e}'
                    .format(i, (l, r), e))
    for i in range(r, n):
        e = isometry_error(tens[i], 'right')
        if not e <= tol:
            return ('site {} claimed right-canonical by {}, deviation {:.2e}'
                    .format(i, (l, r), e))
    return None


def state_of(mpa):
    return (type(mpa).__name__, tuple(t.shape for t in mpa.lt),
            tuple(mpa.canonical_form), fp(dense(mpa)))


def verify(ctx, mpa, ref, what, shape=None, scale=None, tol=1e-8, cls=None,
           norm=True, cform=True, marker=None):
    """Monitor: `mpa` is a consistent MPArray which represents `ref`.

    shape: expected ``mpa.shape`` (legs per site); default: do not check
    """
    ref = np.asarray(ref)
    if not isinstance(mpa, mp.MPArray):
        ctx.fail('{}: result is {!r}, expected an MPArray'.format(
            what, type(mpa)), marker)
        return
    if cls is not None and type(mpa) is not cls:
        ctx.fail('{}: result has type {!r}, expected {!r}'.format(
            what, type(mpa), cls), marker)
    tens = list(mpa.lt)
    n = len(mpa)
    ctx.check(len(tens) == n, what + ': len() is not the number of sites')
    for a, b in zip(tens[:-1], tens[1:]):
        ctx.check(a.shape[-1] == b.shape[0], what + ': bonds do not match')
    ctx.check(tens[0].shape[0] == 1 and tens[-1].shape[-1] == 1,
              what + ': boundary bonds are not 1')
    if shape is not None:
        ctx.check(tuple(map(tuple, mpa.shape)) == tuple(map(tuple, shape)),
                  lambda: '{}: shape {} expected {}'.format(
                      what, mpa.shape, shape), marker)
    got = dense_of(tens)
    if scale is None:
        scale = maxabs(ref)
    if not close(got, ref, scale, tol):
        ctx.fail('{}: wrong tensor: shape {} expected {}, max deviation {}, '
                 'scale {:.3e}'.format(
                     what, got.shape, ref.shape,
                     maxabs(got - ref) if got.shape == ref.shape else None,
                     scale), marker)
    if np.iscomplexobj(ref) and maxabs(ref.imag) > 10 * tol * scale:
        ctx.check(np.dtype(mpa.dtype).kind == 'c',
                  lambda: '{}: dtype {} cannot hold the result'.format(
                      what, mpa.dtype), marker)
    if cform:
        err = cform_error(mpa.lt, max(tol, 1e-7))
        if err is not None:
            ctx.fail('{}: {}'.format(what, err), marker)
    if norm:
        val = mp.norm(mpa.copy())
        want = np.linalg.norm(ref)
        if not abs(val - want) <= tol * max(want, scale) * 10 + 1e-290:
            ctx.fail('{}: norm {} expected {}'.format(what, val, want), marker)


def rejects(ctx, fun, what):
    """`fun` must raise an Exception."""
    try:
        res = fun()
    except Exception:
        ctx.count('rejected')
        return True
    ctx.fail('{}: accepted, result {!r}'.format(what, res))
    return False


###########################################################################
#  Deterministic input alphabet
###########################################################################

def rs(*label):
    return np.random.RandomState(zlib.crc32(repr(label).encode()) & 0x7fffffff)


_TENSORS = {}


def tensor(shape, cls, *label):
    """Fresh copy of the (cached) representative, see :func:`_tensor`"""
    key = (tuple(shape), cls, label)
    if key not in _TENSORS:
        if len(_TENSORS) > 20000:
            _TENSORS.clear()
        _TENSORS[key] = _tensor(shape, cls, *label)
    return _TENSORS[key].copy()


def _tensor(shape, cls, *label):
    """Deterministic representative of a value class.

    r real, c complex, i int64, f float32, F complex64 (generic values);
    z zero, o all ones, t tiny, h huge, e 0/1 valued, d rank deficient
    """
    g = rs('tensor', shape, cls, label)
    if cls in 'rcthfF':
        a = g.randint(-8, 9, size=shape) / 4. + g.randint(1, 4, size=shape) / 16.
        if cls in 'cF':
            a = a + 1j * (g.randint(-8, 9, size=shape) / 4.)
        if cls == 't':
            a = a * 1e-40
        if cls == 'h':
            a = a * 1e40
        return a.astype({'f': np.float32, 'F': np.complex64}.get(cls, a.dtype))
    if cls == 'i':
        return g.randint(-3, 4, size=shape).astype(np.int64)
    if cls == 'z':
        return np.zeros(shape)
    if cls == 'o':
        return np.ones(shape)
    if cls == 'e':
        # delta-like: degenerate spectra
        a = np.zeros(shape)
        for idx in np.ndindex(*shape):
            if sum(idx) % 2 == 0:
                a[idx] = 1.
        return a
    if cls == 'd':
        # all bond slices proportional to each other
        a = g.randint(-4, 5, size=shape) / 2. + .25
        for k in range(shape[0]):
            a[k] = a[0] * (k + 1)
        return a
    raise Harness('value class ' + cls)


def site_cls(cls, i):
    """Value class of site i: m real first site, complex others; M reverse;
    n integers, real and complex values in turn"""
    if cls in ('m', 'M'):
        return 'rc'[(i > 0) == (cls == 'm')]
    if cls == 'n':
        return 'irc'[i % 3]
    return cls


def tensors(shape, ranks, cls, *label):
    ranks = (1,) + tuple(ranks) + (1,)
    return [tensor((ranks[i],) + tuple(s) + (ranks[i + 1],), site_cls(cls, i), i,
                   label) for i, s in enumerate(shape)]


def build(shape, ranks, cls, *label, **kw):
    """(mpa, dense reference) for the given structure"""
    lts = tensors(shape, ranks, cls, *label)
    typ = kw.get('typ', mp.MPArray)
    return typ([t.copy() for t in lts]), dense_of(lts)


def all_ranks(n, alphabet):
    return list(it.product(alphabet, repeat=n - 1))


def gauges(n, full=True):
    """Names of gauge histories for a chain with n sites."""
    out = ['raw']
    pairs = [(l, r) for l in range(n) for r in range(l + 1, n + 1)]
    if not full and n > 2:
        pairs = sorted({(0, 1), (n - 1, n), (0, n), (1, n), (0, n - 1),
                        (n // 2, n // 2 + 1)})
    out += ['c{}:{}'.format(l, r) for l, r in pairs if (l, r) != (0, n)]
    if full:
        out += ['norm', 'comp', 'scal', 'sv', 'cnscal']
    else:
        out += ['norm', 'scal']
    return out


def apply_gauge(mpa, name):
    """Apply a named history; returns the factor by which the tensor changed."""
    if name == 'raw':
        return 1
    if name.startswith('c') and ':' in name:
        l, r = name[1:].split(':')
        mpa.canonicalize(left=int(l), right=int(r))
        return 1
    if name == 'norm':
        mp.norm(mpa)
        return 1
    if name == 'comp':
        mpa.compress()
        return 1
    if name == 'sv':
        list(mpa.singularvals())
        return 1
    if name == 'scal':
        mpa *= 2.5
        return 2.5
    if name == 'cnscal':
        mpa.canonicalize(left=len(mpa) - 1)
        mpa /= -0.5
        return -2.
    raise Harness(name)


def prepared(ctx, shape, ranks, cls, gauge, *label, **kw):
    """Operand in the given gauge plus its dense reference."""
    mpa, ref = build(shape, ranks, cls, *label, **kw)
    f = apply_gauge(mpa, gauge)
    ctx.step('build{}{}{} gauge {}'.format(tuple(shape), tuple(ranks), cls, gauge))
    return mpa, ref * f


def herm(n, cls, *label):
    """Hermitian n x n matrix"""
    a = tensor((n, n), cls, 'herm', label)
    return (a + a.conj().T) / 2


def psd_state(dims, cls, *label, **kw):
    """Density matrix (D, D) with trace one on dims."""
    d = int(np.prod(dims))
    rank = kw.get('rank', d)
    a = tensor((d, rank), cls, 'psd', label)
    a = a + 0.1 * np.eye(d, rank)
    rho = np.dot(a, a.conj().T)
    return rho / np.trace(rho)


def local_to_global_ref(arr, n):
    """dense local form (i1 j1 i2 j2 ..) -> (i1 i2 .. j1 j2 ..); own code"""
    p = arr.ndim // n
    return arr.transpose([s * p + k for k in range(p) for s in range(n)])


def global_to_local_ref(arr, n):
    p = arr.ndim // n
    return arr.transpose([k * n + s for s in range(n) for k in range(p)])


def op_matrix(mpo):
    """Dense matrix of an MPO"""
    d = local_to_global_ref(dense(mpo), len(mpo))
    rows = int(np.prod(d.shape[:len(mpo)]))
    return d.reshape((rows, -1))


def mpo_from_matrix(m, dims):
    """MPO built with own QR-free construction (TT-SVD in plain numpy)"""
    n = len(dims)
    a = np.asarray(m).reshape(tuple(dims) * 2)
    a = global_to_local_ref(a, n)
    return mp.MPArray(tt_tensors(a, [(d, d) for d in dims]))


def tt_tensors(arr, shape):
    """Exact local tensors of a dense array (reference TT-SVD)."""
    n = len(shape)
    out = []
    rest = np.asarray(arr).reshape((1, -1))
    for i in range(n - 1):
        k = int(np.prod(shape[i], dtype=int))
        rest = rest.reshape((rest.shape[0] * k, -1))
        u, s, v = np.linalg.svd(rest, full_matrices=False)
        keep = max(1, int(np.sum(s > 1e-13 * max(s[0], 1e-300))))
        left = rest.shape[0] // k
        out.append(u[:, :keep].reshape((left,) + tuple(shape[i]) + (keep,)))
        rest = s[:keep, None] * v[:keep]
    out.append(rest.reshape((rest.shape[0],) + tuple(shape[-1]) + (1,)))
    return out


def snapshot(obj):
    """Everything observable about an MPArray / array that must not change."""
    if isinstance(obj, np.ndarray):
        return ('a', obj.dtype, obj.copy())
    return ('m', tuple(obj.shape), dense(obj).copy())


def unchanged(ctx, obj, snap, what, tol=1e-8):
    if snap[0] == 'a':
        ctx.check(obj.dtype == snap[1] and obj.shape == snap[2].shape and
                  bool(np.all((obj == snap[2]) | (obj != obj))),
                  what + ': dense operand was modified')
    else:
        ctx.check(tuple(obj.shape) == snap[1], what + ': operand changed shape')
        ctx.check(close(dense(obj), snap[2], tol=tol),
                  lambda: '{}: operand represents a different tensor '
                  '(deviation {:.3e})'.format(what, maxabs(dense(obj) - snap[2])))


def as_matrix(op):
    """Dense matrix of a local operator (ndarray or LinearOperator)"""
    if isinstance(op, np.ndarray):
        return op
    eye = np.eye(op.shape[1])
    return np.stack([op.matvec(e) for e in eye], axis=1)


def eigs_dense(op, v0=None, **kw):
    """Exact local eigensolver with scipy's interface (smallest eigenvalue)"""
    m = as_matrix(op)
    w, u = np.linalg.eigh((m + m.conj().T) / 2)
    return w[:1], u[:, :1]


###########################################################################
#  Measurements
###########################################################################

def povm_elements(m, dim, *label):
    """m generic elements E[k, i, j] which sum to the identity"""
    a = tensor((m, dim, dim), 'c', 'povm', label)
    e = np.array([np.dot(x, x.conj().T) + 0.1 * (k + 1) * np.eye(dim)
                  for k, x in enumerate(a)])
    w, u = np.linalg.eigh(e.sum(0))
    s = np.dot(u / np.sqrt(w), u.conj().T)
    return np.array([np.dot(s, np.dot(x, s)) for x in e])


def mpp_from_elements(elems, outdims, hdims):
    """MPPovm with elements elems[k] (k = raveled outcome), own decomposition

    Returns (MPPovm, array with legs o1 i1 j1 o2 i2 j2 ..)
    """
    import mpnum.povm as mpp
    n = len(hdims)
    a = np.asarray(elems).reshape(tuple(outdims) + tuple(hdims) * 2)
    a = a.transpose([k * n + s for s in range(n) for k in range(3)])
    shape = [(o, h, h) for o, h in zip(outdims, hdims)]
    return mpp.MPPovm(tt_tensors(a, shape)), a


def elements_of(arr, n):
    """(prod outdims, D, D) matrices from legs o1 i1 j1 o2 i2 j2 .."""
    a = arr.transpose([s * 3 + k for k in range(3) for s in range(n)])
    o, h = a.shape[:n], a.shape[n:2 * n]
    return a.reshape((int(np.prod(o, dtype=int)),) +
                     (int(np.prod(h, dtype=int)),) * 2)


def check_povm(ctx, elems, what, tol=1e-8):
    """Elements are positive semidefinite and sum to the identity"""
    d = elems.shape[1]
    ctx.check(close(elems.sum(0), np.eye(d), 1., tol),
              lambda: '{}: elements sum to {} times the identity (deviation {})'
              .format(what, np.trace(elems.sum(0)) / d,
                      maxabs(elems.sum(0) - np.eye(d))))
    ctx.check(maxabs(elems - elems.transpose((0, 2, 1)).conj()) <= tol,
              what + ': elements are not Hermitian')
    for e in elems:
        w = np.linalg.eigvalsh(e)
        ctx.check(w.min() >= -tol, lambda: '{}: element with eigenvalue {}'.format(
            what, w.min()))
