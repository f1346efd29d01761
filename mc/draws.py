"""Random generator under the control of the explorer.

``explore(fun)`` runs ``fun(rng)`` once for every sequence of answers the
generator can give and returns the executions with their exact probability.
A draw from a finite distribution (choice, multinomial, randint, permutation)
branches over every possible answer.  A draw of a continuous number branches
over the midpoints of a grid; such an exploration is marked as inexact.

``lowest(fun)`` is the execution in which every continuous draw answers 0.0,
which is the least number a uniform draw from [0, 1) can return.
"""
import itertools as it
from math import factorial

import numpy as np

# alternatives of at most this probability are not followed
PRUNE = 1e-9


class Unsupported(Exception):
    pass


class TooMany(Exception):
    pass


class Script(np.random.RandomState):

    def __init__(self, *a):
        np.random.RandomState.__init__(self, 1)

    def start(self, prefix, grid):
        self._prefix = prefix       # indices to take
        self._taken = []            # (index, number of alternatives, weight)
        self._grid = grid
        self._weight = 1.
        self.exact = True
        return self

    def _pick(self, weights):
        """Take one alternative; weights must add up to one."""
        pos = len(self._taken)
        good = [i for i, w in enumerate(weights) if w > PRUNE]
        k = self._prefix[pos] if pos < len(self._prefix) else 0
        self._taken.append((k, len(good)))
        self._weight *= weights[good[k]]
        return good[k]

    def _pmf(self, p, n):
        p = np.array(p, dtype=float).ravel()
        if p.shape != (n,):
            raise ValueError("a and p must have same size")
        if not (p >= 0).all():
            raise ValueError("probabilities are not non-negative")
        if abs(p.sum() - 1) > 1e-8:
            raise ValueError("probabilities do not sum to 1")
        return p / p.sum()

    def choice(self, a, size=None, replace=True, p=None):
        a = np.array(a, copy=False)
        pop = np.arange(int(a)) if a.ndim == 0 else a
        n = len(pop)
        p = np.ones(n) / n if p is None else self._pmf(p, n)
        shape = () if size is None else \
            tuple(size) if np.iterable(size) else (int(size),)
        num = int(np.prod(shape)) if shape else 1
        if not replace and num > 1:
            raise Unsupported('choice without replacement')
        got = [self._pick(p) for _ in range(num)]
        if size is None:
            return pop[got[0]]
        return pop[np.array(got, dtype=int)].reshape(shape + pop.shape[1:])

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise Unsupported('multinomial size')
        p = np.array(pvals, dtype=float).ravel()
        p = self._pmf(p, len(p))
        if n == 1:
            out = np.zeros(len(p), dtype=int)
            out[self._pick(p)] = 1
            return out
        alts = [tuple(np.bincount(np.array(c, dtype=int), minlength=len(p)))
                for c in it.combinations_with_replacement(range(len(p)), int(n))]
        if len(alts) > 20000:
            raise Unsupported('multinomial with too many alternatives')
        w = [factorial(n) * np.prod([q**k / factorial(k) for q, k in zip(p, c)])
             for c in alts]
        return np.array(alts[self._pick(w)])

    def randint(self, low, high=None, size=None, dtype=int):
        low, high = (0, low) if high is None else (low, high)
        return np.asarray(self.choice(np.arange(low, high), size), dtype=dtype)[()]

    def permutation(self, x):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        if len(x) > 7:
            raise Unsupported('permutation of many elements')
        alts = list(it.permutations(range(len(x))))
        return x[list(alts[self._pick([1. / len(alts)] * len(alts))])]

    def shuffle(self, x):
        x[:] = self.permutation(x)

    def random_sample(self, size=None):
        self.exact = False
        if self._grid == 0:
            return 0. if size is None else np.zeros(size)
        pts = (np.arange(self._grid) + .5) / self._grid
        return self.choice(pts, size)

    random = sample = ranf = random_sample

    def rand(self, *shape):
        return self.random_sample(shape if shape else None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random_sample(size)


def _unsupported(name):
    def method(self, *a, **k):
        raise Unsupported(name)
    return method


for _n in ('bytes', 'normal', 'standard_normal', 'randn', 'exponential',
           'binomial', 'poisson', 'gamma', 'standard_gamma', 'dirichlet', 'beta',
           'multivariate_normal', 'random_integers', 'geometric', 'laplace'):
    setattr(Script, _n, _unsupported(_n))


def _explore(fun, limit, grid):
    out, exact, prefix = [], True, []
    while True:
        rng = Script().start(prefix, grid)
        res = fun(rng)
        out.append((res, rng._weight))
        exact = exact and rng.exact
        taken = rng._taken
        # advance to the next script
        prefix = [k for k, _ in taken]
        while prefix and prefix[-1] + 1 >= taken[len(prefix) - 1][1]:
            prefix.pop()
        if not prefix:
            break
        prefix[-1] += 1
        if len(out) >= limit:
            raise TooMany('exact' if exact else 'grid')
    return out, exact


def explore(fun, limit=5000, limit_inexact=100):
    """[(result, probability)], tolerance on probabilities"""
    probe = Script().start([], 1)
    fun(probe)
    if probe.exact:
        out, exact = _explore(fun, limit, 64)
        return out, 1e-8 if exact else .2
    # number of draws along the first path; keep the whole tree small
    k = max(len(probe._taken), 1)
    grid = int(limit_inexact**(1. / k) + 1e-9)
    if grid < 6:
        raise Unsupported('too many continuous draws')
    try:
        out, _ = _explore(fun, 3 * limit_inexact, grid)
    except TooMany:
        raise Unsupported('too many continuous draws')
    return out, 1.01 * k / grid


def lowest(fun):
    """(result, whether there was a continuous draw)"""
    rng = Script().start([], 0)
    res = fun(rng)
    return res, not rng.exact
