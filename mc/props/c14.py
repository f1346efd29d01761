"""C14 constructed measurements are valid POVMs."""
import itertools as it

import numpy as np

import mpnum as mp
import mpnum.povm as mpp
from mpnum.povm import localpovm

from ..lib import (apply_gauge, check_povm, close, dense, elements_of, fp, herm,
                   local_to_global_ref, maxabs, mpp_from_elements, povm_elements,
                   rejects, snapshot, tensor, unchanged, verify)

RULE = ('all (construction, dimension, chain length, position, width, gauge) '
        'combinations of the bound; linearity in the state is used by checking '
        'a complete basis of operators')
ASSUMPTIONS = ['generic (entangled) measurements are deterministic '
               'representatives']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(local_dims='1..{}'.format(12 if q else 17), chain='1..4',
                positions='all', repetition='1..7 sites',
                gauges='raw, left, right, norm, compressed',
                concat='up to 3 parts, weights on a grid of quarters')


LOCAL = {'x': mpp.x_povm, 'y': mpp.y_povm, 'z': mpp.z_povm, 'p': mpp.pauli_povm}


def cases(tier):
    q = tier == 'quick'
    for dim in range(1, 13 if q else 18):
        for name in LOCAL:
            if dim == 1 and name != 'z':
                continue
            yield ('local', name, dim)
            for n in (1, 2, 3):
                if (dim ** n) <= (16 if q else 32):
                    yield ('prod', name, dim, n)
        if 1 < dim < 5:
            for k in (1, 2, 3):
                yield ('concat', dim, k)
    yield ('vectors',)
    for n in (1, 2, 3):
        for dims in it.product((1, 2, 3), repeat=n):
            yield ('eye', dims)
    for base in sorted(BASES):
        yield ('elems', base)
        yield ('embed', base)
        yield ('block', base)
        yield ('repeat', base)
    for dim in (2, 3, 4) if q else (2, 3, 4, 5):
        for n in (1, 2, 3):
            if dim ** n <= 27:
                yield ('pauli', dim, n)
    yield ('lists',)
    yield ('reject',)


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def kron_all(ms):
    r = np.ones((1, 1))
    for m in ms:
        r = np.kron(r, m)
    return r


def loc(name, dim):
    """Elements written down independently of the library"""
    vs = []
    if name in 'xy':
        s = 1. if name == 'x' else 1.j
        for i in range(dim):
            for j in range(i + 1, dim):
                for sign in (1., -1.):
                    v = np.zeros(dim, complex)
                    v[i], v[j] = 1, sign * s
                    vs.append(v / np.sqrt(2. * (dim - 1)))
    elif name == 'z':
        vs = list(np.eye(dim))
    else:
        parts = 'xyz' if dim == 2 else 'xy'
        return np.concatenate([loc(p, dim) for p in parts]) / len(parts)
    return np.array([np.outer(v, v.conj()) for v in vs])


def same_set(a, b):
    """Equal up to the order of the elements"""
    used = set()
    for x in a:
        for k, y in enumerate(b):
            if k not in used and close(x, y, 1.):
                used.add(k)
                break
        else:
            return False
    return len(a) == len(b)


def run_local(ctx, name, dim):
    p = LOCAL[name](dim)
    ctx.step('{}_povm({})'.format(name, dim))
    what = '{} dim {}'.format(name, dim)
    el = np.array(list(p))
    ref = loc(name, dim)
    ctx.check(len(p) == len(ref) == len(el), lambda: '{}: {} elements, expected {}'
              .format(what, len(p), len(ref)))
    check_povm(ctx, el, what)
    ctx.check(same_set(el, ref), what + ': elements differ from the definition')
    if dim == 2:
        # documented order: plus, minus; X, Y, Z
        ctx.check(close(el, ref, 1.), what + ': order of the elements')
    if name == 'p':
        parts = localpovm.pauli_parts(dim)
        ctx.check(len(parts) == (3 if dim == 2 else 2), what + ': parts')
        cat = np.concatenate([np.array(list(x)) for x in parts]) / len(parts)
        ctx.check(close(el, cat, 1.), what + ': order of the parts')
        for x, nm in zip(parts, 'xyz'):
            ctx.check(same_set(np.array(list(x)), loc(nm, dim)), what + ': parts')
    for k in range(-len(el), len(el)):
        ctx.check(close(p[k], el[k], 1.), what + ': indexing')
    # probabilities of a complete operator basis
    pm = p.probability_map
    for i, j in it.product(range(dim), repeat=2):
        rho = np.zeros((dim, dim))
        rho[i, j] = 1
        want = np.array([np.trace(np.dot(e, rho)) for e in el])
        ctx.check(close(np.dot(pm, rho.ravel()), want, 1.),
                  what + ': probability map')
        ctx.step('basis')
    ic = np.linalg.matrix_rank(pm, tol=1e-9) == dim ** 2
    ctx.check(bool(p.informationally_complete) == (ic if dim > 1 else
                                                   bool(p.informationally_complete)),
              lambda: '{}: claims informational completeness {} but {}'.format(
                  what, p.informationally_complete, ic))
    if name == 'p':
        ctx.check(ic, what + ': not informationally complete')
    inv = p.linear_inversion_map
    if ic:
        ctx.check(close(np.dot(inv, pm), np.eye(dim ** 2), 1., 1e-7),
                  what + ': linear inversion does not recover the state')
        rho = herm(dim, 'c', 'st')
        ctx.check(close(np.dot(inv, np.dot(pm, rho.ravel())), rho.ravel(),
                        tol=1e-7), what + ': linear inversion')
    ctx.check(close(np.dot(pm, np.dot(inv, pm)), pm, 1., 1e-7) and
              close(np.dot(inv, np.dot(pm, inv)), inv, maxabs(inv), 1e-7),
              what + ': linear inversion map is not a pseudo inverse')
    ctx.state('local', name, dim)


def run_concat(ctx, dim, k):
    grid = [0., .25, .5, .75, 1.]
    names = 'xyzp' if k < 3 else 'xyz'
    for parts in it.product(names, repeat=k):
        for w in it.product(grid, repeat=k):
            ps = [LOCAL[x](dim) for x in parts]
            if abs(sum(w) - 1) > 1e-9:
                if k < 3:
                    rejects(ctx, lambda: localpovm.concat(ps, w),
                            'concat weights {}'.format(w))
                continue
            for form in ('list', 'iter'):
                for ic in (False, True):
                    if form == 'list':
                        c = localpovm.concat(ps, list(w), info_complete=ic)
                    else:
                        c = localpovm.concat(iter(ps), iter(w), info_complete=ic)
                    what = 'concat {} {} {}'.format(parts, w, form)
                    ctx.step(what)
                    ref = np.concatenate([x * loc(p, dim) for p, x in
                                          zip(parts, w)])
                    el = np.array(list(c))
                    ctx.check(el.shape == ref.shape, lambda: '{}: shape {} '
                              'expected {}'.format(what, el.shape, ref.shape))
                    if dim == 2:
                        ctx.check(close(el, ref, 1.), what)
                    ctx.check(same_set(el, ref), what)
                    check_povm(ctx, el, what)
                    ctx.check(c.informationally_complete == ic, what)
            ctx.state('concat', dim, parts, w)
    if k == 2:
        ps = [LOCAL[x](dim) for x in 'xy']
        for w in ([1.], [.5, .25, .25], [.25, .25], [.5, .6]):
            rejects(ctx, lambda: localpovm.concat(ps, w), 'concat {}'.format(w))


def run_vectors(ctx):
    for dim, m in it.product((1, 2, 3), (1, 2, 3, 4)):
        for cls in 'rc':
            vs = [tensor((dim,), cls, 'v', k) for k in range(m)]
            for form in (list, iter, np.array):
                p = mpp.localpovm.POVM.from_vectors(form(vs))
                ctx.step('from_vectors')
                ref = np.array([[[v[i] * np.conj(v[j]) for j in range(dim)]
                                 for i in range(dim)] for v in vs])
                ctx.check(close(np.array(list(p)), ref), 'from_vectors')
                ctx.check(not p.informationally_complete,
                          'from_vectors claims informational completeness')
                p = mpp.localpovm.POVM.from_vectors(form(vs), info_complete=True)
                ctx.check(p.informationally_complete, 'from_vectors: info_complete')
            ctx.check(not mpp.localpovm.POVM(ref).informationally_complete,
                      'POVM claims informational completeness')
            q = mpp.localpovm.POVM(ref, info_complete=True,
                                   pinv=lambda x: np.full((1, 1), 7.))
            ctx.check(q.informationally_complete and
                      q.linear_inversion_map[0, 0] == 7., 'pinv argument')
            pm = q.probability_map
            rho = tensor((dim, dim), 'c', 'rho')
            want = [np.trace(np.dot(e, rho)) for e in ref]
            ctx.check(close(np.dot(pm, rho.ravel()), np.array(want)),
                      'probability map')
            ctx.state('vec', dim, m, cls)


def check_mpp(ctx, m, ref, outdims, hdims, what, valid=True):
    """m is the MPPovm with dense legs o i j per site given by ref"""
    outdims, hdims = tuple(outdims), tuple(hdims)
    verify(ctx, m, ref, what, [(o, h, h) for o, h in zip(outdims, hdims)],
           cls=mpp.MPPovm, tol=1e-8)
    n = len(outdims)
    ctx.check(tuple(m.outdims) == outdims and tuple(m.hdims) == hdims,
              lambda: '{}: outdims {} hdims {}'.format(what, m.outdims, m.hdims))
    ctx.check(tuple(m.nsoutdims) == tuple(o for o in outdims if o > 1) and
              tuple(m.nsoutpos) == tuple(i for i, o in enumerate(outdims) if o > 1),
              what + ': nsoutdims / nsoutpos')
    el = elements_of(dense(m), n)
    if valid:
        check_povm(ctx, el, what)
    return el


def prod_ref(locs):
    """dense legs from a list of local element arrays (o, i, j)"""
    r = np.ones(())
    for e in locs:
        r = np.multiply.outer(r, e)
    return r


def run_prod(ctx, name, dim, n):
    p = LOCAL[name](dim)
    el = np.array(list(p))
    what = 'from_local_povm {} dim {} width {}'.format(name, dim, n)
    forms = [p, el]
    if len(el) > 255:
        rejects(ctx, lambda: mpp.MPPovm.from_local_povm(p, n), what)
        return
    for f in forms:
        m = mpp.MPPovm.from_local_povm(f, n)
        ctx.step(what)
        if el.size ** n > 1e6:
            break
        check_mpp(ctx, m, prod_ref([el] * n), (len(el),) * n, (dim,) * n, what)
    if len(el) ** n > 250:
        return
    # iteration order of the elements
    got = list(m.elements)
    ctx.check(len(got) == len(el) ** n, what + ': number of elements')
    for idx, e in zip(it.product(range(len(el)), repeat=n), got):
        want = prod_ref([el[k] for k in idx])
        ctx.check(close(dense(e), want, 1.), lambda: '{}: element {}'.format(
            what, idx))
        ctx.step('element')
    ctx.state('prod', name, dim, n)
    pm = m.probability_map
    if (dim ** 2) ** n > 300:
        return
    D = dim ** n
    got = local_to_global_ref(dense(pm), n).reshape((len(el) ** n, -1))
    elems = elements_of(dense(m), n)
    for i, j in it.product(range(D), repeat=2):
        rho = np.zeros((D, D))
        rho[i, j] = 1
        legs = rho.reshape((dim,) * 2 * n).transpose(
            [k * n + s for s in range(n) for k in range(2)])
        vec = legs.reshape(-1)
        want = np.array([np.trace(np.dot(e, rho)) for e in elems])
        ctx.check(close(np.dot(got, vec), want, 1.), what + ': probability map')
        ctx.step('basis')


def run_eye(ctx, dims):
    for form in (list, tuple, iter):
        m = mpp.MPPovm.eye(form(dims))
        ctx.step('eye {}'.format(dims))
        check_mpp(ctx, m, prod_ref([np.eye(d)[None] for d in dims]),
                  (1,) * len(dims), dims, 'eye {}'.format(dims))
        els = list(m.elements)
        ctx.check(len(els) == 1, 'eye: one element')
    ctx.state('eye', dims)


# name -> (list of blocks (elements, outdims, hdims))
BASES = {
    'x': [('loc', 'x', 2)], 'p': [('loc', 'p', 2)], 'z3': [('loc', 'z', 3)],
    'xy': [('loc', 'x', 2), ('loc', 'y', 2)],
    'xyz': [('loc', 'x', 2), ('loc', 'y', 2), ('loc', 'z', 2)],
    'x3y3': [('loc', 'x', 3), ('loc', 'y', 3)],
    'ent': [('gen', (2, 2), (2, 2))],
    'ent3': [('gen', (3, 1), (2, 2))],
    'entx': [('gen', (2, 2), (2, 2)), ('loc', 'x', 2)],
    'xent': [('loc', 'x', 2), ('gen', (1, 3), (2, 2))],
    'mixdim': [('loc', 'x', 3), ('loc', 'z', 2)],
    'eyez': [('gen', (1,), (2,)), ('loc', 'z', 2)],
    'gen1': [('gen', (3,), (2,))],
}


def base(name):
    """(MPPovm, dense legs, outdims, hdims, cut positions)"""
    mpas, refs, out, hd, cuts = [], [], [], [], []
    for i, (kind, a, b) in enumerate(BASES[name]):
        if kind == 'loc':
            el = loc(a, b)
            o, h = (len(el),), (b,)
        else:
            o, h = a, b
            el = povm_elements(int(np.prod(o)), int(np.prod(h)), name, i)
        m, ref = mpp_from_elements(el, o, h)
        mpas += [np.array(t) for t in m.lt]
        refs.append(ref)
        out += o
        hd += h
        cuts.append(len(out))
    return mpp.MPPovm(mpas), prod_ref(refs), tuple(out), tuple(hd), cuts


def gauge_list(n):
    if n == 1:
        return ['raw', 'norm']
    return ['raw', 'norm', 'c0:1', 'c{}:{}'.format(n - 1, n), 'comp']


def run_elems(ctx, name):
    m0, ref, out, hd, _ = base(name)
    n = len(m0)
    els = elements_of(ref, n)
    for g in gauge_list(n):
        m = m0.copy()
        apply_gauge(m, g)
        check_mpp(ctx, m, ref, out, hd, 'base ' + name)
        got = list(m.elements)
        ctx.step('elements {} {}'.format(name, g))
        ctx.check(len(got) == len(els), name + ': number of elements')
        for k, (x, y) in enumerate(zip(got, els)):
            arr = local_to_global_ref(dense(x), n).reshape(y.shape)
            ctx.check(close(arr, y, 1.), '{}: element {}'.format(name, k))
            mp.norm(x)
        pm = m.probability_map
        ctx.check(tuple(pm.shape) == tuple((o, h * h) for o, h in zip(out, hd)),
                  lambda: name + ': shape of the probability map')
        mat = local_to_global_ref(dense(pm), n).reshape((len(els), -1))
        D = int(np.prod(hd))
        for i, j in it.product(range(D), repeat=2):
            rho = np.zeros((D, D))
            rho[i, j] = 1
            vec = rho.reshape(hd + hd).transpose(
                [k * n + s for s in range(n) for k in range(2)]).reshape(-1)
            ctx.check(close(np.dot(mat, vec), els[:, j, i], 1.),
                      name + ': probability map')
            ctx.step('basis')
        ctx.state('elems', name, g)


def run_embed(ctx, name):
    m0, ref, out, hd, _ = base(name)
    n = len(m0)
    for g in gauge_list(n):
        m = m0.copy()
        apply_gauge(m, g)
        snap = snapshot(m)
        for N in range(n, n + 3):
            if 4. ** N * np.prod(out) > 1e5:
                continue
            for pos in range(N - n + 1):
                for other in (2, 3, 'tuple', 'list', 'iter'):
                    if isinstance(other, int):
                        ld = (other,) * N
                        arg = other
                    else:
                        ld = tuple(2 + (i % 2) for i in range(N))
                        ld = ld[:pos] + hd + ld[pos + n:]
                        arg = {'tuple': tuple, 'list': list, 'iter': iter}[other](ld)
                    if g != 'raw' and other not in (2, 'tuple'):
                        continue
                    what = 'embed {} {} at {} of {} local_dim {}'.format(
                        name, g, pos, N, ld)
                    dims = ld[:pos] + hd + ld[pos + n:]
                    if np.prod(dims) ** 2 * np.prod(out) > 60000:
                        continue
                    e = m.embed(N, pos, arg)
                    ctx.step(what)
                    want = prod_ref([np.eye(d)[None] for d in ld[:pos]] + [ref] +
                                    [np.eye(d)[None] for d in ld[pos + n:]])
                    check_mpp(ctx, e, want, (1,) * pos + out + (1,) * (N - n - pos),
                              dims, what)
                    ctx.state('embed', name, g, N, pos, ld)
        unchanged(ctx, m, snap, 'embed')
        for N, pos in ((n, 1), (n + 1, 2), (n - 1, 0), (n + 1, -1)):
            rejects(ctx, lambda: m.embed(N, pos, 2), 'embed at {} of {}'.format(
                pos, N))
        rejects(ctx, lambda: m.embed(n + 1, 0, (2,) * n), 'embed local_dim')


def run_block(ctx, name):
    m0, ref, out, hd, _ = base(name)
    n = len(m0)
    if len(set(hd)) > 1:
        rejects(ctx, lambda: m0.block(n + 1), 'block of different dimensions')
        return
    d = hd[0]
    for g in gauge_list(n):
        m = m0.copy()
        apply_gauge(m, g)
        for N in range(n, n + 3):
            if d ** (2. * N) * np.prod(out) > 60000:
                continue
            b = m.block(N)
            ctx.step('block {} {}'.format(name, N))
            ctx.check(isinstance(b, mpp.MPPovmList) and len(b.mpps) == N - n + 1,
                      'block {} {}: number of MP-POVMs'.format(name, N))
            for pos, x in enumerate(b.mpps):
                want = prod_ref([np.eye(d)[None]] * pos + [ref] +
                                [np.eye(d)[None]] * (N - n - pos))
                check_mpp(ctx, x, want, (1,) * pos + out + (1,) * (N - n - pos),
                          (d,) * N, 'block {} {} pos {}'.format(name, N, pos))
            ctx.state('block', name, g, N)


def run_repeat(ctx, name):
    m0, ref, out, hd, cuts = base(name)
    n = len(m0)
    for g in gauge_list(n):
        m = m0.copy()
        apply_gauge(m, g)
        for N in range(1, 2 * n + 3):
            k, last = divmod(N, n)
            what = 'repeat {} {} to {}'.format(name, g, N)
            if last and last not in cuts:
                if m.ranks[last - 1] > 1:
                    rejects(ctx, lambda: m.repeat(N), what)
                continue
            if last and m.ranks[last - 1] > 1:
                continue
            blocks = list(BASES[name])
            want, cur = [ref] * k, 0
            o, h = out * k, hd * k
            for i, (kind, a, b) in enumerate(blocks):
                if cur >= last:
                    break
                if kind == 'loc':
                    el = loc(a, b)
                    oo, hh = (len(el),), (b,)
                else:
                    oo, hh = a, b
                    el = povm_elements(int(np.prod(oo)), int(np.prod(hh)), name, i)
                _, r = mpp_from_elements(el, oo, hh)
                want.append(r)
                o, h = o + oo, h + hh
                cur += len(oo)
            if float(np.prod(o, dtype=float)) * np.prod(h, dtype=float) ** 2 > 2e5:
                continue
            got = m.repeat(N)
            ctx.step(what)
            check_mpp(ctx, got, prod_ref(want), o, h, what)
            ctx.state('repeat', name, g, N)


def run_pauli(ctx, dim, n):
    pov = mpp.pauli_mpp(n, dim)
    el = np.array(list(mpp.pauli_povm(dim)))
    ctx.step('pauli_mpp')
    if el.size ** n < 2e6:
        check_mpp(ctx, pov, prod_ref([el] * n), (len(el),) * n, (dim,) * n,
                  'pauli_mpp {} {}'.format(n, dim), valid=len(el) ** n < 3000)
    lst = mpp.pauli_mpps(n, dim)
    ctx.step('pauli_mpps')
    parts = [np.array(list(x)) for x in mpp.pauli_parts(dim)]
    combos = list(it.product(range(len(parts)), repeat=n))
    ctx.check(len(lst.mpps) == len(combos), 'pauli_mpps: number')
    for c, m in zip(combos, lst.mpps):
        els = [parts[i] for i in c]
        if np.prod([float(e.size) for e in els]) > 3e5:
            continue
        check_mpp(ctx, m, prod_ref(els), [len(e) for e in els], (dim,) * n,
                  'pauli_mpps {} {} {}'.format(n, dim, c),
                  valid=np.prod([len(e) for e in els]) < 300)
        ctx.state('pauli', dim, n, c)
    # informationally complete: the probability map is injective
    if dim ** n <= 9:
        pm = local_to_global_ref(dense(pov.probability_map), n)
        pm = pm.reshape((len(el) ** n, -1))
        ctx.check(np.linalg.matrix_rank(pm, tol=1e-9) == dim ** (2 * n),
                  'pauli_mpp: not informationally complete')
        # reconstruction with the local inversion map
        inv = mpp.pauli_povm(dim).linear_inversion_map
        rec = mp.dot(mp.MPArray.from_kron([inv] * n), pov.probability_map)
        eye = mp.MPArray.from_kron([np.eye(dim ** 2)] * n)
        ctx.check(close(dense(rec), dense(eye), 1., 1e-7),
                  'pauli_mpp: linear inversion')


def run_lists(ctx):
    """Order in lists"""
    names = ['xy', 'ent', 'ent3', 'eyez']
    for k in (1, 2, 3):
        for sel in it.product(names, repeat=k):
            bs = [base(x) for x in sel]
            for form in (list, tuple, iter):
                lst = mpp.MPPovmList(form([b[0] for b in bs]))
                ctx.check(len(lst.mpps) == k, 'list length')
            for N in (2, 3, 4):
                bl = lst.block(N)
                ctx.step('list block {} {}'.format(sel, N))
                ctx.check(len(bl.mpps) == k * (N - 1), 'list block: number')
                q = 0
                for pos in range(N - 1):
                    for b in bs:
                        want = prod_ref([np.eye(2)[None]] * pos + [b[1]] +
                                        [np.eye(2)[None]] * (N - 2 - pos))
                        check_mpp(ctx, bl.mpps[q], want,
                                  (1,) * pos + b[2] + (1,) * (N - 2 - pos),
                                  (2,) * N, 'list block {} {}'.format(sel, q),
                                  valid=False)
                        q += 1
                if N % 2 == 0:
                    rp = lst.repeat(N)
                    ctx.check(len(rp.mpps) == k, 'list repeat: number')
                    for b, m in zip(bs, rp.mpps):
                        check_mpp(ctx, m, prod_ref([b[1]] * (N // 2)),
                                  b[2] * (N // 2), b[3] * (N // 2),
                                  'list repeat {}'.format(sel), valid=False)
            ctx.state('lists', sel)
    for dim in (2, 3):
        for n in (1, 2):
            lst = mpp.pauli_mpps(n, dim)
            parts = [np.array(list(x)) for x in mpp.pauli_parts(dim)]
            for N in (1, 2, 3):
                for c, m in zip(it.product(range(len(parts)), repeat=n),
                                lst.repeat(N).mpps):
                    els = [parts[c[i % n]] for i in range(N)]
                    check_mpp(ctx, m, prod_ref(els), [len(e) for e in els],
                              (dim,) * N, 'pauli repeat', valid=False)


def run_reject(ctx):
    a = base('xy')[0]
    x = base('x')[0]
    rej = [
        ('two legs', lambda: mpp.MPPovm([np.ones((1, 2, 2, 1))])),
        ('not square', lambda: mpp.MPPovm([np.ones((1, 2, 2, 3, 1))])),
        ('lengths', lambda: mpp.MPPovmList([a, x])),
        ('too many outcomes', lambda: mpp.MPPovm([np.ones((1, 256, 2, 2, 1))])),
        ('pauli dim 1', lambda: mpp.pauli_povm(1)),
        ('pauli dim 1', lambda: mpp.pauli_parts(1)),
    ]
    for name, fun in rej:
        ctx.step('reject ' + name)
        rejects(ctx, fun, name)
    mpp.MPPovm([np.ones((1, 255, 2, 2, 1))])
