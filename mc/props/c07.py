"""C07 container of local tensors: write histories against a list model."""
import itertools as it

import numpy as np

import mpnum as mp
from mpnum.mpstruct import LocalTensors

from ..lib import cform_error, dense, dense_of, maxabs, rejects, tensor

RULE = ('all write words up to the depth over all positions, spans, flags and '
        'tensor kinds; the model is a plain list of arrays')
ASSUMPTIONS = ['flags are only passed when they are true']


def BOUNDS(tier):
    q = tier == 'quick'
    return dict(sites='1..4', bonds='1..3', starts='every canonical pair',
                word_length='3 (n<=2, equal bonds), 2 (others)' if q else '4 (n<=2), 3 (n>=3)')


def iso(shape, kind, *label):
    """(tensor, true flag) with the given shape"""
    t = tensor(tuple(shape), 'c' if label[0] % 2 else 'r', 'iso', kind, label)
    if kind == 'left' and int(np.prod(shape[:-1])) >= shape[-1]:
        q, _ = np.linalg.qr(t.reshape((-1, shape[-1])))
        return q.reshape(shape), 'left'
    if kind == 'right' and int(np.prod(shape[1:])) >= shape[0]:
        q, _ = np.linalg.qr(t.reshape((shape[0], -1)).T)
        return q.T.reshape(shape), 'right'
    return t, None


def start(n, form, variant):
    """Local tensors with true canonical form `form`."""
    bonds = (1,) + ((2, 2, 2), (1, 3, 2))[variant][:n - 1] + (1,)
    out = []
    for i in range(n):
        kind = 'left' if i < form[0] else 'right' if i >= form[1] else None
        out.append(iso((bonds[i], 3, bonds[i + 1]), kind, i)[0])
    return out


def writes(shapes):
    """All writes: (name, index, tensors or tensor, flags, {pos: tensor})"""
    n = len(shapes)
    for i in list(range(n)) + list(range(-n, 0)):
        p = i % n
        for kind in ('left', 'right', None, 'unflagged'):
            t, flag = iso(shapes[p], 'left' if kind == 'unflagged' else kind, i)
            if kind in ('left', 'right') and flag is None:
                continue
            if kind == 'unflagged':
                flag = None
            yield 'update[{}]({})'.format(i, flag), i, t, flag, {p: t}
    # another number of legs
    t, _ = iso((shapes[0][0], 2, 2, shapes[0][-1]), None, 7)
    yield 'update[0] other legs', 0, t, None, {0: t}
    spans = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    for a, b in spans:
        forms = [slice(a, b)]
        if (a + b) % 2:
            forms = [slice(a - n, None if b == n else b - n)]
        elif a == 0:
            forms = [slice(None, b)]
        for sl in forms:
            for bond in (1, 2, 3):
                if bond != 2 and b - a == 1:
                    continue
                dims = [shapes[a][0]] + [bond] * (b - a - 1) + [shapes[b - 1][-1]]
                for kinds in (('left',) * (b - a), ('right',) * (b - a),
                              (None,) * (b - a),
                              ('left',) * ((b - a) // 2) +
                              (None,) + ('right',) * (b - a - (b - a) // 2 - 1)):
                    ts = [iso((dims[k], 3, dims[k + 1]), kd, k)
                          for k, kd in enumerate(kinds)]
                    flags = [f for _, f in ts]
                    ts = [t for t, _ in ts]
                    new = {a + k: t for k, t in enumerate(ts)}
                    label = 'update[{}:{}] bond {} '.format(a, b, bond)
                    yield label + str(flags), sl, ts, flags, new
                    if len(set(flags)) == 1:
                        yield (label + 'single ' + str(flags[0]), sl, tuple(ts),
                               flags[0], new)
    if n >= 3:
        a, b = 0, 2
        ts = [iso(shapes[0], 'left', 1), iso(shapes[2], None, 2)]
        new = {0: ts[0][0], 2: ts[1][0]}
        yield ('update[0:3:2]', slice(0, 3, 2), [t for t, _ in ts],
               [f for _, f in ts], new)


_CACHE = {}


def all_writes(shapes):
    key = tuple(shapes)
    if key not in _CACHE:
        if len(_CACHE) > 2000:
            _CACHE.clear()
        _CACHE[key] = list(writes(shapes))
    return _CACHE[key]


def bad_writes(shapes):
    n = len(shapes)
    mid = n // 2
    D, E = shapes[mid][0], shapes[mid][-1]
    yield 'left bond', mid, np.ones((D + 1, 3, E)), None
    yield 'right bond', mid, np.ones((D, 3, E + 1)), None
    yield 'scalar', mid, np.ones(()), None
    yield 'vector', mid, np.ones(3), None
    yield 'index', n, np.ones(shapes[0]), None
    yield 'index', -n - 1, np.ones(shapes[0]), None
    if n > 1:
        s0, s1 = shapes[0], shapes[1]
        ok = [np.ones((s0[0], 3, 5)), np.ones((5, 3, s1[-1]))]
        yield 'inner bond', slice(0, 2), [np.ones((s0[0], 3, 4)), ok[1]], None
        yield 'outer left', slice(0, 2), [np.ones((s0[0] + 1, 3, 5)), ok[1]], None
        yield 'outer right', slice(0, 2), [ok[0], np.ones((5, 3, s1[-1] + 1))], None
        yield 'too few tensors', slice(0, 2), [np.ones((s0[0], 3, s1[-1]))], None
        yield ('too many tensors', slice(0, 2),
               [ok[0], np.ones((5, 3, 7)), np.ones((7, 3, s1[-1]))], None)
        yield 'too few flags', slice(0, 2), ok, (None,)
        if s0[-1] != s1[-1] or True:
            yield ('set last site with other bond', n - 1,
                   np.ones((shapes[-1][0] + 2, 3, 1)), None)
    if n > 2:
        yield ('strided', slice(0, 3, 2),
               [np.ones((shapes[0][0], 3, shapes[0][-1] + 3)),
                np.ones((shapes[0][-1] + 3, 3, shapes[2][-1]))], None)


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5):
        for variant in (0, 1):
            for l in range(n):
                for r in range(1, n + 1):
                    if l >= r and not (l == r):
                        continue
                    if l == r:
                        continue
                    depth = (3 if n <= 2 else 2) + (0 if q else 1)
                    if n == 4:
                        if q and variant == 0:
                            continue
                        depth = 2 if not q or (l, r) in ((0, 4), (1, 2)) else 1
                    if depth == 3 and n == 2 and q and variant:
                        depth = 2
                    for first in ([None] if depth < 3 and n < 3 else range(8)):
                        yield ('word', n, variant, l, r, depth, first)
    for n in range(1, 4):
        yield ('construct', n)


def run(key, ctx):
    globals()['run_' + key[0]](ctx, *key[1:])


def monitor(ctx, lt, model, what):
    ctx.check(len(lt) == len(model), what + ': length changed')
    got = list(lt)
    ctx.check(lt.shape == tuple(t.shape for t in model), lambda:
              '{}: shape {} expected {}'.format(
                  what, lt.shape, [t.shape for t in model]))
    for i, (g, t) in enumerate(zip(got, model)):
        ctx.check(g.shape == t.shape and np.array_equal(g, t),
                  '{}: site {} does not hold the tensor last written'.format(
                      what, i))
        ctx.check(not g.flags.writeable, what + ': iteration yields writable view')
    err = cform_error(lt, 1e-7)
    ctx.check(err is None, '{}: {}'.format(what, err))


def reads(ctx, lt, model):
    n = len(model)
    for i in list(range(n)) + list(range(-n, 0)):
        v = lt[i]
        ctx.check(np.array_equal(v, model[i]), 'lt[{}]'.format(i))
        ctx.check(not v.flags.writeable, 'lt[{}] is writable'.format(i))
    for a in range(-n, n + 1):
        for b in list(range(-n, n + 1)) + [None]:
            for st in (None, -1, 2):
                vs = list(lt[a:b:st])
                ms = model[a:b:st]
                ctx.check(len(vs) == len(ms) and
                          all(np.array_equal(v, m) for v, m in zip(vs, ms)),
                          'lt[{}:{}:{}]'.format(a, b, st))
                ctx.check(all(not v.flags.writeable for v in vs),
                          'slice of local tensors is writable')
    rejects(ctx, lambda: lt[n], 'lt[n]')


def run_word(ctx, n, variant, l, r, depth, first):
    base = start(n, (l, r), variant)

    def fresh(form, tens):
        return LocalTensors([t.copy() for t in tens], cform=form)
    lt0 = fresh((l, r), base)
    if cform_error(lt0, 1e-7):
        # the shapes do not admit this form
        return
    monitor(ctx, lt0, base, 'start')
    reads(ctx, lt0, base)

    def rec(lt, model, word):
        shapes = [t.shape for t in model]
        for k, (name, idx, ts, flags, new) in enumerate(all_writes(shapes)):
            if not word and first is not None and k % 8 != first:
                continue
            c = lt.copy()
            if flags is None and not word and name.startswith('update[0]'):
                c[idx] = ts
            else:
                c.update(idx, ts, canonicalization=flags)
            m2 = list(model)
            for p, t in new.items():
                m2[p] = t
            ctx.step(name)
            monitor(ctx, c, m2, '{}'.format(word + [name]))
            ctx.state(n, tuple(c.canonical_form), c.shape, name)
            if len(word) + 1 < depth:
                rec(c, m2, word + [name])
        # original was not touched by writes to copies
        monitor(ctx, lt, model, '{} (original after writes to copies)'.format(word))
        if len(word) < 2:
            for name, idx, ts, flags in bad_writes(shapes):
                c = lt.copy()
                form = tuple(c.canonical_form)
                rejects(ctx, lambda: c.update(idx, ts, canonicalization=flags),
                        'update with wrong ' + name)
                ctx.step('bad ' + name)
                monitor(ctx, c, model, 'after rejected write ({})'.format(name))
                ctx.check(tuple(c.canonical_form) == form,
                          'rejected write changed the canonical form')
    rec(lt0, base, [])


def run_construct(ctx, n):
    for variant in (0, 1):
        base = start(n, (0, n), variant)
        for src in (list, tuple, iter):
            lt = LocalTensors(src([t.copy() for t in base]))
            ctx.step('LocalTensors({})'.format(src.__name__))
            monitor(ctx, lt, base, 'constructor')
            ctx.check(tuple(lt.canonical_form) == (0, n), 'default form')
            ctx.state(n, variant, src.__name__)
        for form in [(0, n), (None, None), (0, None), (None, n)]:
            lt = LocalTensors([t.copy() for t in base], cform=form)
            ctx.step('cform {}'.format(form))
            ctx.check(tuple(lt.canonical_form) == (0, n), 'form {}'.format(form))
            cp = lt.copy()
            ctx.check(tuple(cp.canonical_form) == (0, n), 'copy form')
            cp.update(0, 2 * np.array(cp[0]))
            monitor(ctx, lt, base, 'original after writing to the copy')
        for form in [(n, n), (-1, n), (0, n + 1), (0, -1), (n + 1, n)]:
            rejects(ctx, lambda: LocalTensors(base, cform=form),
                    'cform {}'.format(form))
            ctx.step('bad cform {}'.format(form))
        rejects(ctx, lambda: LocalTensors([]), 'empty container')
        if n > 1:
            bad = list(base)
            bad[0] = np.ones((1, 3, base[0].shape[-1] + 1))
            rejects(ctx, lambda: LocalTensors(bad), 'bonds do not match')
            rejects(ctx, lambda: mp.MPArray(bad), 'bonds do not match')
            ctx.step('bad bonds')
        # true forms are kept by copies
        for l in range(n):
            for r in range(l + 1, n + 1):
                tens = start(n, (l, r), variant)
                lt = LocalTensors(tens, cform=(l, r))
                if cform_error(lt, 1e-7):
                    continue
                c = lt.copy()
                ctx.step('copy {}'.format((l, r)))
                ctx.check(tuple(c.canonical_form) == (l, r), 'copy form')
                m = mp.MPArray(lt)
                ctx.check(tuple(m.canonical_form) == (l, r) and
                          tuple(m.copy().canonical_form) == (l, r), 'MPArray form')
                monitor(ctx, m.copy().lt, tens, 'copy of MPArray')
