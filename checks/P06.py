"""P06: all boundary point sets on small maps: images, points, lines, distances."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                          # noqa: E402
from mc.fixtures import ebsd_map, dic_map            # noqa: E402
from defdap.ebsd import BoundarySet, BoundarySegment         # noqa: E402
from defdap import hrdic                    # noqa: E402

PROP = 'P06'
LEVEL = 'exploration'
RULE = ('every pair of horizontal and vertical boundary point sets on small maps (2^(2hw) sets, exhaustive for up to 6 '
        'pixels), and structured sets on wide, high and large maps; for distances every number of trials from 1 to more '
        'than the number of points. Non-trivial: not empty; distinct by point set')
ASSUMPTIONS = ['the distance of a pixel is measured to the bottom right corner of the boundary pixels (documented) and '
               'is 1000 where there is no boundary']


def check_set(ctx, bs, X, Y, shape, what):
    h, w = shape
    imx = np.zeros(shape, bool)
    imy = np.zeros(shape, bool)
    for x, y in X:
        imx[y, x] = True
    for x, y in Y:
        imy[y, x] = True
    tup = lambda s: {(int(a), int(b)) for a, b in s}        # noqa
    ctx.check(tup(bs.points_x) == X and tup(bs.points_y) == Y and tup(bs.points) == X | Y, lambda: f'{what}: points')
    for got, want, n in ((bs.image_x, imx, 'x'), (bs.image_y, imy, 'y'), (bs.image, imx | imy, 'all')):
        got = np.asarray(got)
        ctx.check(got.shape == tuple(shape) and got.dtype == bool and np.array_equal(got, want),
                  lambda: f'{what}: image {n} is {got.tolist()}, expected {want.tolist()}')
    want = sorted([sorted([(x + .5, y - .5), (x + .5, y + .5)]) for x, y in X] +
                  [sorted([(x - .5, y + .5), (x + .5, y + .5)]) for x, y in Y])
    got = sorted(sorted((float(a), float(b)) for a, b in ln) for ln in bs.lines)
    ctx.check(got == want, lambda: f'{what}: lines {got}, expected {want}')


def prox(shape, pts):
    h, w = shape
    out = np.full(shape, np.inf if pts else 1000.)
    yy, xx = np.mgrid[0:h, 0:w]
    for x, y in pts:
        out = np.minimum(out, np.hypot(xx - x - .5, yy - y - .5))
    return out


def check_prox(ctx, m, pts, trials, what, mode):
    want = prox(m.shape, pts)
    if mode == 'gen':
        got = m.data.generate('proxigram', return_val=True, num_trials=trials)
    elif mode == 'call':
        got = m.calc_proxigram(num_trials=trials)
    elif mode == 'data':
        got = m.data.proxigram
    else:
        got = m.proxigram
    ctx.check(np.shape(got) == tuple(m.shape) and np.allclose(got, want, atol=1e-9),
              lambda: f'{what}: distances ({mode}, {trials} trials) {np.asarray(got).tolist()}, expected {want.tolist()}')


def bits(shape, b):
    h, w = shape
    return {(i % w, i // w) for i in range(h * w) if b >> i & 1}


def cases(tier):
    out = []
    for shape in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)) + (((2, 4), (4, 2)) if tier == 'thorough' else ()):
        n = shape[0] * shape[1]
        for b in range(0, 2 ** n, max(1, 2 ** n // 64)):
            out.append(dict(kind='set', shape=shape, lo=b, hi=min(2 ** n, b + max(1, 2 ** n // 64))))
    for shape in ((2, 3), (3, 2), (1, 5), (5, 1), (3, 3)):
        n = shape[0] * shape[1]
        for b in range(0, 2 ** n, 8):
            out.append(dict(kind='prox', shape=shape, lo=b, hi=min(2 ** n, b + 8)))
    for k in range(6 if tier == 'quick' else 30):
        out.append(dict(kind='big', k=k))
    out.append(dict(kind='cap'))
    return out


def run(case, ctx):
    if case['kind'] == 'set':
        shape = tuple(case['shape'])
        n = shape[0] * shape[1]
        m = ebsd_map(shape)
        d = dic_map(shape) if min(shape) > 1 else None
        for b in range(case['lo'], case['hi']):
            X = bits(shape, b)
            imx = np.zeros(shape, bool)
            for x, y in X:
                imx[y, x] = True
            for c in range(2 ** n):
                Y = bits(shape, c)
                what = f'{shape} x {sorted(X)} y {sorted(Y)}'
                check_set(ctx, BoundarySet(m, list(X), sorted(Y)), X, Y, shape, what)
                imy = np.zeros(shape, bool)
                for x, y in Y:
                    imy[y, x] = True
                if n <= 4 or (b + c) % 5 == 0:
                    check_set(ctx, BoundarySet.from_image(m, imx, imy), X, Y, shape, what + ' from image')
                    # the points divided over segments
                    segs = [BoundarySegment(m, None, None) for _ in range(3)]
                    for i, p in enumerate(sorted(X)):
                        segs[i % 3].addBoundaryPoint(p, 0, None)
                    for i, p in enumerate(sorted(Y)):
                        segs[(i + 1) % 3].addBoundaryPoint(p, 1, None)
                    check_set(ctx, BoundarySet.from_boundary_segments(segs), X, Y, shape, what + ' from segments')
                    ctx.check(sum(len(s) for s in segs) == len(X) + len(Y), f'{what}: lengths of segments')
                if d is not None and (b + c) % 5 == 0:
                    hb = hrdic.BoundarySet(d, sorted(X | Y), [])
                    ctx.check(np.array_equal(np.asarray(hb.image), imx | imy) and np.asarray(hb.image).shape == shape,
                              lambda: f'{what}: image of the HRDIC boundary set')
                ctx.eval((shape, b, c) if b or c else None)
    elif case['kind'] == 'prox':
        shape = tuple(case['shape'])
        for b in range(case['lo'], case['hi']):
            P = bits(shape, b)
            for split in (0, 1, 2):
                X = set(sorted(P)[::2]) if split == 0 else (P if split == 1 else set())
                Y = P - X if split != 1 else set()
                modes = ['gen', 'call'] + (['data', 'prop'] if b % 3 == split else [])
                m = ebsd_map(shape)
                m.data.grain_boundaries
                m.data.grain_boundaries = BoundarySet(m, X, Y)
                for mode in modes[::-1]:
                    for t in range(1, len(P) + 3) if mode in ('gen', 'call') else (500,):
                        check_prox(ctx, m, P, t, f'{shape} {sorted(P)}', mode)
                        ctx.eval((shape, b, split, t, mode) if P else None)
    elif case['kind'] == 'big':
        k = case['k']
        shape = [(30, 40), (40, 30), (1, 60), (60, 1), (25, 25), (7, 90)][k % 6]
        h, w = shape
        P = {(x, y) for x in range(w) for y in range(h) if (x * (3 + k // 6) + y * 7) % (11 + k % 5) == 0 or x == y}
        m = ebsd_map(shape)
        m.data.grain_boundaries
        m.data.grain_boundaries = BoundarySet(m, P, {p for p in P if p[0] % 2})
        n = len(P)
        for t in (1, 2, 7, n - 1, n, n + 1, max(1, n // 2), max(1, n // 3)):
            check_prox(ctx, m, P, max(1, t), f'big {k}', 'call')
            ctx.eval((k, t))
        check_prox(ctx, m, P, 500, f'big {k}', 'data')
        check_prox(ctx, m, P, 500, f'big {k}', 'prop')
        check_set(ctx, m.data.grain_boundaries, P, {p for p in P if p[0] % 2}, shape, f'big {k}')
    else:
        # far away from the only boundary
        for shape in ((1, 1200), (1200, 1)):
            m = ebsd_map(shape, np.zeros((3,) + shape), np.ones(shape, dtype=np.uint8))
            m.data.grain_boundaries
            m.data.grain_boundaries = BoundarySet(m, {(0, 0)}, set())
            for t in (1, 2, 500):
                check_prox(ctx, m, {(0, 0)}, t, f'cap {shape}', 'call')
                ctx.eval((shape, t))


if __name__ == '__main__':
    check.main(globals())
