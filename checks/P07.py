"""P07: HRDIC grains for every boundary image and every EBSD label map on small linked maps."""
import itertools
import math
import os
import sys
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
from defdap import defaults            # noqa: E402
import numpy as np                          # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402
from defdap import hrdic                    # noqa: E402

PROP = 'P07'
LEVEL = 'model_checking'
RULE = ('(flood) every set of boundary pixels on small HRDIC maps linked to an EBSD map, grains found again and again with '
        'each minimum size; (warp) every EBSD label map from phases 0, 1, 2 on small maps, seen through several windows '
        'and scales; (both) alternating methods on one map. Each result compared with a plain reference')
ASSUMPTIONS = ['a boundary pixel joins the first region with a pixel directly left of or above it (else it stays a boundary)',
               'frames are related by integer scales and shifts for which nearest-neighbour sampling is unambiguous']

LABELS = {}


def flood_ref(wall, size):
    h, w = wall.shape
    comps = oracle.components((~wall).tolist(), [[False] * w] * h, [[False] * w] * h)
    gm = np.where(wall, -1, 0)
    grains = []
    free = wall.copy()
    for c in comps:
        pts = set(c)
        for x, y in c:
            for q in ((x + 1, y), (x, y + 1)):
                if q[0] < w and q[1] < h and free[q[1], q[0]]:
                    pts.add(q)
                    free[q[1], q[0]] = False
        if len(pts) < size:
            v = -2
        else:
            grains.append(sorted(pts))
            v = len(grains)
        for x, y in pts:
            gm[y, x] = v
    return gm, grains


def square(shape, k=1, dx=0, dy=0):
    h, w = shape
    return [(k * x + dx, k * y + dy) for x, y in ((0, 0), (max(w - 1, 1), 0), (0, max(h - 1, 1)), (max(w - 1, 1), max(h - 1, 1)))]


def compare(ctx, d, e, gm_want, grains_want, what, link=True, k=1, dx=0, dy=0):
    gm = np.asarray(d.data.grains)
    ctx.check(gm.shape == tuple(d.shape) and np.array_equal(gm, gm_want), lambda: f'{what}: grain map {gm.tolist()}, expected {gm_want.tolist()}')
    gl = list(d.grains)
    ctx.check(len(gl) == len(grains_want) == len(d), lambda: f'{what}: {len(gl)} grains, expected {len(grains_want)}')
    eg = np.asarray(e.data.grains)
    for i, (g, want) in enumerate(zip(gl, grains_want)):
        pts = sorted((int(a), int(b)) for a, b in g.data.point)
        ctx.check(pts == want, lambda: f'{what}: grain {i} has points {pts}, expected {want}')
        ctx.check(g.grain_id == i and d[i] is g and len(g) == len(want), f'{what}: id or length of grain {i}')
        # pixels of the EBSD map that lie in this grain
        cnt = {}
        for Y in range(eg.shape[0]):
            for X in range(eg.shape[1]):
                x, y = k * X + dx, k * Y + dy
                if 0 <= x < gm.shape[1] and 0 <= y < gm.shape[0] and gm_want[y, x] == i + 1 and eg[Y, X] > 0:
                    cnt[int(eg[Y, X])] = cnt.get(int(eg[Y, X]), 0) + 1
        if link == 'mode':
            if cnt:
                best = max(cnt.values())
                ok = g.ebsd_grain is not None and any(g.ebsd_grain is e.grains[lab - 1] for lab, c in cnt.items() if c == best)
                ctx.check(ok, lambda: f'{what}: grain {i} is linked to {g.ebsd_grain}, pixels per EBSD label {cnt}')
                ctx.check(g.ebsd_map is e and g.phase is g.ebsd_grain.phase, f'{what}: EBSD map or phase of grain {i}')
            else:
                ctx.check(g.ebsd_grain is None, lambda: f'{what}: grain {i} covers no EBSD grain but is linked to {g.ebsd_grain}')
    ctx.state((what[:5], gm.tolist()))


def link(d, e, k=1, dx=0, dy=0):
    e.frame.set_homog_points(square(e.shape))
    d.frame.set_homog_points([(k * x + dx, k * y + dy) for x, y in square(e.shape)])
    d.link_ebsd_map(e, transform_type='affine')


def cases(tier):
    out = []
    shapes = [(2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2)] + ([(3, 4), (4, 3)] if tier == 'quick' else [(3, 4), (4, 3), (3, 5), (4, 4)])
    for h, w in shapes:
        n = 2 ** (h * w)
        if n <= 1024:
            for lo in range(0, n, 32):
                out.append(dict(kind='flood', shape=(h, w), lo=lo, hi=min(n, lo + 32), step=1))
        else:
            for lo in range(0, n, 128):
                out.append(dict(kind='flood', shape=(h, w), lo=lo, hi=lo + 128, step=1))
    for shape in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if tier == 'thorough' else ((2, 4),)):
        n = shape[0] * shape[1]
        for f in itertools.product(range(3), repeat=max(0, n - 4)):
            out.append(dict(kind='warp', shape=shape, f=f))
    for f in range(16):
        out.append(dict(kind='both', f=f))
    # more grains than a byte can count
    for how, shapes in (('warp', ((2, 300), (270, 2), (18, 17))), ('floodfill', ((2, 530), (601, 2), (18, 64)))):
        for shape in shapes:
            out.append(dict(kind='many', shape=shape, how=how))
    return out


def run_many(case, ctx):
    shape = tuple(case['shape'])
    h, w = shape
    # a pixel of another phase next to every pixel
    ph = np.array([[1 + (x + y) % 2 for x in range(w)] for y in range(h)], dtype=np.uint8)
    ph[-1, :5] = 1
    e = ebsd_map(shape, None, ph, kinds=('fcc', 'hcp'))
    e.data.generate('grains', min_grain_size=1)
    d = dic_map(shape)
    eg = np.asarray(e.data.grains)
    if case['how'] == 'warp':
        link(d, e)
        d.data.generate('grains', algorithm='warp')
        gr = [sorted((int(x), int(y)) for y, x in np.argwhere(eg == k)) for k in range(1, eg.max() + 1)]
        compare(ctx, d, e, eg, gr, str(case), link=False)
        ctx.check(all(d.grains[i].ebsd_grain is e.grains[i] and d.grains[i].phase is e.grains[i].phase for i in range(len(gr))), f'{case}: linked grains')
    else:
        # walls in every second row or column, broken into grains by others
        wall = np.zeros(shape, bool)
        if w > h:
            wall[:, 1::2] = True
        else:
            wall[1::2] = True
        if h == 18:
            wall[:, 1::2] = True
        d.data.add('grain_boundaries', hrdic.BoundarySet(d, [(int(x), int(y)) for y, x in np.argwhere(wall)], []), type='boundaries')
        link(d, e)
        gm, gr = flood_ref(wall, 1)
        d.data.generate('grains', algorithm='floodfill', min_grain_size=1)
        compare(ctx, d, e, gm, gr, str(case), link='mode')
    ctx.step(len(gr))
    ctx.trace()


PH = {(h, w): np.array([[1 + ((x + 2 * y) // 2) % 2 if (x, y) != (w - 1, 0) else 0 for x in range(w)] for y in range(h)], dtype=np.uint8)
      for h in range(1, 8) for w in range(1, 8)}


def run(case, ctx):
    # progress is reported after any number of grains
    defaults['find_grain_report_freq'] = 1 + zlib.crc32(str(case).encode()) % 3
    if case['kind'] == 'many':
        return run_many(case, ctx)
    if case['kind'] == 'flood':
        shape = tuple(case['shape'])
        h, w = shape
        e = ebsd_map(shape, None, PH[shape], kinds=('fcc', 'hcp'))
        e.data.generate('grains', min_grain_size=1)
        d = dic_map(shape)
        d.data.add('grain_boundaries', None, type='boundaries')
        link(d, e)
        # the second EBSD map is coarser: only every second pixel of the HRDIC map has an EBSD pixel
        sh2 = ((h + 1) // 2, (w + 1) // 2)
        e2 = ebsd_map(sh2, None, PH[sh2], kinds=('fcc', 'hcp'))
        e2.data.generate('grains', min_grain_size=1)
        d2 = dic_map(shape)
        d2.data.add('grain_boundaries', None, type='boundaries')
        link(d2, e2, 2)
        for b in range(case['lo'], case['hi'], case['step']):
            wall = np.array([b >> i & 1 for i in range(h * w)], bool).reshape(shape)
            pts = [(x, y) for y in range(h) for x in range(w) if wall[y, x]]
            for n, (dd, ee, k, sizes) in enumerate(((d, e, 1, (1, 2, 4)), (d2, e2, 2, (2,)))):
                if n and b % 3:
                    continue
                dd.data.grain_boundaries = hrdic.BoundarySet(dd, pts, [])
                for size in sizes:
                    gm, gr = flood_ref(wall, size)
                    dd.data.generate('grains', algorithm='floodfill', min_grain_size=size)
                    ctx.step()
                    compare(ctx, dd, ee, gm, gr, f'flood {shape} {b:b} size {size}', link='mode', k=k)
            ctx.trace()
    elif case['kind'] == 'warp':
        shape = tuple(case['shape'])
        n = shape[0] * shape[1]
        rest = n - len(case['f'])
        for t, tail in enumerate(itertools.product(range(3), repeat=rest)):
            ph = np.array(list(case['f']) + list(tail), dtype=np.uint8).reshape(shape)
            e = ebsd_map(shape, None, ph, kinds=('fcc', 'hcp'))
            size = 1 + t % 2
            eg = np.asarray(e.data.generate('grains', return_val=True, min_grain_size=size))
            views = [(shape, 1, 0, 0), ((3 * shape[0], 3 * shape[1]), 3, 1, 1), ((2, 2), 1, -1, 0), ((shape[0] + 2, shape[1] + 1), 1, 1, 1)]
            for v in (t % 4, (t + 1) % 4):
                dsh, k, dx, dy = views[v]
                d = dic_map(dsh)
                link(d, e, k, dx, dy)
                raw = np.zeros(dsh, int)
                for y in range(dsh[0]):
                    for x in range(dsh[1]):
                        X, Y = round((x - dx) / k), round((y - dy) / k)
                        if 0 <= X < shape[1] and 0 <= Y < shape[0]:
                            raw[y, x] = eg[Y, X]
                ids = sorted(set(raw[raw > 0].tolist()))
                gm = raw.copy()
                grains = []
                for i, lab in enumerate(ids):
                    gm[raw == lab] = i + 1
                    grains.append(sorted((x, y) for y in range(dsh[0]) for x in range(dsh[1]) if raw[y, x] == lab))
                d.data.generate('grains', algorithm='warp')
                ctx.step()
                what = f'warp {ph.tolist()} size {size} view {views[v]}'
                compare(ctx, d, e, gm, grains, what, link=False)
                for i, lab in enumerate(ids):
                    g = d.grains[i]
                    ctx.check(g.ebsd_grain is e.grains[lab - 1] and g.ebsd_map is e and g.phase is e.grains[lab - 1].phase,
                              lambda: f'{what}: grain {i} is linked to {g.ebsd_grain}, expected label {lab}')
                ctx.trace()
    else:
        # histories: alternate the methods and relink on the same map
        f = case['f']
        shape = (4, 5)
        ph1 = np.ones(shape, dtype=np.uint8)
        ph1[:, 3:] = 2
        ph1[0, 0] = 0
        ph2 = np.ones(shape, dtype=np.uint8)
        ph2[2:] = 2
        es = []
        for ph in (ph1, ph2):
            e = ebsd_map(shape, None, ph, kinds=('fcc', 'hcp'))
            e.data.generate('grains', min_grain_size=1)
            es.append(e)
        d = dic_map(shape)
        wall = np.zeros(shape, bool)
        wall[1, 1:4] = True
        wall[:, 2] = True
        d.data.add('grain_boundaries', hrdic.BoundarySet(d, [(x, y) for y in range(4) for x in range(5) if wall[y, x]], []), type='boundaries')
        for seq in itertools.product(range(4), repeat=2):
            ops = [f % 4, f // 4] + list(seq)
            for o in ops:
                e = es[o % 2]
                link(d, e)
                if o < 2:
                    d.data.generate('grains', algorithm='floodfill', min_grain_size=2)
                    gm, gr = flood_ref(wall, 2)
                    compare(ctx, d, e, gm, gr, f'both {ops}', link='mode')
                else:
                    d.data.generate('grains', algorithm='WARP' if o % 2 else 'warp')
                    eg = np.asarray(e.data.grains)
                    gr = [sorted((x, y) for y in range(4) for x in range(5) if eg[y, x] == k) for k in range(1, eg.max() + 1)]
                    compare(ctx, d, e, eg, gr, f'both {ops}', link=False)
                    ctx.check(all(d.grains[i].ebsd_grain is e.grains[i] for i in range(len(gr))), f'both {ops}: linked grains')
                ctx.step()
            ctx.trace()
        ctx.raises(ValueError, lambda: d.data.generate('grains', algorithm='nope'), 'unknown method')


def setup(tier):
    e = ebsd_map((2, 2))
    e.data.generate('grains', min_grain_size=1)
    d = dic_map((2, 2))
    d.data.add('grain_boundaries', hrdic.BoundarySet(d, [], []), type='boundaries')
    link(d, e)
    d.data.generate('grains', algorithm='floodfill', min_grain_size=1)


if __name__ == '__main__':
    check.main(globals())
