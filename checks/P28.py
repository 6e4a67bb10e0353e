"""P28: rotating the data of an EBSD map by 180 degrees."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from defdap.quat import Quat         # noqa: E402
from mc.fixtures import ebsd_map     # noqa: E402

PROP = 'P28'
LEVEL = 'model_checking'
RULE = ('every history of rotations and reads (orientations, Euler angles, IPF colours, grains, boundaries, KAM, GND, grain averages) '
        'up to the depth, on maps of several shapes, phase patterns and orientations, with unindexed pixels; after every step the map data is '
        'compared with a model, and results that are first calculated after the last rotation with those of a map that was '
        'loaded rotated. Non-trivial: at least one rotation')
ASSUMPTIONS = ['results that were calculated before a rotation are not recalculated (nothing is claimed about them)']

OPS = ['rot', 'ori', 'euler', 'ipf', 'grains', 'gb', 'kam', 'gnd', 'mean']
SHAPES = [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 3), (4, 5)]
VALUES = [(0., 0., 0.), (.3, .2, .1), (2.9, 1.1, .4), (6.2, .7, 1.5), (1., 0., .2), (4.4, 1.5, .9), (3.3, .4, 6.)]


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in range(len(SHAPES)):
        for v in range(3 if q else 6):
            for a in range(len(OPS)):
                out.append(dict(shape=SHAPES[s], v=v, head=a, depth=4 if q else 5))
    for sh in ((2, 300), (300, 2)):
        for a in range(len(OPS)):
            out.append(dict(shape=sh, v=1, head=a, depth=2 if q else 3))
    return out


def data_of(shape, v):
    n = int(np.prod(shape))
    idx = [(i * (v + 2) + (i // 3) * v + v) % len(VALUES) for i in range(n)]
    eu = np.array([VALUES[i] for i in idx]).T.reshape((3,) + tuple(shape))
    ph = np.array([(1 if v == 0 else [1, 1, 2, 0, 2, 1, 1][(i * 3 + v) % 7]) for i in range(n)], dtype=np.uint8).reshape(shape)
    bc = (np.arange(n) * 7 % 251).astype(np.uint8).reshape(shape)
    bs = (np.arange(n) * 11 % 249).astype(np.uint8).reshape(shape)
    return eu, ph, bc, bs


def make(eu, ph, bc, bs):
    return ebsd_map(ph.shape, euler=np.array(eu), phase_im=np.array(ph), kinds=('fcc', 'hcp'), bc=np.array(bc), bs=np.array(bs))


def matrix(q):
    """Rotation matrix of Bunge Euler angles."""
    p1, P, p2 = q
    c1, s1, c, s, c2, s2 = math.cos(p1), math.sin(p1), math.cos(P), math.sin(P), math.cos(p2), math.sin(p2)
    return np.array([[c1 * c2 - s1 * s2 * c, s1 * c2 + c1 * s2 * c, s2 * s], [-c1 * s2 - s1 * c2 * c, -s1 * s2 + c1 * c2 * c, c2 * s], [s1 * s, -c1 * s, c]])


def same_rotation(q, eul):
    """Compare with the quaternion of the rotation matrix."""
    c = np.array(q.quat_coef, dtype=float)
    p1, P, p2 = eul
    w = np.array([math.cos(P / 2) * math.cos((p1 + p2) / 2), -math.sin(P / 2) * math.cos((p1 - p2) / 2), -math.sin(P / 2) * math.sin((p1 - p2) / 2), -math.cos(P / 2) * math.sin((p1 + p2) / 2)])
    return abs(abs(float(c @ w)) - 1) < 1e-9 and abs(float(c @ c) - 1) < 1e-9


def derived(m, op):
    """A result as plain data."""
    h, w = m.shape
    if op == 'ipf':
        return [np.array(m.calc_ipf_colour(m.data.orientation, np.array(d))) for d in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
    if op == 'grains':
        m.data.generate('grains', min_grain_size=1)
        return [np.array(m.data.grains), np.array([g.phase_id for g in m.grains]), np.array([len(g.data.point) for g in m.grains])]
    if op == 'gb':
        return [np.array(m.data.grain_boundaries.image), np.array(m.data.phase_boundaries.image)]
    if op == 'kam':
        return [np.array(m.data.KAM)]
    if op == 'gnd':
        return [np.array(m.data.GND), np.array(m.data.Nye_tensor)]
    if op == 'mean':
        m.data.generate('grains', min_grain_size=1)
        m.calc_grain_av_oris()
        return [np.array(m.data.grains)] + [np.abs(np.array(g.ref_ori.quat_coef)) for g in m.grains]


def run(case, ctx):
    h, w = shape = tuple(case['shape'])
    for k in range(case['depth']):
        for rest in itertools.product(range(len(OPS)), repeat=k):
            seq = [OPS[case['head']]] + [OPS[i] for i in rest]
            if seq[-1] in ('ori', 'euler') and k == case['depth'] - 1:
                continue        # already covered by the check after the step before
            if any(a == b != 'rot' for a, b in zip(seq, seq[1:])):
                continue
            if h < 2 or w < 2:
                if any(o in ('kam', 'gnd') for o in seq):
                    continue
            if k > 2 and shape in ((4, 5), (3, 3)) and seq.count('rot') < 2:
                continue
            history(ctx, case, seq)


def near(a, b):
    b = np.asarray(b, dtype=float)
    scale = max(1., float(np.nanmax(np.abs(b)))) if b.size and not np.isnan(b).all() else 1.
    return np.allclose(a, b, rtol=1e-6, atol=1e-6 * scale, equal_nan=True)


FRESH = {}


def loaded_rotated(case, arrays, n, op):
    """Result of a map with the rotated data, that was never rotated itself."""
    key = (tuple(case['shape']), case['v'], n % 2, op)
    if key not in FRESH:
        eu, ph, bc, bs = arrays
        if n % 2:
            eu, ph, bc, bs = eu[:, ::-1, ::-1].copy(), ph[::-1, ::-1], bc[::-1, ::-1], bs[::-1, ::-1]
            eu[0] += math.pi
        FRESH[key] = derived(make(eu, ph, bc, bs), op)
    return FRESH[key]


def history(ctx, case, seq):
    arrays = data_of(case['shape'], case['v'])
    eu, ph, bc, bs = arrays
    m = make(*arrays)
    given = {k: m.data[k] for k in ('euler_angle', 'phase', 'band_contrast', 'band_slope')}
    copies = {k: np.array(v) for k, v in given.items()}
    n, old = 0, set()
    for j, op in enumerate(seq):
        what = lambda: f'shape {case["shape"]} data {case["v"]}: {seq[:j + 1]}'
        if op == 'rot':
            m.rotate_data()
            n += 1
            old |= {o for o in seq[:j] if o != 'rot'}
            if 'mean' in old or 'grains' in old:
                old |= {'mean', 'grains'}
            if old & {'gb', 'grains', 'mean'}:
                old |= {'gb', 'grains', 'mean'}         # grains are found from the boundaries
        elif op == 'ori':
            m.data.orientation
        elif op == 'euler':
            m.data.euler_angle
        elif op not in old:
            got, want = derived(m, op), loaded_rotated(case, arrays, n, op)
            ok = len(got) == len(want) and all(np.shape(a) == np.shape(b) and near(a, b) for a, b in zip(got, want))
            ctx.check(ok, lambda: f'{what()}: result is not that of a map that was loaded rotated: {got} and {want}'[:900])
        s = slice(None, None, -1 if n % 2 else 1)
        ctx.check(np.array_equal(m.data.phase, ph[s, s]), lambda: f'{what()}: phases')
        ctx.check(np.array_equal(m.data.band_contrast, bc[s, s]) and np.array_equal(m.data.band_slope, bs[s, s]), lambda: f'{what()}: band data')
        ctx.check(np.array_equal(m.data.euler_angle, eu[:, s, s]), lambda: f'{what()}: Euler angles')
        ctx.check(tuple(m.shape) == tuple(case['shape']), lambda: f'{what()}: shape')
        if op in ('rot', 'ori') or j == len(seq) - 1:
            # reading calculates the orientations, so leave that to the operations before a rotation
            if op != 'rot' or j == len(seq) - 1 or seq[j + 1] != 'rot':
                o = m.data.orientation
                ctx.check(o.shape == tuple(case['shape']), lambda: f'{what()}: shape of orientations')
                for y, x in np.ndindex(o.shape):
                    e = eu[:, s, s][:, y, x] + np.array([math.pi * (n % 2), 0, 0])
                    ctx.check(same_rotation(o[y, x], e), lambda: f'{what()}: orientation of {x, y} is {o[y, x].quat_coef}, expected that of {e}')
        ctx.step()
    ctx.check(all(np.array_equal(given[k], copies[k]) for k in given), lambda: f'{case}: arrays that were read before changed')
    ctx.state((case['shape'], case['v'], n % 2, sorted(old), seq[-1]))
    ctx.trace()
    ctx.eval(str((case['shape'], case['v'], seq)) if n else None)


if __name__ == '__main__':
    check.main(globals())
