"""P33: slip bands of a grain are detected, and drawn, at their angle."""
import contextlib
import io
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib as mpl            # noqa: E402
import matplotlib.pyplot as plt     # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg   # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402
from defdap import plotting         # noqa: E402

PROP = 'P33'
LEVEL = 'exploration'
RULE = ('(one) one set of parallel bands at every angle of a grid over the half turn, ends included, for every grain shape, spacing and '
        'width, with the sign, scale, offset, orientation of the array and outside of the grain varied; (two) every pair of angles of a '
        'grid at least 42 degrees apart, with equal and unequal strength, for every smallest distance and threshold; (plot) every angle '
        'through the plots of grains of a linked HRDIC map, with the strain calculated from displacements. Non-trivial: a band is expected')
ASSUMPTIONS = ['an angle is detected to within 3 degrees (6 in grains of less than 40 pixels)', 'bands are at least two pixels wide or 5 pixels apart and cut the whole grain',
               'figures are not rendered']
def tol(mask):
    return 3.01 if min(mask.shape) >= 40 else 6.01


def worker_init():
    FigureCanvasAgg.draw = lambda self, *a, **k: None


def shapes():
    y, x = np.mgrid[:41, :41]
    return {
        'square': np.ones((40, 40), bool),
        'wide': np.ones((24, 60), bool),
        'tall': np.ones((45, 30), bool),
        'disc': (y - 20) ** 2 + (x - 20) ** 2 < 400,
        'small': np.ones((20, 20), bool),
        'ell': ~((y > 20) & (x > 20)),
        'diamond': abs(y - 20) + abs(x - 20) < 20,
    }


SHAPES = shapes()
PERIODS = [(5, .8), (6, .8), (8, 1.), (9, 1.6)]


def bands(shape, angles, per, w, heights=None, base=.05, phase=0.):
    """Strain in bands at each angle, measured as for a slip trace: along (-sin a, cos a) with y up."""
    y, x = np.mgrid[:shape[0], :shape[1]]
    img = np.full(shape, base)
    for k, a in enumerate(angles):
        a = math.radians(a)
        across = math.cos(a) * x - math.sin(a) * y + phase
        img += (heights[k] if heights else .5) * (np.abs(across % per - per / 2) < w)
    return img


def off(got, want):
    return abs((got - want + 90) % 180 - 90)


def cases(tier):
    q = tier == 'quick'
    step = 4 if q else 1
    pers = PERIODS[::2] if q else PERIODS
    out = [dict(kind='one', shape=s, per=p, a=a, n=min(step * 5, 180 - a), step=step) for s in SHAPES for p in pers for a in range(0, 180, step * 5)]
    g = 20 if q else 10
    out += [dict(kind='two', shape=s, per=p, a=a, step=g) for s in SHAPES for p in (PERIODS[1:3] if not q else PERIODS[2:3]) for a in range(0, 180, g)]
    out += [dict(kind='plot', a=a, n=3, step=12 if q else 4) for a in range(0, 180, 36 if q else 12)]
    return out


_g = []


def grain():
    if not _g:
        lab = np.zeros((6, 6))
        m = ebsd_map((6, 6), np.array([lab + .1, lab + .3, lab + .2]), kinds=('fcc',))
        m.data.generate('grains', min_grain_size=1)
        d = linked(m, (6, 6))
        _g.append(d[0])
    return _g[0]


def linked(m, shape, disp=None):
    h, w = shape
    d = dic_map(shape, disp)
    for f in (m.frame, d.frame):
        f.set_homog_points([(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)])
    d.link_ebsd_map(m, transform_type='affine')
    d.data.generate('grains', algorithm='warp')
    return d


def detect(img, **kw):
    with contextlib.redirect_stdout(io.StringIO()) as out, np.errstate(all='ignore'):
        before = img.copy()
        r = np.rad2deg(grain().calc_slip_bands(img, **kw))
        same = np.array_equal(before, img, equal_nan=True)
    return r, same, out.getvalue()


def run_one(ctx, case):
    mask = SHAPES[case['shape']]
    per, w = case['per']
    for a in range(case['a'], case['a'] + case['n'], case['step']):
        what = f'{case["shape"]} grain, bands at {a} degrees, {per} pixels apart'
        img = bands(mask.shape, [a], per, w)
        img[~mask] = np.nan
        r, same, txt = detect(img)
        ctx.check(len(r) == 1 and off(r[0], a) < tol(mask) and 0 <= r[0] < 180, lambda: f'{what}: detected {r}')
        ctx.check(same, f'{what}: data changed')
        ctx.check(f': {len(r)}' in txt, lambda: f'{what}: reported {txt!r}')
        zero = np.nan_to_num(img)
        for name, other, want in (
                ('negative', -img, r),
                ('scaled', img * 40, r),
                ('zero outside', zero, r)):
            got = detect(other)[0]
            ctx.check(len(got) == len(r) and np.allclose(got, want), lambda: f'{what}, {name}: detected {got}, expected {want}')
        for name, other, want in (
                ('turned by 180 degrees', img[::-1, ::-1], a),
                ('upside down', img[::-1], -a),
                ('left to right', img[:, ::-1], -a),
                ('transposed', img.T, 90 - a + 180),
                ('shifted bands', np.where(mask, bands(mask.shape, [a], per, w, phase=2.3), np.nan), a),
                ('low background', np.where(mask, bands(mask.shape, [a], per, w, base=.001), np.nan), a)):
            # transposing exchanges x and y (down)
            got = detect(np.ascontiguousarray(other))[0]
            ctx.check(len(got) == 1 and off(got[0], want) < tol(mask), lambda: f'{what}, {name}: detected {got}, expected {want % 180}')
        ctx.step(10)
        ctx.eval(what)


def run_two(ctx, case):
    mask = SHAPES[case['shape']]
    per, w = case['per']
    a = case['a']
    for b in range(a + 60, a + 121, case['step']):
        d = min((b - a) % 180, (a - b) % 180)
        what = f'{case["shape"]} grain, bands at {a} and {b % 180} degrees'
        img = np.where(mask, bands(mask.shape, [a, b], per, w), np.nan)
        for kw in ({}, dict(min_dist=30), dict(min_dist=30, thres=.3), dict(min_dist=d - 12, thres=.2)):
            r = detect(img, **kw)[0]
            ctx.check(len(r) == 2 and all(min(off(q, t) for q in r) < tol(mask) for t in (a, b)), lambda: f'{what}, {kw}: detected {r}')
            ctx.step()
        # much weaker bands only with a low threshold
        img = np.where(mask, bands(mask.shape, [a, b], per, w, heights=[1., .4]), np.nan)
        r = detect(img, thres=.6)[0]
        ctx.check(len(r) == 1 and off(r[0], a) < tol(mask), lambda: f'{what}, unequal: detected {r} over a high threshold')
        # of bands closer than the smallest distance only the stronger, also over the end of the half turn
        r = detect(img, min_dist=89)[0]
        ctx.check(len(r) >= 1 and min(off(q, a) for q in r) < tol(mask) and (d > 85 or len(r) == 1), lambda: f'{what}, unequal: detected {r} with a large smallest distance')
        ctx.step(2)
        ctx.eval(what)


def quivers(p):
    return [c for c in p.ax.collections if type(c).__name__ == 'Quiver']


def drawn(ctx, q, angles, pos, colour, what):
    ctx.check(len(q) == len(angles), lambda: f'{what}: {len(q)} bands drawn, detected {np.rad2deg(angles)}')
    for k, (c, t) in enumerate(zip(q, angles)):
        u, v = float(c.U[0]), float(c.V[0])
        ctx.check(abs(u * math.cos(t) + v * math.sin(t)) < 1e-9 and abs(math.hypot(u, v) - 1) < 1e-9, lambda: f'{what}: band {k} drawn along {u, v}, angle {math.degrees(t)}')
        ctx.check(np.allclose(c.get_offsets()[0], pos), lambda: f'{what}: band at {c.get_offsets()[0]}, grain at {pos}')
        ctx.check(np.allclose(c.get_facecolor()[0], mpl.colors.to_rgba(colour)), f'{what}: colour')


def run_plot(ctx, case):
    h, w = 40, 56
    y, x = np.mgrid[:h, :w]
    disc = (y - 20) ** 2 + (x - 36) ** 2 < 17 ** 2
    eul = np.zeros((3, h, w))
    eul[0] = np.where(disc, .9, .2)
    eul[1] = .4
    eul[2] = .1
    mask = disc
    for a in range(case['a'], case['a'] + case['n'] * case['step'], case['step']):
        m = ebsd_map((h, w), eul, kinds=('fcc',))
        m.data.generate('grains', min_grain_size=1)
        # sliding on planes at the angle in a grain that is deformed everywhere
        t = math.radians(a)
        s = np.floor((math.cos(t) * x - math.sin(t) * y) / 8) * .3
        with contextlib.redirect_stdout(io.StringIO()):
            d = linked(m, (h, w), np.array([-math.sin(t) * s + .02 * x, -math.cos(t) * s + .01 * y]))
        d.set_scale(1.)
        ctx.check(len(d) == 2, f'{len(d)} grains')
        for g in d:
            is_disc = bool(disc[g.data.point[0][1], g.data.point[0][0]])
            what = f'{"disc" if is_disc else "matrix"} sheared along {a} degrees'
            data = g.grain_map_data(d.data.max_shear)
            r, same, _ = detect(data)
            if is_disc:
                ctx.check(len(r) == 1 and off(r[0], a) < tol(mask), lambda: f'{what}: detected {r}')
            ctx.check(same, f'{what}: data changed')
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                rad = g.calc_slip_bands(data)
                for name, p in (('plot', g.plot_map('max_shear', plot_slip_bands=True)), ('data', g.plot_grain_data(grain_data=g.grain_data(d.data.max_shear), plot_slip_bands=True))):
                    drawn(ctx, quivers(p), rad, g.centre_coords(), 'black', f'{what}, {name}')
                p = g.plot_map('max_shear')
                ctx.check(not quivers(p), f'{what}: bands that were not asked for')
                for kw in ({}, dict(colour='red'), dict(thres=.7), dict(min_dist=60), dict(pos=(3., 4.)), dict(colour='blue', thres=.9, min_dist=80)):
                    n = len(quivers(p))
                    p.add_slip_bands(data, **kw)
                    sub = g.calc_slip_bands(data, **{k: v for k, v in kw.items() if k in ('thres', 'min_dist')})
                    drawn(ctx, quivers(p)[n:], sub, kw.get('pos', g.centre_coords()), kw.get('colour', 'black'), f'{what}, {kw}')
                if is_disc:
                    # two sets of bands, of which the weaker is left out by a high threshold or a large smallest distance
                    two = np.where(np.isnan(data), np.nan, bands(data.shape, [a, a + 60], 8, 2, heights=[1., .5]))
                    counts = []
                    for kw in ({}, dict(min_dist=89), dict(thres=.9), dict(thres=.2, min_dist=20), dict(colour='red', min_dist=89, thres=.2)):
                        n = len(quivers(p))
                        p.add_slip_bands(two, **kw)
                        sub = g.calc_slip_bands(two, **{k: v for k, v in kw.items() if k in ('thres', 'min_dist')})
                        counts.append(len(sub))
                        drawn(ctx, quivers(p)[n:], sub, g.centre_coords(), kw.get('colour', 'black'), f'{what}, two sets of bands, {kw}')
                    ctx.state(tuple(counts))
                # together with the traces of the slip systems, those first
                p = g.plot_default()
                k = len(g.slip_traces)
                drawn(ctx, quivers(p)[k:], rad, g.centre_coords(), 'black', f'{what}, default plot')
            plt.close('all')
            ctx.step(9)
            ctx.eval(what)


def run(case, ctx):
    dict(one=run_one, two=run_two, plot=run_plot)[case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
