"""P32: named plots show the quantity they are named after."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from matplotlib_scalebar.scalebar import ScaleBar              # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg   # noqa: E402
from mpl_toolkits.mplot3d.art3d import Poly3DCollection       # noqa: E402
from mpl_toolkits.mplot3d import proj3d                        # noqa: E402
from defdap.quat import Quat         # noqa: E402
from defdap.plotting import HistPlot, MapPlot  # noqa: E402
from mc import oracle                # noqa: E402
from mc.fixtures import ebsd_map, dic_map, get_phase, D     # noqa: E402

PROP = 'P32'
LEVEL = 'exploration'
RULE = ('(phase) every placement of the phases on the map, every list of phases, background colour and direction; (grain) every label pattern of the map, '
        'all grain plots; (strain) every label pattern, the DIC grain plots; (cell) every orientation of a grid, structure, convention and caller; '
        '(hist) every data set, number of bins, range, plot type, axes type and normalisation. Non-trivial: more than one phase / grain / bin, cell not aligned')
ASSUMPTIONS = ['Euler colours divide by the limits of the crystal system: 360, 90, 90 for cubic and 180, 180, 60 for hexagonal',
               'for Oxford data the hexagonal cell is turned by 30 degrees about its c axis (documented argument OI)']


def worker_init():
    FigureCanvasAgg.draw = lambda self, *a, **k: None


def patterns(n, k):
    """Label patterns up to renaming: restricted growth strings."""
    def grow(s, top):
        if len(s) == n:
            yield tuple(s)
            return
        for v in range(min(top + 1, k)):
            yield from grow(s + [v], max(top, v + 1))
    yield from grow([], 0)


def cases(tier):
    out = []
    quick = tier == 'quick'
    pats = list(itertools.product(range(4), repeat=4)) if quick else list(itertools.product(range(3), repeat=6))
    n = 8 if quick else 32
    for i in range(0, len(pats), n):
        out.append(dict(kind='phase', shape=[2, 2] if quick else [2, 3], pats=[list(p) for p in pats[i:i + n]]))
    for shape in [(2, 3), (1, 4)] if quick else [(2, 3), (3, 3), (2, 4), (1, 6)]:
        pats = list(patterns(shape[0] * shape[1], 2 if shape == (3, 3) else 3))
        n = 8 if quick else 24
        for i in range(0, len(pats), n):
            out.append(dict(kind='grain', shape=list(shape), pats=[list(p) for p in pats[i:i + n]]))
    # more grains, and more pixels in a row, than a byte can count
    for shape in ((2, 150), (150, 2)):
        for c in range(3):
            out.append(dict(kind='many', shape=list(shape), c=c))
    for shape in [(2, 3)] if quick else [(2, 3), (3, 3)]:
        pats = list(patterns(shape[0] * shape[1], 2 if quick else 3))
        n = 8 if quick else 48
        for i in range(0, len(pats), n):
            out.append(dict(kind='strain', shape=list(shape), pats=[list(p) for p in pats[i:i + n]]))
    step = 45 if quick else 20
    for kind in ('fcc', 'bcc', 'hcp'):
        for a in range(0, 360, step):
            out.append(dict(kind='cell', phase=kind, a=a, step=step))
    for k in range(len(DATA)):
        for pt in ('scatter', 'bar', 'step'):
            out.append(dict(kind='hist', data=k, type=pt, tier=tier))
    return out


# ---------------------------------------------------------------- phases
KINDS = ('fcc', 'hcp', 'bcc')


def scale_bars(plot):
    return [a for a in plot.ax.artists if isinstance(a, ScaleBar)]


def euler_of(n):
    """Different general orientations, inside the limits of every crystal system."""
    i = np.arange(n)
    return np.array([(10 + 23 * i) % 170, (7 + 11 * i) % 80, (3 + 5 * i) % 55]) * D


NORM = {'fcc': (2 * np.pi, np.pi / 2, np.pi / 2), 'bcc': (2 * np.pi, np.pi / 2, np.pi / 2), 'hcp': (np.pi, np.pi, np.pi / 3)}


def shown(plot, layer=0):
    return np.asarray(plot.img_layers[layer].get_array())


def check_options(ctx, fn, what, i):
    """Options of a plot replace its defaults."""
    fig, axs = plt.subplots(1, 2)
    ax = axs[i % 2]
    plot = fn(ax=ax, fig=fig, plot_colour_bar=True, clabel='Own label', vmin=-3, vmax=7, cmap='plasma')
    im = plot.img_layers[0]
    ctx.check(plot.ax is ax and ax.images[0] is im and not axs[1 - i % 2].images, f'{what}: drawn on other axes than given')
    ctx.check(tuple(im.get_clim()) == (-3, 7) and im.get_cmap().name == 'plasma', lambda: f'{what}: limits {im.get_clim()}, colour map {im.get_cmap().name}')
    labels = [a.get_ylabel() for a in fig.axes if a not in axs]
    ctx.check(labels == ['Own label'], lambda: f'{what}: colour bars {labels}')
    plt.close('all')


def cross_dilate(b):
    out = b.copy()
    out[1:] |= b[:-1]
    out[:-1] |= b[1:]
    out[:, 1:] |= b[:, :-1]
    out[:, :-1] |= b[:, 1:]
    return out


def pixel_boundaries(lab):
    """Image convention: the pixel above / left of a boundary is marked."""
    out = np.zeros(lab.shape, dtype=bool)
    out[:, :-1] |= lab[:, :-1] != lab[:, 1:]
    out[:-1] |= lab[:-1] != lab[1:]
    return out


def run_phase(ctx, case):
    shape = tuple(case['shape'])
    n = shape[0] * shape[1]
    eul = euler_of(n)
    single = {}
    directions = [np.array([0, 0, 1.]), np.array([1, 0, 0]), np.array([1., 2, 3])]
    for i in range(n):
        for k in KINDS:
            for d, u in enumerate(directions):
                single[i, k, d] = Quat.calc_ipf_colours(np.array([Quat.from_euler_angles(*eul[:, i])]), u, get_phase(k).crystal_structure.name)[:, 0]
    lists = [None] + [list(t) for r in range(4) for t in itertools.permutations(range(3), r)]
    for pi, pat in enumerate(case['pats']):
        pim = np.array(pat).reshape(shape)
        m = ebsd_map(shape, eul.reshape((3,) + shape), pim.astype(np.uint8), kinds=KINDS)
        bgs = [None, np.array([1., .5, 0.]), np.array([1, 1, 1]), [1, 1, 1]]
        for li, phases in enumerate(lists):
            for bi, bg in enumerate(bgs):
                if (bi + li + pi) % 2 and len(set(pat)) < 4:
                    continue
                use = range(3) if phases is None else phases
                want = np.empty(shape + (3,))
                for i, p in enumerate(pat):
                    y, x = divmod(i, shape[1])
                    if p and p - 1 in use:
                        want[y, x] = eul[:, i] / NORM[KINDS[p - 1]]
                    else:
                        want[y, x] = 0. if bg is None else bg
                what = f'phases {pat}, list {phases}, background {bg}'
                plot = m.plot_euler_map(phases=phases, bg_colour=bg)
                ctx.check(shown(plot).shape == want.shape and np.allclose(shown(plot), want), lambda: f'{what}: Euler map {shown(plot).tolist()}, expected {want.tolist()}')
                plt.close('all')
                d = (li + bi) % 3
                for i, p in enumerate(pat):
                    y, x = divmod(i, shape[1])
                    if p and p - 1 in use:
                        want[y, x] = single[i, KINDS[p - 1], d]
                plot = m.plot_ipf_map(directions[d], phases=phases, bg_colour=bg)
                ctx.check(np.allclose(shown(plot), want), lambda: f'{what}: IPF map along {directions[d]} {shown(plot).tolist()}, expected {want.tolist()}')
                plt.close('all')
                ctx.step()
                ctx.eval(what if len(set(pat)) > 1 else None)
        # named data of the map agrees with the plots
        ctx.check(np.allclose(shown(m.plot_map('orientation', component='IPF_z')), shown(m.plot_ipf_map(np.array([0, 0, 1])))), f'phases {pat}: IPF_z component')
        plt.close('all')
        plot = m.plot_phase_map()
        ctx.check((shown(plot) == pim).all(), f'phases {pat}: phase map')
        plt.close('all')
        b = pixel_boundaries(pim)
        for dilate in (False, True):
            plot = m.plot_phase_boundary_map(dilate=dilate)
            want = cross_dilate(b) if dilate else b
            ctx.check((shown(plot).astype(bool) == want).all(), lambda: f'phases {pat}, dilate {dilate}: phase boundaries {shown(plot).astype(int).tolist()}, expected {want.astype(int).tolist()}')
            im = plot.img_layers[0]
            if want.any() and not want.all():
                ctx.check(np.allclose(im.cmap(im.norm(1))[:3], 1) and np.allclose(im.cmap(im.norm(0))[:3], 0), f'phases {pat}, dilate {dilate}: colours of boundaries')
            plt.close('all')
            ctx.step()
        for name, fn in [('Euler map', m.plot_euler_map), ('IPF map', lambda **k: m.plot_ipf_map(directions[0], **k)), ('phase map', m.plot_phase_map),
                         ('phase boundaries', m.plot_phase_boundary_map)]:
            check_options(ctx, fn, f'phases {pat}: {name}', pi)
        ctx.state(('phase', tuple(pat)))
        ctx.trace()


# ---------------------------------------------------------------- grains
def grains_of(lab):
    """Connected components in the order of the first pixel (row by row)."""
    ids = np.full(lab.shape, -1)
    n = 0
    h, w = lab.shape
    for y in range(h):
        for x in range(w):
            if ids[y, x] >= 0:
                continue
            stack = [(y, x)]
            ids[y, x] = n
            while stack:
                b, a = stack.pop()
                for q, p in ((b + 1, a), (b - 1, a), (b, a + 1), (b, a - 1)):
                    if 0 <= q < h and 0 <= p < w and ids[q, p] < 0 and lab[q, p] == lab[y, x]:
                        ids[q, p] = n
                        stack.append((q, p))
            n += 1
    return ids, n


def labelled_ebsd(pat, shape):
    """Letters have orientations far apart, pixels of a letter differ a little."""
    n = len(pat)
    eul = np.array([[(5, 50, 20)[p] * D + .004 * ((3 * i) % 7), (10, 15, 38)[p] * D + .003 * ((5 * i) % 7), (8, 12, 43)[p] * D + .002 * (i % 10)] for i, p in enumerate(pat)])
    m = ebsd_map(shape, eul.T.reshape((3,) + tuple(shape)))
    m.data.generate('grains', min_grain_size=1)
    return m


def centroid(g):
    pts = np.array(g.data.point)
    return pts.mean(axis=0)


def box(g):
    xs, ys = [p[0] for p in g.data.point], [p[1] for p in g.data.point]
    return min(xs), min(ys), max(xs), max(ys)


def same(a, b):
    a = np.ma.filled(np.ma.array(a, dtype=float), np.nan)
    return a.shape == b.shape and np.allclose(a, b, atol=1e-6, equal_nan=True)


def check_numbers(ctx, m, what):
    for dilate in (False, True):
        plot = m.plot_grain_numbers(dilate_boundaries=dilate)
        got = [(t.get_text(), t.get_position()) for t in plot.ax.texts]
        ctx.check(sorted(t for t, _ in got) == sorted(str(i) for i in range(len(m))), lambda: f'{what}: numbers {got}')
        for t, (x, y) in got:
            cx, cy = centroid(m[int(t)])
            ctx.check(abs(x - cx) <= .5 + 1e-9 and abs(y - cy) <= .5 + 1e-9, lambda: f'{what}: number {t} at {(x, y)}, grain centre {(cx, cy)}')
        im = plot.img_layers[-1]
        b = np.array(m.data.grain_boundaries.image).astype(bool)
        if dilate:
            b = cross_dilate(b)
        ctx.check((np.asarray(im.get_array()).astype(bool) == b).all(), f'{what}: boundaries behind the numbers, dilate {dilate}')
        col = im.cmap(im.norm(1.))
        ctx.check(np.allclose(col[:3], 0, atol=.02) and col[3] > .9, f'{what}: colour {col}')
        plt.close('all')
        ctx.step()


ORDERS = list(itertools.permutations(range(4)))


def run_many(ctx, case):
    shape, c = tuple(case['shape']), case['c']
    lab = np.indices(shape).sum(axis=0) % 2 if c == 0 else np.indices(shape)[int(shape[0] > 2)] if c == 1 else np.indices(shape).sum(axis=0) // 2 % 3
    pat = [int(v) for v in lab.ravel()]
    what = f'{case}'
    m = labelled_ebsd(pat, shape)
    ids, n = grains_of(lab)
    ctx.check(len(m) == n and (n > 255 or c), f'{what}: {len(m)} grains, expected {n}')
    img = shown(m.plot_grain_map())
    for i, g in enumerate(m):
        ctx.check({(x, y) for x, y in g.data.point} == {(x, y) for y, x in zip(*np.nonzero(img == i + 1))} == {(x, y) for y, x in zip(*np.nonzero(ids == i))}, f'{what}: grain map of grain {i}')
    plt.close('all')
    im = m.plot_boundary_map().img_layers[-1]
    ctx.check((np.asarray(im.get_array()).astype(bool) == pixel_boundaries(lab)).all(), f'{what}: boundary map')
    plt.close('all')
    check_numbers(ctx, m, what)
    # phases of the pixels
    im = shown(m.plot_phase_map())
    ph = np.array(m.data.phase)
    for v in np.unique(ph):
        ctx.check(len(np.unique(im[ph == v].reshape(int((ph == v).sum()), -1), axis=0)) == 1, f'{what}: phase map')
    plt.close('all')
    ctx.eval(what)


def run_grain(ctx, case):
    shape = tuple(case['shape'])
    for pat in case['pats']:
        what = f'labels {pat} on {shape}'
        m = labelled_ebsd(pat, shape)
        ids, n = grains_of(np.array(pat).reshape(shape))
        ctx.check(len(m) == n, f'{what}: {len(m)} grains')
        # grain map shows the grain numbers
        plot = m.plot_grain_map()
        img = shown(plot)
        for i, g in enumerate(m):
            ctx.check({(x, y) for x, y in g.data.point} == {(x, y) for y, x in zip(*np.nonzero(img == i + 1))}, f'{what}: grain map of grain {i}')
        plt.close('all')
        plot = m.plot_boundary_map()
        b = pixel_boundaries(np.array(pat).reshape(shape))
        im = plot.img_layers[-1]
        ctx.check((np.asarray(im.get_array()).astype(bool) == b).all() and np.allclose(im.cmap(im.norm(1.))[:3], 0, atol=.02), lambda: f'{what}: boundary map {np.asarray(im.get_array()).tolist()}')
        plt.close('all')
        check_numbers(ctx, m, what)
        # grains
        for i, g in enumerate(m):
            x0, y0, x1, y1 = box(g)
            out = np.full((y1 - y0 + 1, x1 - x0 + 1), np.nan)
            for x, y in g.data.point:
                out[y - y0, x - x0] = 0
            plot = g.plot_outline()
            ctx.check(same(shown(plot), out), lambda: f'{what}: outline of grain {i} {shown(plot).tolist()}')
            ctx.check(not scale_bars(plot), f'{what}: scale bar not asked for')
            plot = g.plot_outline(plot_scale_bar=True)
            sb = scale_bars(plot)
            ctx.check(len(sb) == 1 and abs(sb[0].dx - m.scale * 1e-6) < 1e-15, f'{what}: scale bar of an outline')
            plt.close('all')
        # misorientation, grain by grain or all at once, in either order
        comps = ORDERS[sum(v * 3 ** i for i, v in enumerate(pat)) % 24]
        other = labelled_ebsd(pat, shape)
        fresh = labelled_ebsd(pat, shape)
        for g in fresh:
            g.calc_average_ori()
        for c in comps:
            plot = m.plot_mis_ori_map(component=c)
            img = np.ma.filled(np.ma.array(shown(plot), dtype=float), np.nan)
            want = np.full(shape, np.nan)
            for g in fresh:
                ref = np.array(g.ref_ori.quat_coef)
                for (x, y) in g.data.point:
                    q = np.array(fresh.data.orientation[y, x].quat_coef)
                    if ref @ q < 0:
                        q = -q
                    ang = 2 * math.acos(min(1, ref @ q))
                    if c == 0:
                        want[y, x] = math.degrees(ang)
                    else:
                        # rotation vector of the rotation from the mean orientation
                        rm = oracle_rot(q) @ oracle_rot(ref).T
                        v = np.array([rm[2, 1] - rm[1, 2], rm[0, 2] - rm[2, 0], rm[1, 0] - rm[0, 1]]) / 2
                        s = np.linalg.norm(v)
                        want[y, x] = math.degrees(v[c - 1] * (math.asin(min(1, s)) / s if s > 1e-12 else 1))
            err = np.abs(img - want).max() if c == 0 else min(np.abs(img - want).max(), np.abs(img + want).max())
            ctx.check(img.shape == want.shape and err < (1e-3 if c == 0 else 2e-3), lambda: f'{what}: misorientation component {c} {img.tolist()}, expected {want.tolist()}')
            plt.close('all')
            for i, g in enumerate(m):
                x0, y0, x1, y1 = box(g)
                out = np.full((y1 - y0 + 1, x1 - x0 + 1), np.nan)
                for x, y in g.data.point:
                    out[y - y0, x - x0] = img[y, x]
                for h, who in ((g, 'with the map'), (other[i], 'alone')):
                    plot = h.plot_mis_ori(component=c)
                    ctx.check(same(shown(plot), out), lambda: f'{what}: misorientation component {c} of grain {i} {who}: {shown(plot).tolist()}, map {out.tolist()}')
                    plt.close('all')
            ctx.step()
        for name, fn in [('grain map', m.plot_grain_map), ('misorientation', m.plot_mis_ori_map), ('rotation', lambda **k: m.plot_mis_ori_map(component=2, **k)),
                         ('grain misorientation', m[0].plot_mis_ori), ('grain rotation', lambda **k: m[0].plot_mis_ori(component=1, **k))]:
            check_options(ctx, fn, f'{what}: {name}', sum(pat))
        for c in (4, -1, 5):
            ctx.raises(ValueError, lambda: m[0].plot_mis_ori(component=c), f'{what}: component {c}')
            plt.close('all')
        ctx.state(('grain', shape, tuple(pat)))
        ctx.trace()
        ctx.eval(what if n > 1 else None)


def oracle_rot(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


# ---------------------------------------------------------------- strain
def run_strain(ctx, case):
    shape = tuple(case['shape'])
    h, w = shape
    for pat in case['pats']:
        what = f'labels {pat} on {shape}'
        e = labelled_ebsd(pat, shape)
        yy, xx = np.mgrid[0:h, 0:w].astype(float)
        d = dic_map(disp=np.array([.05 * xx * yy + .02 * xx ** 2, .03 * yy ** 2 - .04 * xx]))
        pts = [(0, 0), (w - 1, 0), (0, h - 1)]
        for k in (d, e):
            k.frame.set_homog_points(pts)
        d.link_ebsd_map(e, transform_type='affine')
        d.data.generate('grains', min_grain_size=1, algorithm='warp')
        ms = np.array(d.data.max_shear)
        plot = d.plot_grain_av_max_shear()
        img = np.ma.filled(np.ma.array(shown(plot), dtype=float), np.nan)
        want = np.full(shape, np.nan)
        for g in d:
            v = np.mean([ms[y, x] for x, y in g.data.point])
            for x, y in g.data.point:
                want[y, x] = v
        ctx.check(len(d) == len(e) and not np.isnan(want).any(), f'{what}: grains of the DIC map')
        ctx.check(same(img, want), lambda: f'{what}: mean maximum shear {img.tolist()}, expected {want.tolist()}')
        plt.close('all')
        check_numbers(ctx, d, what)
        check_options(ctx, d.plot_grain_av_max_shear, f'{what}: mean maximum shear', sum(pat))
        ctx.state(('strain', shape, tuple(pat)))
        ctx.trace()
        ctx.eval(what if len(d) > 1 else None)


# ---------------------------------------------------------------- unit cells
def bunge(e):
    return oracle.bunge(e)


def run_cell(ctx, case):
    ph = get_phase(case['phase'])
    cs = ph.crystal_structure
    hexagonal = cs.name == 'hexagonal'
    step = case['step']
    rec = []
    orig = Poly3DCollection.__init__

    def init(self, verts, *a, **k):
        rec.append([np.array(v, dtype=float) for v in verts])
        return orig(self, verts, *a, **k)
    Poly3DCollection.__init__ = init
    try:
        for b in range(0, 181, step):
            for c in range(0, 360, step):
                eul = (case['a'] * D, b * D, c * D)
                q = Quat.from_euler_angles(*eul)
                calls = [('quat', lambda **k: q.plot_unit_cell(cs, **k))]
                if (b + c) % 90 == 0:
                    m = ebsd_map((2, 2), np.tile(np.array(eul)[:, None, None], (1, 2, 2)), kinds=(case['phase'],))
                    m.data.generate('grains', min_grain_size=1)
                    m[0].calc_average_ori()
                    calls.append(('grain', lambda **k: m[0].plot_unit_cell(**k)))
                for (who, fn), oi in itertools.product(calls, (None, True, False)):
                    rec.clear()
                    what = f'{case["phase"]} cell of {who} at {case["a"], b, c}, OI {oi}'
                    plot = fn(**({} if oi is None else {'OI': oi}))
                    ctx.check(len(rec) == 1 and len([k for k in plot.ax.collections if isinstance(k, Poly3DCollection)]) == 1, f'{what}: one set of faces')
                    faces = rec[0]
                    g = bunge(eul)
                    if hexagonal and oi is not False:
                        g = bunge((eul[0], eul[1], eul[2] + math.pi / 6))
                    verts = np.array(cs.vertices, dtype=float)
                    want = [np.array([g.T @ verts[j] for j in f]) for f in cs.faces]
                    scale = max(np.linalg.norm(v) for f in faces for v in f) / max(np.linalg.norm(v) for f in want for v in f)
                    # the cell of an average orientation may be a symmetric equivalent: compare as point sets
                    a = sorted(np.round(np.vstack(faces) / scale, 5).tolist())
                    bb = sorted(np.round(np.vstack(want), 5).tolist())
                    A, B = np.vstack(faces) / scale, np.vstack(want)
                    ok = len(A) == len(B) and all(min(np.abs(B - p).max(axis=1)) < 1e-4 for p in A) and all(min(np.abs(A - p).max(axis=1)) < 1e-4 for p in B)
                    ctx.check(ok, lambda: f'{what}: corners {a}, expected {bb}')
                    ctx.check(len(faces) == (8 if hexagonal else 6) and sorted(len(f) for f in faces) == ([4] * 6 + [6] * 2 if hexagonal else [4] * 6), f'{what}: faces')
                    for f in faces:
                        nrm = np.cross(f[1] - f[0], f[2] - f[0])
                        out = f.mean(axis=0)
                        ctx.check(all(abs(nrm @ (p - f[0])) < 1e-9 for p in f) and np.linalg.norm(np.cross(nrm, out)) < 1e-6 * np.linalg.norm(nrm) + 1e-9, f'{what}: a face is not a plane facing outwards')
                    # seen from the top: x to the right, y up
                    ctx.check(plot.ax.elev == 90 and plot.ax.azim % 360 == 270, f'{what}: view')
                    M = plot.ax.get_proj()
                    o, px, py = (np.array(proj3d.proj_transform(*p, M)[:2]) for p in ((0, 0, 0), (.1, 0, 0), (0, .1, 0)))
                    ctx.check((px - o)[0] > 1e-3 and abs((px - o)[1]) < 1e-9 and (py - o)[1] > 1e-3 and abs((py - o)[0]) < 1e-9, lambda: f'{what}: axes {px - o, py - o}')
                    plt.close('all')
                    ctx.step()
                    ctx.eval(what if (case['a'], b, c) != (0, 0, 0) else None)
                fig = plt.figure()
                ax = fig.add_subplot(projection='3d')
                rec.clear()
                plot = q.plot_unit_cell(cs, fig=fig, ax=ax, alpha=.5)
                col = [k for k in ax.collections if isinstance(k, Poly3DCollection)]
                ctx.check(plot.ax is ax and len(col) == 1 and len(rec) == 1 and col[0].get_alpha() == .5, f'cell of {case["phase"]} on given axes with own transparency')
                plt.close('all')
                # several cells on one plot
                rec.clear()
                p1 = q.plot_unit_cell(cs)
                p2 = q.conjugate.plot_unit_cell(cs, plot=p1)
                ctx.check(p2 is p1 and len(rec) == 2 and len([k for k in p1.ax.collections if isinstance(k, Poly3DCollection)]) == 2, 'two cells on one plot')
                plt.close('all')
                ctx.state(('cell', case['phase'], eul))
        ctx.trace()
    finally:
        Poly3DCollection.__init__ = orig


# ---------------------------------------------------------------- histograms
DATA = [
    np.array([1., 2, 2, 3, 5, 8, 8, 8]),
    np.array([[.1, .5, .25], [.75, 1., .3]]),
    np.array([1, 10, 100, 1000, 20, 30, 30, 500]),
    np.array([[[1.5, 2.5], [3.5, 9.]], [[4., 2.], [7., 6.]]]),
    np.array([-2., -1, 0, .5, 1, 4]),
    np.array([1., np.nan, 3., 4., np.nan, 6.]),
]


def run_hist(ctx, case):
    data = DATA[case['data']]
    flat = [float(v) for v in data.ravel() if not math.isnan(v)]
    pt = case['type']
    for at in ('linear', 'logx', 'logy', 'loglog', 'LogX'):
        logx = at.lower() in ('logx', 'loglog')
        pos = [v for v in flat if v > 0] if logx else flat
        ranges = [None, (min(pos), max(pos)), (min(pos) + (.1 if not logx else 0), max(pos) * .7 + min(pos) * .3), (min(pos) * .5 if logx else min(pos) - 1, max(pos) * 2)]
        for r, bins, dens in itertools.product(ranges, (1, 2, 3, 10) if case['tier'] == 'quick' else (1, 2, 3, 4, 5, 7, 10, 33, 100), (True, False)):
            what = f'data {case["data"]}, {pt}, {at}, range {r}, {bins} bins, density {dens}'
            lo, hi = r or (min(pos), max(pos))
            if logx:
                edges = [lo * (hi / lo) ** (i / bins) for i in range(bins + 1)]
            else:
                edges = [lo + (hi - lo) * i / bins for i in range(bins + 1)]
            # values next to an inner edge can go either way
            tie = any(abs(v - e) < 1e-9 * max(1, abs(e)) for v in flat for e in edges)
            counts = [0] * bins
            near = [0] * bins
            for v in flat:
                for i in range(bins):
                    if edges[i] - 1e-9 <= v <= edges[i + 1] + 1e-9:
                        near[i] += 1
                    if edges[i] <= v < edges[i + 1] or (i == bins - 1 and v == edges[-1]):
                        counts[i] += 1
            inside = len([v for v in flat if lo - 1e-9 * max(1, abs(lo)) <= v <= hi + 1e-9 * max(1, abs(hi))])
            for reuse in (False, True):
                if reuse:
                    first = HistPlot(plot_type=pt, axes_type=at, density=dens)
                    plot = HistPlot.create(data, plot=first, bins=bins, range=r, label='set')
                    ctx.check(plot is first, f'{what}: given plot')
                else:
                    plot = HistPlot.create(data, plot_type=pt, axes_type=at, density=dens, bins=bins, range=r, label='set')
                ax = plot.ax
                ctx.check(ax.get_xscale() == ('log' if logx else 'linear') and ax.get_yscale() == ('log' if at.lower() in ('logy', 'loglog') else 'linear'), f'{what}: axes')
                if pt == 'scatter':
                    ln = ax.lines[0]
                    xs, ys = ln.get_xdata(), ln.get_ydata()
                    ctx.check(len(xs) == bins and np.allclose(xs, [(a + b) / 2 for a, b in zip(edges, edges[1:])]), lambda: f'{what}: middle of bins {list(xs)}')
                elif pt == 'bar':
                    ps = [p for p in ax.patches]
                    ctx.check(len(ps) == bins and np.allclose([p.get_x() for p in ps], edges[:-1]) and np.allclose([p.get_x() + p.get_width() for p in ps], edges[1:]), f'{what}: bars')
                    ys = [p.get_height() for p in ps]
                else:
                    xy = ax.patches[0].get_xy()
                    # outline up over the bins
                    ys = []
                    for a, b in zip(edges, edges[1:]):
                        tops = [q[1] for p, q in zip(xy, xy[1:]) if abs(p[0] - a) < 1e-9 * max(1, abs(a)) and abs(q[0] - b) < 1e-9 * max(1, abs(b))]
                        ys.append(tops[0] if len(tops) == 1 else None)
                    ctx.check(None not in ys, lambda: f'{what}: steps {xy.tolist()}')
                labels = ax.get_legend_handles_labels()[1]
                ctx.check(labels == ['set'], f'{what}: labels {labels}')
                width = [b - a for a, b in zip(edges, edges[1:])]
                if dens:
                    if inside:
                        ctx.check(abs(sum(y * w for y, w in zip(ys, width)) - 1) < 1e-6, lambda: f'{what}: integral of {list(ys)}')
                    got = [y * w * inside for y, w in zip(ys, width)]
                else:
                    got = [float(y) for y in ys]
                    ctx.check(abs(sum(got) - inside) < 1e-6 or tie, lambda: f'{what}: {got}, {inside} values')
                if inside and (at.lower() not in ('logy', 'loglog') or pt != 'step'):
                    if not tie:
                        ctx.check(np.allclose(got, counts), lambda: f'{what}: counts {got}, expected {counts}')
                    else:
                        ctx.check(all(g <= k + 1e-6 for g, k in zip(got, near)), lambda: f'{what}: counts {got}, at most {near}')
                ctx.check(('ormalised' in ax.get_ylabel()) == dens, f'{what}: y label')
                plt.close('all')
            ctx.step()
            ctx.eval(what if bins > 1 else None)
    ctx.raises(ValueError, lambda: HistPlot(plot_type='pie'), 'unknown type')
    ctx.raises(ValueError, lambda: HistPlot(axes_type='sqrt'), 'unknown axes')
    plt.close('all')
    ctx.state((case['data'], pt))
    ctx.trace()


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
