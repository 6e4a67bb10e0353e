"""P30: components and line profiles read the map values that were asked for."""
import contextlib
import io
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg   # noqa: E402
from matplotlib.backend_bases import MouseEvent               # noqa: E402
from defdap.quat import Quat         # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402

PROP = 'P30'
LEVEL = 'model_checking'
RULE = ('(comp) every specification (none, numbers, tuples up to length 3, names) for map and grain data of order 0, 1 and 2, with and '
        'without a default component, through the plots of maps and grains; (profile) every pair of end points of a grid on small '
        'maps, including equal ones, points between pixels and points outside, directly; (drag) every sequence of mouse presses and '
        'releases up to the depth on an interactive plot, in lockstep with a model; (stats) every set of components and percentiles')
ASSUMPTIONS = ['a profile samples with bilinear interpolation between pixels, at most one pixel apart', 'figures are not rendered']


def worker_init():
    FigureCanvasAgg.draw = lambda self, *a, **k: None


H, W = 3, 4


def datum(order, h=H, w=W):
    shape = {0: (), 1: (3,), 2: (2, 2)}[order] + (h, w)
    n = int(np.prod(shape))
    return ((np.arange(n) * 37 % 101) / 7. - 5).reshape(shape)


IDX = [0, 1, 2, 3]
SPECS = [None] + IDX + [tuple(t) for k in range(4) for t in itertools.product((0, 1, 2), repeat=k)] + ['norm', 'Norm', 'NORM', 'max', '', 'normal', 'ipf_w']
NAMES = ['IPF_x', 'ipf_y', 'IPF_Z', 'all_euler', 'All_Euler']


def cases(tier):
    q = tier == 'quick'
    out = [dict(kind='comp', order=o, default=d, src=s) for o in (0, 1, 2) for d in range(4) for s in ('ebsd', 'dic', 'grain', 'dicgrain')]
    out += [dict(kind='named', src=s, kinds=k) for s in ('ebsd', 'grain') for k in (('fcc',), ('bcc',), ('hcp',), ('fcc', 'hcp'), ('hcp', 'bcc'), ('hcp', 'hcp'))]
    grids = [((3, 4), 1), ((4, 3), 1), ((1, 4), 1), ((4, 1), 1), ((2, 2), 2)] if q else [((3, 4), 2), ((4, 3), 2), ((1, 5), 3), ((5, 1), 3), ((2, 2), 4), ((5, 6), 1)]
    for shape, sub in grids:
        for a in range((shape[0] * sub + 1) * (shape[1] * sub + 1)):
            out.append(dict(kind='profile', shape=shape, sub=sub, a=a))
    for a in range(len(EVENTS)):
        out.append(dict(kind='drag', head=a, depth=4 if q else 5, src='ebsd' if a % 2 else 'dic'))
    for k in range(4):
        out.append(dict(kind='long', k=k))
    for k in range(8):
        out.append(dict(kind='stats', k=k))
    return out


def grains_of(m):
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_av_oris()


def source(src, kinds=('fcc',)):
    lab = np.array([[1, 1, 2, 2], [1, 1, 2, 2], [1, 2, 2, 0]])
    eu = np.zeros((3, H, W))
    for k, v in enumerate((.5, .3, .7)):
        eu[k] = lab * v
    eu[0] += np.arange(12).reshape(3, 4) * .003
    e = ebsd_map((H, W), euler=eu, phase_im=np.array([0, 1, len(kinds)], dtype=np.uint8)[lab], kinds=kinds)
    grains_of(e)
    if src in ('ebsd', 'grain'):
        return e, (e if src == 'ebsd' else e[1])
    yy, xx = np.mgrid[0:H, 0:W]
    d = dic_map(disp=np.array([.02 * xx * yy, .03 * yy ** 2 - .01 * xx]))
    d.set_scale(.5)
    for m in (e, d):
        m.frame.set_homog_points([(0, 0), (3, 0), (0, 2), (3, 2)])
    d.link_ebsd_map(e, transform_type='affine')
    d.data.generate('grains', algorithm='warp')
    return d, (d if src == 'dic' else d[0])


def shown(plot):
    return np.ma.filled(np.ma.array(plot.img_layers[0].get_array(), dtype=float), np.nan)


def on_grain(g, vals):
    x0, y0 = min(p[0] for p in g.data.point), min(p[1] for p in g.data.point)
    x1, y1 = max(p[0] for p in g.data.point), max(p[1] for p in g.data.point)
    out = np.full((y1 - y0 + 1, x1 - x0 + 1), np.nan)
    for (x, y), v in zip(g.data.point, vals):
        out[y - y0, x - x0] = v
    return out


def run_comp(ctx, case):
    m, obj = source(case['src'])
    order = case['order']
    grain = 'grain' in case['src']
    data = datum(order)
    extra = {}
    default = [None, {0: None, 1: 1, 2: (1, 0)}[order], {0: None, 1: 'norm', 2: 'norm'}[order], {0: None, 1: (2,), 2: (0, 0)}[order]][case['default']]
    if default is not None:
        extra['default_component'] = default
    if case['default'] == 3:
        extra['plot_params'] = dict(plot_colour_bar=True, clabel='Label')
    keep = data.copy()
    if grain and case['default'] == 1:
        # data of the grain itself
        vals = datum(order, 1, len(obj.data.point))[..., 0, :]
        obj.data.add('thing', vals, type='list', order=order, unit='u', **extra)
        lst = vals
    else:
        m.data.add('thing', data, type='map', order=order, unit='u', **extra)
        lst = np.array([data[..., y, x] for x, y in obj.data.point]).T if grain else None
        if grain and order == 2:
            lst = np.moveaxis(np.array([data[..., y, x] for x, y in obj.data.point]), 0, -1)
    for spec in SPECS:
        what = f'{case["src"]} data of order {order}, default {default}, component {spec!r}'
        use = default if spec is None else spec
        want = None
        if use is None:
            ok = order == 0
            idx = ()
        elif isinstance(use, str):
            ok = use.lower() == 'norm' and order > 0
            idx = 'norm'
        else:
            idx = (use,) if isinstance(use, int) else use
            n = {0: (), 1: (3,), 2: (2, 2)}[order]
            ok = len(idx) == len(n) and all(i < k for i, k in zip(idx, n))
        src = lst if grain else data
        if not ok:
            ctx.raises((ValueError, IndexError, KeyError), lambda: obj.plot_map('thing', component=spec), what)
        else:
            if idx == 'norm':
                k = {1: 3, 2: 4}[order]
                flat = src.reshape((k,) + src.shape[order:])
                want = np.sqrt(sum(f * f for f in flat))
            else:
                want = src[idx]
            if grain:
                want = on_grain(obj, want)
            p = obj.plot_map('thing', component=spec)
            got = shown(p)
            ctx.check(got.shape == want.shape and np.allclose(got, want, equal_nan=True), lambda: f'{what}: {got}, expected {want}')
            if case['default'] == 3:
                lab = p.colour_bar.ax.get_ylabel()
                txt = 'Label' + (f' ({use})' if isinstance(use, str) else ' (' + ''.join(str(i + 1) for i in idx) + ')' if use is not None else '') + ' (u)'
                ctx.check(lab == txt or (use == () and lab.startswith('Label')), lambda: f'{what}: label {lab!r}, expected {txt!r}')
        ctx.step()
        ctx.eval(what if ok else None)
        plt.close('all')
    for name in ('nothing', 'point') if not grain else ('nothing', 'grains_of'):
        ctx.raises((ValueError, KeyError), lambda: obj.plot_map(name), f'{case["src"]}: {name} is not map data')
    if not grain:
        m.data.add('notmap', np.zeros((H, W)), type='other', order=0)
        m.data.add('noorder', np.zeros((H, W)), type='map')
        for name in ('notmap', 'noorder'):
            ctx.raises(ValueError, lambda: obj.plot_map(name), f'{case["src"]}: {name} is not a valid map')
    ctx.check(np.array_equal(keep, data), f'{case}: data changed')


def run_named(ctx, case):
    kinds = case['kinds']
    m, obj = source(case['src'], tuple(kinds))
    grain = case['src'] == 'grain'
    eu = np.array(m.data.euler_angle)
    ph = np.array(m.data.phase)
    norms = dict(fcc=np.array([2 * np.pi, np.pi / 2, np.pi / 2]), hcp=np.array([np.pi, np.pi, np.pi / 3]))
    norms['bcc'] = norms['fcc']
    norm = np.array([[norms[kinds[max(0, int(p) - 1)]] for p in r] for r in ph])
    for name in NAMES:
        low = name.lower()
        p = obj.plot_map('euler_angle' if 'euler' in low else 'orientation', component=name)
        got = shown(p)
        what = f'{case["src"]} {kinds} {name}'
        if 'euler' in low:
            full = np.clip(np.moveaxis(eu, 0, -1) / norm, 0, 1)
            full[np.array(m.data.phase) == 0] = 0
        else:
            d = np.array({'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}[low[-1]])
            full = np.zeros(ph.shape + (3,))
            for y, x in np.argwhere(ph > 0):
                full[y, x] = Quat.calc_ipf_colours([Quat.from_euler_angles(*eu[:, y, x])], d, m.phases[int(ph[y, x]) - 1].crystal_structure.name)[:, 0]
        if grain:
            x0, y0, x1, y1 = obj.extreme_coords
            for x, y in obj.data.point:
                ctx.check(np.allclose(got[y - y0, x - x0][:3], full[y, x], atol=1e-6), lambda: f'{what}: pixel {x, y} {got[y - y0, x - x0]}, expected {full[y, x]}')
        else:
            ctx.check(got.shape == full.shape and np.allclose(got, full, atol=1e-6), f'{what}: map')
        ctx.step()
        ctx.eval(what)
        plt.close('all')


# ---------------------------------------------------------------- profiles
def sample(img, x, y):
    """Bilinear, edges extended."""
    h, w = img.shape[:2]
    x, y = min(max(x, 0), w - 1), min(max(y, 0), h - 1)
    i, j = min(int(math.floor(x)), w - 1), min(int(math.floor(y)), h - 1)
    i2, j2 = min(i + 1, w - 1), min(j + 1, h - 1)
    fx, fy = x - i, y - j
    return img[j, i] * (1 - fx) * (1 - fy) + img[j, i2] * fx * (1 - fy) + img[j2, i] * (1 - fx) * fy + img[j2, i2] * fx * fy


def check_profile(ctx, m, img, p0, p1, what):
    ln = m.profile_plot.ax.lines
    n = 1 if img.ndim == 2 else img.shape[2]
    ctx.check(len(ln) == n, lambda: f'{what}: {len(ln)} lines in the profile, expected {n}')
    L = math.hypot(p1[0] - p0[0], p1[1] - p0[1])
    for k, l in enumerate(ln):
        x, z = np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)
        ctx.check(len(x) > L and abs(x[0]) < 1e-9 and (len(x) == 1 or abs(x[-1] - L) < 1e-6) and np.allclose(np.diff(x), L / max(1, len(x) - 1), atol=1e-6), lambda: f'{what}: distances {x}, length {L}')
        im = img if img.ndim == 2 else img[..., k]
        t = x / L if L else x * 0
        want = [sample(im, p0[0] + a * (p1[0] - p0[0]), p0[1] + a * (p1[1] - p0[1])) for a in t]
        ctx.check(np.allclose(z, want, atol=1e-5), lambda: f'{what}: values {z}, expected {want}')


def run_profile(ctx, case):
    h, w = case['shape']
    s = case['sub']
    # a grid of end points half a pixel (and less) around the pixels
    xs = [k / s for k in range(w * s + 1)]
    ys = [k / s for k in range(h * s + 1)]
    m = dic_map((max(h, 2), max(w, 2)))
    img = np.array(((np.arange(h * w) * 29 % 23) ** 1.5).reshape(h, w))
    m2 = ebsd_map((h, w))
    plot = m2.plot_map('band_contrast')
    plot2 = m2.plot_euler_map()
    plot.img_layers[0].set_data(img)
    cp = img.copy()
    x0, y0 = xs[case['a'] % len(xs)], ys[case['a'] // len(xs)]
    for x1, y1 in itertools.product(xs, ys):
        p0, p1 = (x0 - .25, y0 - .25) if s == 2 else (x0, y0), (x1, y1)
        m2.calc_line_profile(plot, (p0[0], p0[1], p1[0], p1[1]))
        what = f'map {case["shape"]}: from {p0} to {p1}'
        check_profile(ctx, m2, img, p0, p1, what)
        ctx.check(m2.profile_plot.ax.get_xlabel() == 'Distance (pixels)', f'{what}: label')
        ctx.step()
        ctx.eval(what if p0 != p1 else None)
    ctx.check(np.array_equal(img, cp), f'{case}: map changed')
    ctx.check(plot2.fig.number != m2.profile_plot.fig.number, 'profile on its own figure')


def run_long(ctx, case):
    """Profiles of more points than a byte can count."""
    h, w = (3, 400) if case['k'] % 2 else (400, 3)
    if case['k'] < 2:
        m, img = ebsd_map((h, w)), None
        plot = m.plot_map('band_contrast')
        img = np.array((np.arange(h * w) * 29 % 23).reshape(h, w) ** 1.5)
        plot.img_layers[0].set_data(img)
    else:
        u = np.array([(np.arange(h * w) * 29 % 23).reshape(h, w) ** 1.5, np.arange(h * w).reshape(h, w) / 7.])
        m = dic_map((h, w), disp=u)
        plot = m.plot_map('displacement', component=0)
        img = u[0]
    for a, b in (((0, 0), (399, 2)), ((399, 1), (0, 1)), ((10.4, 1.7), (370.2, .3)), ((256, 0), (0, 2)), ((300, 2), (310, 0)), ((2, 1), (290, 1))):
        p0, p1 = (a, b) if w > h else (a[::-1], b[::-1])
        m.calc_line_profile(plot, p0 + p1)
        check_profile(ctx, m, img, p0, p1, f'map {h, w}: from {p0} to {p1}')
        ctx.step()
        ctx.eval(f'{case} {a} {b}')
    plt.close('all')


EVENTS = ['p 0.2 0.1', 'p 2.6 1.9', 'p 2 0', 'p off', 'r 3.3 2.2', 'r 0 0', 'r 2 2', 'r off', 'close']


def run_drag(ctx, case):
    for rest in itertools.product(range(len(EVENTS)), repeat=case['depth'] - 1):
        seq = [EVENTS[i] for i in (case['head'],) + rest]
        if not any(s[0] == 'r' for s in seq) or seq[0] == 'close' or seq[-1] == 'close':
            continue
        if case['depth'] > 3 and (seq[-1][0] != 'r' or seq[-1] == 'r off'):
            continue            # only the end of a drag adds something that shorter sequences do not show
        m = MAPS.get(case['src'])
        if m is None:
            m = MAPS[case['src']] = source(case['src'])[0]
        m.profile_plot = None
        plot = m.draw_line_profile()
        img = np.array(plot.img_layers[0].get_array(), dtype=float)
        p1, prof = None, None
        for n, ev in enumerate(seq):
            k = ev.split()
            what = f'{case["src"]} {seq[:n + 1]}'
            name = 'button_press_event' if k[0] == 'p' else 'button_release_event'
            if ev == 'close':
                if prof is not None:
                    plt.close(m.profile_plot.fig)
                    prof = None
                continue
            if k[1] == 'off':
                px, py = 1, plot.fig.bbox.height - 1
            else:
                px, py = plot.ax.transData.transform((float(k[1]), float(k[2])))
            e = MouseEvent(name, plot.fig.canvas, px, py, 1)
            plot.fig.canvas.callbacks.process(name, e)
            if k[1] != 'off':
                if k[0] == 'p':
                    p1 = (float(k[1]), float(k[2]))
                elif p1 is not None:
                    prof = p1, (float(k[1]), float(k[2]))
            if prof is None:
                ctx.check(m.profile_plot is None or not m.profile_plot.exists, f'{what}: a profile of no line')
            else:
                check_profile(ctx, m, img, prof[0], prof[1], what)
                ctx.check(len(plot.ax.texts) == 1 or len(plot.ax.texts) - len([t for t in plot.ax.texts if t.get_text()]) == 1, f'{what}: not one arrow')
                a = [t for t in plot.ax.texts if not t.get_text()][-1]
                ctx.check(np.allclose(a.xy, prof[0]) and np.allclose(a.xyann, prof[1]), lambda: f'{what}: arrow from {a.xy} to {a.xyann}, line {prof}')
            ctx.step()
        ctx.state((case['src'], p1, prof))
        ctx.trace()
        ctx.eval(f'{case["src"]} {seq}' if prof else None)
        plt.close('all')


MAPS = {}


def run_stats(ctx, case):
    k = case['k']
    m, _ = source('dic')
    if k % 2:
        d = np.array(m.data.displacement)
        yy, xx = np.mgrid[0:5, 0:6]
        m = dic_map(disp=np.array([.1 * xx * yy, .2 * yy - .03 * xx ** 2]))
        m.set_crop(left=1, top=1, right=k % 3)
    names = ['displacement', 'e', 'f', 'max_shear']
    for r in range(1, 4):
        for comps in itertools.permutations(names, r):
            for per in ([0], [50], [100], [0, 25, 100], [99.9, 1], []):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    m.print_stats_table(per, list(comps))
                rows = [l.split() for l in out.getvalue().split('\n')]
                head = [i for i, l in enumerate(rows) if l and 'Component' in l[0]]
                what = f'stats {comps} {per}'
                ctx.check(len(head) == 1 and [float(v) for v in rows[head[0]][1:]] == per, f'{what}: header')
                rows = [l for l in rows[head[0] + 1:] if l and l[0][0].isalpha()] if False else [l for l in rows[head[0] + 1:] if len(l) >= 1 + len(per)]
                rows = [[l[0].replace('\033[0m', '')] + l[1:] for l in rows]
                rows = [l for l in rows if l[0]]
                want = []
                for c in comps:
                    a = np.array(m.data[c])
                    for i in np.ndindex(a.shape[:-2]):
                        v = sorted(a[i].ravel())
                        qs = []
                        for q in per:
                            t = q / 100 * (len(v) - 1)
                            lo = int(math.floor(t))
                            hi = min(lo + 1, len(v) - 1)
                            qs.append(v[lo] + (v[hi] - v[lo]) * (t - lo))
                        want.append((c + ''.join(str(j + 1) for j in i), qs))
                ctx.check([l[0] for l in rows] == [n for n, _ in want], lambda: f'{what}: rows {[l[0] for l in rows]}, expected {[n for n, _ in want]}')
                for l, (n, qs) in zip(rows, want):
                    ctx.check(len(l) == 1 + len(qs) and np.allclose([float(v) for v in l[1:]], qs, atol=5.1e-5), lambda: f'{what}: {l}, expected {qs}')
                ctx.step()
                ctx.eval(f'{k} {what}')
    ctx.raises(Exception, lambda: m.print_stats_table([1], ['nothing']), 'unknown component')
    ctx.raises(Exception, lambda: m.print_stats_table([1], ['e', 'nothing']), 'unknown component')


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
