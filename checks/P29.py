"""P29: pole projections place every direction correctly."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib as mpl            # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg   # noqa: E402
import defdap                        # noqa: E402
from defdap.quat import Quat         # noqa: E402
from defdap.plotting import PolePlot  # noqa: E402
from mc.fixtures import ebsd_map     # noqa: E402

PROP = 'P29'
LEVEL = 'exploration'
RULE = ('(proj) every integer direction in the bound and every polar angle of a grid, for each projection, as numbers and arrays; '
        '(names) every way of naming a projection, under every default; (axes) the outline, symmetric lines and labels of the plots of '
        'every crystal symmetry, projection and convention; (ipf) every orientation of a grid, every sample direction, symmetry, '
        'projection, marker colouring and container; (maps) plots of maps and grains. Non-trivial: not the pole itself')
ASSUMPTIONS = ['plots have x to the bottom and y to the right (azimuth turned by -90 degrees), as the documented triangles']

PROJ = ['stereographic', 'lambert']


def worker_init():
    FigureCanvasAgg.draw = lambda self, *a, **k: None


# ---------------------------------------------------------------- references
def project(v, proj):
    """Cartesian formulas, no angles."""
    x, y, z = (c / math.sqrt(sum(k * k for k in v)) for c in v)
    if proj == 'stereographic':
        f = 1 / (1 + z)
    else:
        f = math.sqrt(2 / (1 + z))
    return f * y, -f * x


def unproject(p, proj):
    r2 = p[0] ** 2 + p[1] ** 2
    if proj == 'stereographic':
        z = (1 - r2) / (1 + r2)
        f = 1 + z
    else:
        z = 1 - r2 / 2
        f = math.sqrt(max(0, (1 + z) / 2))
    return np.array([-p[1] * f, p[0] * f, z])


def hex_dir(u):
    """Miller-Bravais direction in orthogonal axes (a2 along y)."""
    a1, a2 = np.array([math.sqrt(3) / 2, -.5, 0]), np.array([0, 1., 0])
    return u[0] * a1 + u[1] * a2 - u[2] * (a1 + a2) + u[3] * np.array([0, 0, .8165])


def equivalent(a, b, sym):
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    if sym == 'cubic':
        return np.allclose(sorted(abs(a)), sorted(abs(b)), atol=1e-6)
    if abs(abs(a[2]) - abs(b[2])) > 1e-6:
        return False
    ra, rb = math.hypot(a[0], a[1]), math.hypot(b[0], b[1])
    if ra < 1e-6:
        return True

    def fold(t):
        t = math.degrees(t) % 60
        return min(t, 60 - t)
    return abs(fold(math.atan2(a[1], a[0])) - fold(math.atan2(b[1], b[0]))) < 1e-4 / max(ra, 1e-3) + 1e-4


def in_triangle(v, sym, conv):
    v = v / np.linalg.norm(v)
    e = 1e-6
    if sym == 'cubic':
        x, y, z = v
        return -e <= -x <= y + e and y <= z + e
    if v[2] < -e:
        return False
    if math.hypot(v[0], v[1]) < 1e-6:
        return True
    t = math.degrees(math.atan2(v[1], v[0])) - 90      # from the a2 axis
    return (-30 - 1e-4 <= t <= 1e-4) if conv == 'down' else (-1e-4 <= t <= 30 + 1e-4)


def matrix(p1, P, p2):
    c1, s1, c, s, c2, s2 = math.cos(p1), math.sin(p1), math.cos(P), math.sin(P), math.cos(p2), math.sin(p2)
    return np.array([[c1 * c2 - s1 * s2 * c, s1 * c2 + c1 * s2 * c, s2 * s], [-c1 * s2 - s1 * c2 * c, -s1 * s2 + c1 * c2 * c, c2 * s], [s1 * s, -c1 * s, c]])


def offs(sc):
    return np.ma.filled(np.ma.array(sc.get_offsets(), dtype=float), np.nan).reshape(-1, 2)


# ---------------------------------------------------------------- cases
def cases(tier):
    q = tier == 'quick'
    out = []
    for proj in PROJ:
        for a in range(-4, 5):
            out.append(dict(kind='proj', proj=proj, x=a, n=4 if q else 7))
    for d in ('stereographic', 'Lambert', 'equal area', 'Stereo', 'equal angle'):
        out.append(dict(kind='names', default=d))
    for sym in ('cubic', 'hexagonal'):
        for conv in ('up', 'down'):
            for proj in PROJ:
                for k in range(6):
                    out.append(dict(kind='axes', sym=sym, conv=conv, proj=proj, k=k, n=2 if q else 3))
                for p1 in range(8 if q else 18):
                    out.append(dict(kind='ipf', sym=sym, conv=conv, proj=proj, p1=p1, n=8 if q else 18))
    for k in range(6 if q else 18):
        out.append(dict(kind='maps', k=k))
    return out


def run(case, ctx):
    conv = defdap.defaults['ipf_triangle_convention']
    pole = defdap.defaults['pole_projection']
    try:
        if 'conv' in case:
            defdap.defaults['ipf_triangle_convention'] = case['conv']
        globals()['run_' + case['kind']](ctx, case)
    finally:
        defdap.defaults['ipf_triangle_convention'] = conv
        defdap.defaults['pole_projection'] = pole


def fn(proj):
    return {'stereographic': PolePlot.stereo_project, 'lambert': PolePlot.lambert_project}[proj]


def run_proj(ctx, case):
    f, n = fn(case['proj']), case['n']
    if abs(case['x']) > n:
        return
    vs = [(case['x'], y, z) for y in range(-n, n + 1) for z in range(-n, n + 1) if (case['x'], y, z) != (0, 0, 0)]
    lim = {'stereographic': 1, 'lambert': math.sqrt(2)}[case['proj']]
    keep = []
    for v in vs:
        if v[0] == v[1] == 0 and v[2] < 0:
            continue            # the projection of the opposite pole is not defined
        want = project(v, case['proj'])
        got = f(*[float(c) for c in v])
        ctx.check(np.allclose(got, want, atol=1e-7, rtol=1e-7), lambda: f'{case["proj"]} of {v}: {got}, expected {want}')
        r = math.hypot(*got)
        ctx.check((r <= lim + 1e-7) == (v[2] >= 0) or v[2] == 0, lambda: f'{case["proj"]} of {v}: radius {r}')
        if v[2] > 0:
            alpha = math.acos(v[2] / math.sqrt(sum(c * c for c in v)))
            beta = math.atan2(v[1], v[0])
            for turn in (0, 2 * math.pi, -2 * math.pi):
                ctx.check(np.allclose(f(alpha, beta + turn), want, atol=1e-7), lambda: f'{case["proj"]} of angles {alpha, beta + turn}')
        keep.append(v)
        ctx.step()
        ctx.eval(str((case['proj'], v)) if v[:2] != (0, 0) else None)
    arr = np.array(keep, dtype=float)
    cp = arr.copy()
    x, y = f(arr[:, 0], arr[:, 1], arr[:, 2])
    want = np.array([project(v, case['proj']) for v in keep])
    ctx.check(np.allclose(np.transpose([x, y]), want, atol=1e-7) and np.array_equal(arr, cp), f'{case}: array of directions')
    ctx.raises(Exception, lambda: f(1.), f'{case}: one argument')
    ctx.raises(Exception, lambda: f(1., 1., 1., 1.), f'{case}: four arguments')


def run_names(ctx, case):
    defdap.defaults['pole_projection'] = case['default']
    dflt = 'stereographic' if case['default'][0] in 'sS' or 'angle' in case['default'] else 'lambert'
    own = lambda *a: (.25, .5)
    names = {None: dflt, 'stereographic': PROJ[0], 'Stereographic': PROJ[0], 'stereo': PROJ[0], 'equal angle': PROJ[0], 'Equal Angle': PROJ[0], 'EqualAngle': PROJ[0],
             'lambert': PROJ[1], 'Lambert': PROJ[1], 'equal area': PROJ[1], 'Equal Area': PROJ[1], 'equalarea': PROJ[1], 'nonsense': dflt, 7: dflt, own: own}
    v = (-1., 2., 3.)
    for name, want in names.items():
        for sym in ('cubic', 'hexagonal'):
            if name is own:
                p = PolePlot('IPF', sym, projection=name)
                ctx.check(p.projection is own, 'own projection')
                continue
            p = PolePlot('IPF', sym, projection=name)
            ctx.check(np.allclose(p.projection(*v), project(v, want)), f'{name} with default {case["default"]}: not {want}')
            p.add_points(np.array([.4]), np.array([1.9]))
            d = (math.sin(.4) * math.cos(1.9), math.sin(.4) * math.sin(1.9), math.cos(.4))
            ctx.check(np.allclose(offs(p.img_layers[0]), [project(d, want)]), f'{name} with default {case["default"]}: point')
            ctx.step()
            ctx.eval(str((case['default'], name, sym)))
            plt.close('all')
    ctx.raises(NotImplementedError, lambda: PolePlot('IPF', 'monoclinic', projection='stereo'), 'unknown symmetry')
    defdap.defaults['pole_projection'] = 'other'
    ctx.raises(ValueError, lambda: PolePlot('IPF', 'cubic'), 'unknown default projection')


CORNERS = {('cubic', 'up'): ['001', '011', '\\bar{1}11'], ('cubic', 'down'): ['001', '011', '\\bar{1}11']}
CUB = [(0, 0, 1), (0, 1, 1), (-1, 1, 1)]
HEX = {'up': [(0, 0, 0, 1), (-1, 2, -1, 0), (-1, 1, 0, 0)], 'down': [(0, 0, 0, 1), (-1, 2, -1, 0), (0, 1, -1, 0)]}
LINES = {'cubic': [((0, 0, 1), (1, 1, 1)), ((0, 0, 1), (1, 0, 1)), ((1, 0, 2), (1, 2, 3)), ((0, 0, 1), (0, 1, 1)), ((1, 1, 1), (1, 0, 1)), ((0, 1, 0), (0, 0, 1))],
         'hexagonal': [((0, 0, 0, 1), (-1, 2, -1, 0)), ((0, 0, 0, 1), (0, 1, -1, 0)), ((-1, 2, -1, 0), (0, 1, -1, 0)), ((-1, 2, -1, 3), (0, 0, 0, 1)), ((1, 0, -1, 2), (1, 1, -2, 2)), ((1, 0, -1, 0), (1, 0, -1, 1))]}


def cart(u, sym):
    return np.array(u, dtype=float) if sym == 'cubic' else hex_dir(u)


def is_line(ctx, ln, a, b, proj, what, either=False):
    """The points of a drawn line are the great circle from a to b."""
    pts = [unproject(p, proj) for p in np.transpose(ln.get_data())]
    n = np.cross(a, b)
    n = n / np.linalg.norm(n)
    ok = all(abs(float(p @ n)) < 1e-6 for p in pts)
    ends = [a / np.linalg.norm(a), b / np.linalg.norm(b)]
    ok &= np.allclose(pts[0], ends[0], atol=1e-6) and np.allclose(pts[-1], ends[1], atol=1e-6)
    tot = math.acos(max(-1, min(1, float(ends[0] @ ends[1]))))
    run_ = sum(math.acos(max(-1, min(1, float(p @ q)))) for p, q in zip(pts, pts[1:]))
    ok &= abs(tot - run_) < 1e-4
    return ok


def run_axes(ctx, case):
    sym, conv, proj = case['sym'], case['conv'], case['proj']
    p = PolePlot('IPF', sym, projection=proj)
    corners = CUB if sym == 'cubic' else HEX[conv]
    C = [cart(c, sym) for c in corners]
    what = f'{sym} {conv} {proj}'
    want = [(C[0], C[1]), (C[0], C[2]), (C[1], C[2])]
    ctx.check(len(p.ax.lines) == 3, f'{what}: {len(p.ax.lines)} lines')
    for a, b in want:
        ctx.check(any(is_line(ctx, l, a, b, proj, what) or is_line(ctx, l, b, a, proj, what) for l in p.ax.lines), lambda: f'{what}: no line from {a} to {b}')
    ctx.check(len(p.ax.texts) == 3, f'{what}: labels')
    for u, c in zip(corners, C):
        xy = project(c, proj)
        lab = ''.join(str(abs(i)) for i in u)
        near = [t for t in p.ax.texts if ''.join(ch for ch in t.get_text() if ch.isdigit()) == lab and np.allclose(t.get_position(), xy, atol=.0125)]
        ctx.check(len(near) == 1, lambda: f'{what}: label {lab} at {xy}: {[(t.get_text(), t.get_position()) for t in p.ax.texts]}')
    # lines that were asked for, and their symmetric ones
    a, b = LINES[sym][case['k']]
    A, B = cart(a, sym), cart(b, sym)
    n0 = len(p.ax.lines)
    p.add_line(a, b, res=25, c='b')
    ctx.check(len(p.ax.lines) == n0 + 1 and len(p.ax.lines[-1].get_xdata()) == 25 and is_line(ctx, p.ax.lines[-1], A, B, proj, what), f'{what}: line {a} to {b}')
    n0 = len(p.ax.lines)
    p.add_line(a, b, plot_syms=True, res=25)
    new = p.ax.lines[n0:]
    ns = {'cubic': 24, 'hexagonal': 12}[sym]
    ctx.check(len(new) == ns, f'{what}: {len(new)} symmetric lines, expected {ns}')
    for l in new:
        pts = [unproject(q, proj) for q in np.transpose(l.get_data())]
        ctx.check(equivalent(pts[0], A, sym) and equivalent(pts[-1], B, sym), lambda: f'{what}: ends {pts[0], pts[-1]} of a line symmetric to {a} to {b}')
        ctx.check(is_line(ctx, l, pts[0], pts[-1], proj, what) and abs(float(pts[0] @ pts[-1]) - float(A @ B) / np.linalg.norm(A) / np.linalg.norm(B)) < 1e-6,
                  lambda: f'{what}: line from {pts[0]} to {pts[-1]} is not one symmetric to {a} to {b}')
        ctx.check(min(q[2] for q in pts) > -1e-6, lambda: f'{what}: line from {pts[0]} to {pts[-1]} leaves the upper hemisphere')
    # labels of points
    n0 = len(p.ax.texts)
    p.label_point(a, label='own', pad_x=.1, pad_y=.2)
    t = p.ax.texts[n0]
    ctx.check(len(p.ax.texts) == n0 + 1 and t.get_text() == 'own' and np.allclose(t.get_position(), np.add(project(A, proj), (.1, .2))), f'{what}: label at {a}')
    n0 = len(p.ax.texts)
    p.label_point(a, plot_syms=True)
    new = p.ax.texts[n0:]
    ctx.check(len(new) == ns, f'{what}: {len(new)} symmetric labels')
    for t in new:
        v = unproject(t.get_position(), proj)
        ctx.check(equivalent(v, A, sym), lambda: f'{what}: label of a symmetric point of {a} at {v}')
        u = indices(t.get_text())
        # labels of points on the equator may name the opposite direction
        w = cart(u, sym)
        w = w / np.linalg.norm(w)
        ctx.check(np.allclose(w, v, atol=1e-5) or (abs(v[2]) < 1e-6 and np.allclose(w, -v, atol=1e-5)), lambda: f'{what}: label {t.get_text()} at {v}, expected at {w}')
    ctx.step(2 * ns)
    ctx.eval(str(case))


def indices(txt):
    out, neg, i = [], False, 0
    while i < len(txt):
        if txt.startswith('bar', i) or txt.startswith('overline', i):
            neg = True
        if txt[i].isdigit():
            out.append(-int(txt[i]) if neg else int(txt[i]))
            neg = False
        i += 1
    return out


DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 2, 3), (-1, 1, 2)]
FORMS = [None, 'red', ['blue'], ['red', 'blue']]


def run_ipf(ctx, case):
    sym, conv, proj, n = case['sym'], case['conv'], case['proj'], case['n']
    p1 = case['p1'] * 2 * math.pi / n + .05
    eul = [(p1, P * math.pi / n + .02 * (P + k), k * 2 * math.pi / n + .11) for P in range(n) for k in range(n)] + [(p1, 0., 0.), (0., 0., 0.), (p1, math.pi / 2, 0.)]
    quats = [Quat.from_euler_angles(*e) for e in eul]
    for di, d in enumerate(DIRS):
        d = np.array(d, dtype=float)
        plot = Quat.plot_ipf(quats, d, sym, projection=proj)
        what = f'{sym} {conv} {proj} direction {d.tolist()}'
        o = offs(plot.img_layers[0])
        ctx.check(len(o) == len(quats) and len(plot.img_layers) == 1, f'{what}: {len(o)} points')
        for e, xy in zip(eul, o):
            v = unproject(xy, proj)
            w = matrix(*e) @ d
            ctx.check(equivalent(v, w, sym), lambda: f'{what}: orientation {e} drawn at {xy}, that is direction {v}, expected one equivalent to {w}')
            ctx.check(in_triangle(v, sym, conv), lambda: f'{what}: orientation {e} drawn at {v}, outside of the triangle')
            ctx.step()
            ctx.eval(str((what, e)))
        # the same points for arrays, single orientations, on the same plot and with any marker
        same = Quat.plot_ipf(np.array(quats, dtype=object), d, sym, projection=proj, c=np.arange(len(quats)), marker='o', plot=plot)
        ctx.check(same is plot and len(plot.img_layers) == 2 and np.allclose(offs(plot.img_layers[1]), o), f'{what}: array on an existing plot')
        ctx.check(np.array_equal(plot.img_layers[1].get_array(), np.arange(len(quats))), f'{what}: values')
        for form in FORMS:
            p = quats[di].plot_ipf(d, sym, projection=proj, marker_colour=form)
            k = 2 if form and len(form) == 2 else 1
            ctx.check(len(p.img_layers) == k and all(np.allclose(offs(l), o[di:di + 1]) for l in p.img_layers), f'{what}: one orientation with marker {form}')
            if form:
                cols = [form] if isinstance(form, str) else form
                for l, c in zip(p.img_layers, cols):
                    fc = list(l.get_facecolor()) + list(l.get_edgecolor())
                    ctx.check(any(np.allclose(x[:3], mpl.colors.to_rgb(c)) for x in fc), f'{what}: colour of marker {form}')
            plt.close(p.fig)
            # the size that was asked for, however it is given
            if k == 1:
                p = quats[di].plot_ipf(d, sym, projection=proj, marker_colour=form, marker_size=90.)
                ctx.check(np.allclose(p.img_layers[0].get_sizes(), 90.), f'{what}: size of marker {form}')
                plt.close(p.fig)
                p = quats[di].plot_ipf(d, sym, projection=proj, marker_colour=form, s=70.)
                ctx.check(np.allclose(p.img_layers[0].get_sizes(), 70.), f'{what}: size of marker {form} as for matplotlib')
                plt.close(p.fig)
        # sizes and colours that differ, their legend and colour bar; another axes is the current one
        fig, axs = plt.subplots(1, 2)
        sizes = 20. * (1 + np.arange(len(quats)))
        p = Quat.plot_ipf(quats, d, sym, projection=proj, fig=fig, ax=axs[0], marker_size=sizes, c=np.arange(len(quats)) / 7.)
        ctx.check(p.ax is axs[0] and not axs[1].collections, f'{what}: axes asked for')
        ctx.check(np.allclose(p.img_layers[0].get_sizes(), sizes), f'{what}: size of each marker')
        for scaling in 1, 4.:
            p.add_legend(label='area', number=4, scaling=scaling)
            leg = axs[0].get_legend()
            ctx.check(leg is not None and axs[1].get_legend() is None and leg.get_title().get_text() == 'area', f'{what}: legend of the sizes')
            if leg is not None:
                for h, t in zip(leg.legend_handles, leg.get_texts()):
                    num = float(''.join(ch for ch in t.get_text() if ch.isdigit() or ch == '.'))
                    ctx.check(sizes.min() / scaling - 1e-6 <= num <= sizes.max() / scaling + 1e-6 and np.isclose(h.get_markersize() ** 2, num * scaling, rtol=1e-3),
                              lambda: f'{what}: legend {t.get_text()} of a marker of area {h.get_markersize() ** 2} with scaling {scaling}')
        # legends and colour bars of a second layer of the same plot
        p = Quat.plot_ipf(quats, d, sym, projection=proj, plot=p, marker_size=sizes + 1000., c=np.arange(len(quats)) + 50.)
        p.add_legend(label='second', number=3, layer=1)
        leg = axs[0].get_legend()
        ctx.check(leg is not None and leg.get_title().get_text() == 'second' and
                  all(1000 <= h.get_markersize() ** 2 <= sizes.max() + 1001 for h in leg.legend_handles), f'{what}: legend of the second layer')
        p.add_colour_bar('other', layer=1)
        ctx.check(p.colour_bar.mappable is p.img_layers[1] and p.colour_bar.ax.get_ylabel() == 'other', f'{what}: colour bar of the second layer')
        p.add_colour_bar('value')
        ctx.check(p.colour_bar.mappable is p.img_layers[0] and p.colour_bar.ax.get_ylabel() == 'value' and p.colour_bar.ax.figure is fig
                  and np.allclose((p.colour_bar.vmin, p.colour_bar.vmax), (0, (len(quats) - 1) / 7.)), f'{what}: colour bar')
        plt.close(fig)
        p = Quat.plot_ipf(quats, d, sym, projection=proj, c=np.arange(len(quats)) / 7., plot_colour_bar=True, clabel='asked for', vmin=-1, vmax=2)
        ctx.check(p.colour_bar is not None and p.colour_bar.mappable is p.img_layers[0] and p.colour_bar.ax.get_ylabel() == 'asked for' and np.allclose((p.colour_bar.vmin, p.colour_bar.vmax), (-1, 2)),
                  f'{what}: colour bar asked for')
        ctx.check(Quat.plot_ipf(quats, d, sym, projection=proj).colour_bar is None, f'{what}: colour bar not asked for')
        ctx.raises(Exception, lambda: quats[0].plot_ipf(d, sym, projection=proj, marker_colour=['r', 'g', 'b']), f'{what}: three colours')
        plt.close('all')


def run_maps(ctx, case):
    k = case['k']
    sym, kinds = [('cubic', ('fcc', 'hcp')), ('hexagonal', ('hcp', 'bcc')), ('cubic', ('bcc',))][k % 3]
    lab = np.array([[1, 1, 2], [3, 3, 2], [3, 4, 4]]) if k % 2 else np.array([[1, 2, 2, 2], [1, 3, 3, 4]])
    eu = np.zeros((3,) + lab.shape)
    for i in range(1, 5):
        for j, base in enumerate((.3, .2, .7)):
            eu[j][lab == i] = base * i * (1 + .1 * k)
    # spread inside the grains
    eu[0] += np.arange(lab.size).reshape(lab.shape) * .002
    # all grains have the primary phase
    m = ebsd_map(lab.shape, euler=eu, phase_im=np.ones(lab.shape, dtype=np.uint8), kinds=kinds)
    m.data.generate('grain_boundaries', misori_tol=3) if False else None
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_av_oris()
    for d in DIRS:
        d = np.array(d, dtype=float)
        for proj in PROJ:
            for ids in (-1, [0], list(range(len(m)))[::-1], 1):
                use = list(range(len(m))) if ids == -1 else [ids] if isinstance(ids, int) else ids
                vals = [v * 1.5 + 1 for v in use]
                what = f'{sym} direction {d.tolist()} {proj} grains {ids}'
                p = m.plot_grain_data_ipf(d, grain_data=vals, grain_ids=ids, projection=proj)
                o = offs(p.img_layers[0])
                ref = Quat.plot_ipf([m[i].ref_ori for i in use], d, sym, projection=proj)
                ctx.check(np.allclose(o, offs(ref.img_layers[0])), f'{what}: points')
                ctx.check(np.allclose(p.img_layers[0].get_array(), vals), f'{what}: values')
                img = np.zeros(lab.shape)
                for i in range(len(m)):
                    for x, y in m[i].data.point:
                        img[y, x] = i * 1.5 + 1
                p = m.plot_grain_data_ipf(d, map_data=img, grain_ids=ids, projection=proj)
                ctx.check(np.allclose(offs(p.img_layers[0]), o) and np.allclose(p.img_layers[0].get_array(), vals), f'{what}: average of map data')
                ctx.raises(Exception, lambda: m.plot_grain_data_ipf(d, grain_data=vals + [1], grain_ids=ids), f'{what}: too many values')
                plt.close('all')
                ctx.step()
                ctx.eval(what)
            for g in m:
                p = g.plot_ref_ori(d, projection=proj)
                v = unproject(offs(p.img_layers[0])[0], proj)
                e = g.ref_ori.euler_angles()
                ctx.check(equivalent(v, matrix(*e) @ d, sym), f'{sym} {d.tolist()}: mean of grain {g.grain_id} at {v}')
                p = g.plot_ori_spread(d, projection=proj)
                o = offs(p.img_layers[0])
                ctx.check(len(o) == len(g.data.point), f'{sym}: spread of grain {g.grain_id} with {len(o)} points')
                for xy, (x, y) in zip(o, g.data.point):
                    v = unproject(xy, proj)
                    ctx.check(equivalent(v, matrix(*eu[:, y, x]) @ d, sym), f'{sym} {d.tolist()} {proj}: pixel {x, y} of grain {g.grain_id} drawn at {v}')
                ctx.step()
                ctx.eval(f'{k} {d.tolist()} {proj} {g.grain_id}')
                plt.close('all')


if __name__ == '__main__':
    check.main(globals())
