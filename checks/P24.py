"""P24: picking points and grains with the mouse and keyboard, and linking grains of maps."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib                   # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg   # noqa: E402
from matplotlib.backend_bases import MouseEvent, KeyEvent      # noqa: E402
from defdap import ebsd              # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402

PROP = 'P24'
LEVEL = 'exploration'
RULE = ('every sequence of real mouse, key and button events up to the depth, sent to the figures the tools open: (homog) picking '
        'homologous points, on data with and without binning; (grain, neigh) clicking every place of a map, within, between and '
        'outside pixels; (link) clicking and linking grains of two and three maps; (origin) setting origins. After every event the '
        'state is compared with a model. Non-trivial: at least one event changes the state')
ASSUMPTIONS = ['pixel (x, y) covers x - 0.5 to x + 0.5 as matplotlib draws it', 'figures are not rendered (drawing is switched off), events are processed by the real canvas']


def worker_init():
    FigureCanvasAgg.draw = lambda self, *a, **k: None


# ---------------------------------------------------------------- events
def at(fig, ax, x, y):
    return ax.transData.transform((x, y))


def press(fig, ax, x, y, button=1, key=None, release=True):
    px, py = at(fig, ax, x, y)
    e = MouseEvent('button_press_event', fig.canvas, px, py, button, key)
    fig.canvas.callbacks.process('button_press_event', e)
    if release:
        e2 = MouseEvent('button_release_event', fig.canvas, px, py, button, key)
        fig.canvas.callbacks.process('button_release_event', e2)
    return e


def key(fig, ax, name):
    px, py = at(fig, ax, .5, .5)
    fig.canvas.callbacks.process('key_press_event', KeyEvent('key_press_event', fig.canvas, name, px, py))


def button(fig, label):
    for a in fig.axes:
        if any(t.get_text() == label for t in a.texts):
            e = press(fig, a, .5, .5)
            assert e.inaxes is a
            return
    raise AssertionError(f'no button {label}')


def outside(fig):
    """Click in the figure, but in no axes."""
    e = MouseEvent('button_press_event', fig.canvas, 1, fig.bbox.height - 1, 3, None)
    assert e.inaxes is None
    fig.canvas.callbacks.process('button_press_event', e)


def offsets(ax, i):
    o = np.ma.filled(np.ma.array(ax.collections[i].get_offsets(), dtype=float), np.nan)
    return [tuple(map(float, p)) for p in o if not np.isnan(p).any()]


# ---------------------------------------------------------------- homologous points
HOMOG = ['right 1.3 2.4', 'right 0.6 0.4', 'right 3.2 -0.3', 'left 2 2', 'shift 2.6 1.1', 'middle 1 1', 'outside', 'on button', 'left', 'shift+right', 'up', 'shift+down', 'down', 'a', 'none', 'save']


def cases(tier):
    out = []
    for start in (0, 2):
        for binning in (1, 2):
            for a in range(len(HOMOG)):
                out.append(dict(kind='homog', start=start, binning=binning, head=a, depth=3 if tier == 'quick' else 4))
    for k in range(12 if tier == 'quick' else 60):
        out.append(dict(kind='grain', k=k))
    for k in range(8 if tier == 'quick' else 60):
        out.append(dict(kind='neigh', k=k))
    for n in (2, 3):
        for a in range(len(LINK)):
            out.append(dict(kind='link', maps=n, head=a, depth=(4 if n == 2 and LINK[a][0] == 'c' else 3) + (tier != 'quick')))
    for k in range(4):
        out.append(dict(kind='wide', k=k))
    out.append(dict(kind='origin', depth=2 if tier == 'quick' else 3))
    return out


def run_homog(ctx, case):
    b = case['binning']
    for rest in itertools.product(range(len(HOMOG)), repeat=case['depth'] - 1):
        seq = [HOMOG[i] for i in (case['head'],) + rest]
        if not any(s.split()[0] in ('right', 'shift') for s in seq):
            continue
        m = ebsd_map((4, 5))
        other = ebsd_map((4, 5))
        if b > 1:
            m.data.add('img', np.arange(4 * b * 5 * b, dtype=float).reshape(4 * b, 5 * b), type='map', order=0, unit='', binning=b)
        pts = [(1, 2), (3, 0)][:case['start']]
        given = list(pts)
        m.frame.set_homog_points(given)
        plot = m.set_homog_point(map_name='img') if b > 1 else m.set_homog_point()
        fig, ax = plot.fig, plot.ax
        sel = None
        changed = False
        for n, ev in enumerate(seq):
            p = ev.split()
            before = (sel, list(pts))
            if p[0] in ('right', 'shift', 'middle') and len(p) == 3 or (p[0] == 'left' and len(p) == 3):
                x, y = float(p[1]), float(p[2])
                press(fig, ax, x, y, {'right': 3, 'left': 1, 'shift': 1, 'middle': 2}[p[0]], 'shift' if p[0] == 'shift' else None)
                if p[0] in ('right', 'shift'):
                    sel = (math.floor(x + .5), math.floor(y + .5))
            elif ev == 'outside':
                outside(fig)
            elif ev == 'on button':
                # press on the save button, but let go of it elsewhere
                press(fig, fig.axes[-1], .5, .5, 3, release=False)
                e = MouseEvent('button_release_event', fig.canvas, 1, fig.bbox.height - 1, 3, None)
                fig.canvas.callbacks.process('button_release_event', e)
            elif ev == 'save':
                button(fig, 'Save point')
                if sel is not None:
                    pts.append((round(sel[0] / b), round(sel[1] / b)))
                    sel = None
            elif ev == 'none':
                key(fig, ax, None)
            else:
                key(fig, ax, ev)
                d = {'left': (-1, 0), 'right': (1, 0), 'up': (0, -1), 'down': (0, 1)}.get(ev.split('+')[-1])
                if d is not None and sel is not None:
                    k = 10 if ev.startswith('shift+') else 1
                    sel = (sel[0] + k * d[0], sel[1] + k * d[1])
            changed |= before != (sel, pts)
            what = lambda: f'{seq[:n + 1]} from {case["start"]} points, binning {b}'
            got = [tuple(q) for q in m.frame.homog_points]
            ctx.check(got == pts, lambda: f'{what()}: points {got}, expected {pts}')
            ctx.check(all(isinstance(v, (int, np.integer)) for q in got for v in q), lambda: f'{what()}: points {got} are not integers')
            o0, o1 = offsets(ax, 0), offsets(ax, 1)
            ctx.check(o0 == [(x * b, y * b) for x, y in pts], lambda: f'{what()}: markers at {o0}, points {pts}')
            ctx.check(o1 == ([sel] if sel else []), lambda: f'{what()}: selected marker at {o1}, expected {sel}')
            ctx.step()
        ctx.check(given == [(1, 2), (3, 0)][:case['start']], f'{seq}: list that was passed in changed')
        ctx.check(list(other.frame.homog_points) == [], f'{seq}: points of another map')
        ctx.state((b, sel, pts))
        ctx.trace()
        ctx.eval(str((case['start'], b, seq)) if changed else None)
        plt.close('all')


def run_wide(ctx, case):
    """Positions, grains and points beyond what a byte can count."""
    k = case['k']
    h, w = (3, 700) if k % 2 else (700, 3)
    if k < 2:
        m = ebsd_map((h, w))
        plot = m.set_homog_point()
        pts = []
        for a, b in ((650, 1), (255, 2), (256, 0), (129, 1), (513, 2)) + tuple(((7 * i) % 690, i % 3) for i in range(30)):
            x, y = (a, b) if w > h else (b, a)
            press(plot.fig, plot.ax, x + .3, y - .2, 3)
            sel = (x, y)
            if a % 2:
                ev = 'shift+right' if w > h else 'shift+down'
                key(plot.fig, plot.ax, ev)
                sel = (x + 10, y) if w > h else (x, y + 10)
            ctx.check(offsets(plot.ax, 1) == [sel], lambda: f'{case}: marker at {offsets(plot.ax, 1)}, expected {sel}')
            button(plot.fig, 'Save point')
            pts.append(sel)
            got = [tuple(q) for q in m.frame.homog_points]
            ctx.check(got == pts and offsets(plot.ax, 0) == pts, lambda: f'{case}: points {got}, expected {pts}')
            ctx.step()
            ctx.eval(f'{case} {sel}')
        # the same points as seen by the transform of a linked map
        plt.close('all')
        return
    n = 150
    ph = 1 + np.indices((2, n)).sum(axis=0) % 2
    ph = (ph if k % 2 else ph.T).astype(np.uint8)
    m = ebsd_map(ph.shape, phase_im=np.ascontiguousarray(ph), kinds=('fcc', 'bcc'))
    m.data.generate('grains', min_grain_size=1)
    gm = np.array(m.data.grains)
    ctx.check(gm.max() > 255, f'{case}: many grains')
    plot = m.locate_grain()
    base = len(plot.ax.images)
    for i in (0, 140, 128, 127, 149, 64):
        for j in (0, 1):
            x, y = (i, j) if k % 2 else (j, i)
            press(plot.fig, plot.ax, x + .2, y - .3)
            sel = m.grains[gm[y, x] - 1]
            ctx.check(m.sel_grain is sel, lambda: f'{case}: click at {x, y} selected {m.sel_grain}, expected {sel}')
            shown(ctx, plot, m, {sel.grain_id: 'white'}, f'{case} click at {x, y}', base)
            ctx.step()
            ctx.eval(f'{case} {x} {y}')
    plt.close('all')


# ---------------------------------------------------------------- grains
def pattern(k, h=4, w=5):
    """A map of several grains: labels 0 (not indexed), 1, 2, 3 (phases)."""
    rnd = [(k * 7919 + i * 104729 + (i * i + 3) * (k + 1)) % 97 for i in range(h * w)]
    bl = [rnd[(y // 2) * w + x // 2] % 4 if (y + x) % 5 else rnd[y * w + x] % 4 for y in range(h) for x in range(w)]
    return np.array(bl, dtype=np.uint8).reshape(h, w)


def phase_map(ph, **kw):
    m = ebsd_map(ph.shape, phase_im=ph, kinds=('fcc', 'bcc', 'hcp'), **kw)
    m.data.generate('grains', min_grain_size=2)
    return m


def colours(img):
    v = np.asarray(img.get_array())
    return img.cmap(img.norm(v))


def shown(ctx, plot, m, want, what, base=1):
    """want: {grain id: colour}; the last image of the plot shows exactly these."""
    ims = plot.ax.images
    if len(ims) <= base:
        ctx.check(not want, f'{what}: no grain is highlighted')
        return
    ctx.check(len(ims) == base + 1, f'{what}: {len(ims)} images')
    rgba = colours(ims[-1])
    gm = np.array(m.data.grains)
    for y, x in np.ndindex(gm.shape):
        g = gm[y, x] - 1
        if g in want:
            ctx.check(rgba[y, x, 3] > 0 and np.allclose(rgba[y, x, :3], matplotlib.colors.to_rgb(want[g])), lambda: f'{what}: pixel {x, y} of grain {g} shown as {rgba[y, x]}, expected {want[g]}')
        else:
            ctx.check(rgba[y, x, 3] == 0, lambda: f'{what}: pixel {x, y} of grain {g} is highlighted')


def same_cell(a, b):
    va = [np.array(next(getattr(c, k) for k in ('_faces', '_vec', '_segments3d', '_offsets3d') if hasattr(c, k)), dtype=float) for c in a.collections]
    vb = [np.array(next(getattr(c, k) for k in ('_faces', '_vec', '_segments3d', '_offsets3d') if hasattr(c, k)), dtype=float) for c in b.collections]
    return len(va) == len(vb) and all(x.shape == y.shape and np.allclose(x[:, :4], y[:, :4]) for x, y in zip(va, vb))     # the rest of a row may be padding


OFF = ((0, 0), (.3, -.4), (-.45, .2), (.45, .45), (-.3, -.45))


def run_grain(ctx, case):
    ph = pattern(case['k'])
    m = phase_map(ph)
    if case['k'] % 3 == 2:
        e = m
        m = dic_map((4, 5))
        m.frame.set_homog_points([(0, 0), (4, 0), (0, 3), (4, 3)])
        e.frame.set_homog_points([(0, 0), (4, 0), (0, 3), (4, 3)])
        m.link_ebsd_map(e, transform_type='affine')
        m.data.generate('grains', algorithm='warp')
        m.set_scale(.1)
        e.calc_grain_av_oris()
    gm = np.array(m.data.grains)
    h, w = gm.shape
    display = case['k'] % 4 == 1
    if display and isinstance(m, ebsd.Map):
        m.calc_grain_av_oris()
    plot = m.locate_grain(display_grain=display)
    fig, ax = plot.fig, plot.ax
    base = len(ax.images)
    sel = m.sel_grain
    ctx.check(sel is None, f'{case}: grain selected before a click')
    n = 0
    for dx, dy in OFF:
        for y, x in np.ndindex(h, w):
            what = f'{case} click at {x + dx, y + dy}'
            e = press(fig, ax, x + dx, y + dy, 1 if n % 3 else 3)
            if e.inaxes is ax and gm[y, x] > 0:
                sel = m.grains[gm[y, x] - 1]
            ctx.check(m.sel_grain is sel, lambda: f'{what}: selected {m.sel_grain}, expected {sel}')
            shown(ctx, plot, m, {} if sel is None else {sel.grain_id: 'white'}, what, base)
            if display and sel is not None:
                ctx.check(m.grain_plot is not None and getattr(m.grain_plot, 'calling_grain', sel) is sel, f'{what}: grain plot of another grain')
                if isinstance(m, ebsd.Map) and n % 5 == 0:
                    # the cell drawn is that of the selected grain
                    want = sel.plot_default()
                    ctx.check(same_cell(m.grain_plot.ax, want.ax), f'{what}: unit cell of another grain')
                    plt.close(want.fig)
            ctx.step()
            n += 1
            ctx.eval(what if gm[y, x] > 0 else None)
    # events elsewhere
    outside(fig)
    ctx.check(m.sel_grain is sel, f'{case}: click outside selects')
    ax.set_xlim(-5, w + 5)
    ax.set_ylim(h + 5, -5)
    for x, y in ((-2, 1), (-1, -1), (w + 1, 0), (1, h + 1), (1, -3), (w, h), (-.6, 0), (w - .45, 0)):
        e = press(fig, ax, x, y)
        ctx.check(e.inaxes is ax, 'harness: click out of the axes')
        ctx.check(m.sel_grain is sel, lambda: f'{case}: click outside of the map at {x, y} selects {m.sel_grain}')
    # a caller's own handler gets the event and selects nothing
    got = []
    p2 = m.locate_grain(click_event=lambda e, p: got.append((e.xdata, e.ydata, p)))
    press(p2.fig, p2.ax, 1.2, 1.1)
    ctx.check(len(got) == 1 and abs(got[0][0] - 1.2) < 1e-6 and abs(got[0][1] - 1.1) < 1e-6 and got[0][2] is p2 and m.sel_grain is sel, f'{case}: own handler')
    plt.close('all')


def run_neigh(ctx, case):
    ph = pattern(case['k'] + 100, 6, 7)
    m = phase_map(ph)
    m.build_neighbour_network()
    gm = np.array(m.data.grains)
    plot = m.display_neighbours()
    sel = None
    for y, x in np.ndindex(gm.shape):
        press(plot.fig, plot.ax, x + .2, y - .2)
        if gm[y, x] > 0:
            sel = m[gm[y, x] - 1]
        what = f'{case} click at {x, y}'
        ctx.check(m.sel_grain is sel, f'{what}: selected {m.sel_grain}')
        want = {}
        if sel is not None and sel in m.neighbour_network:
            first = set(m.neighbour_network.neighbors(sel))
            second = set().union(*(set(m.neighbour_network.neighbors(g)) for g in first)) if first else set()
            want = {g.grain_id: 'green' for g in second}
            want.update({g.grain_id: 'yellow' for g in first})
            want[sel.grain_id] = 'white'
        shown(ctx, plot, m, want, what)
        ctx.step()
        ctx.eval(what if len(want) > 1 else None)
    s = m.sel_grain
    outside(plot.fig)
    ctx.check(m.sel_grain is s, f'{case}: click outside selects')
    plt.close('all')


# ---------------------------------------------------------------- linking
PH = [np.array([[1, 1, 2, 2, 0], [1, 1, 2, 2, 3], [3, 3, 2, 2, 3], [3, 3, 1, 1, 3]], dtype=np.uint8),
      np.array([[1, 1, 1, 1, 2, 2, 2, 2], [1, 1, 1, 1, 2, 2, 2, 2], [3, 3, 3, 0, 2, 2, 2, 2], [3, 3, 3, 3, 1, 1, 3, 3], [3, 3, 3, 3, 1, 1, 3, 3]], dtype=np.uint8),
      np.array([[1, 2, 2], [1, 2, 2], [3, 3, 3]], dtype=np.uint8)]
STEP = [1., .5, 2.]
ORG = [(1, 1), (2, 1), (0, 0)]
LINK = ['c0 0.8 0.7', 'c0 2.7 2.3', 'c0 4.1 3.1', 'c0 4.1 0.1', 'c1 5 4', 'c1 1.2 0', 'b0', 'b1', 'x0', 'reset']


def run_link(ctx, case):
    n = case['maps']
    maps0 = [phase_map(PH[i], step_size=STEP[i]) for i in range(n)]
    gms = [np.array(m.data.grains) for m in maps0]
    # pairs that were linked before, up to three links: chosen and linked one after the other
    pairs = [(LINK[a], 'b0') for a in range(4)]
    longer = [list(x) for k in (2, 3) for x in itertools.product(pairs, repeat=k)] if case['head'] == 0 else []
    for seq in [[LINK[i] for i in (case['head'],) + rest] for rest in itertools.product(range(len(LINK)), repeat=case['depth'] - 1)] + \
            [[ev for pair in x for ev in pair] for x in longer]:
        if not any(s[0] == 'b' for s in seq) or seq[-1][0] == 'x':
            continue
        for i, m in enumerate(maps0):
            m.sel_grain = None
            m.origin = ORG[i]
        L = ebsd.Linker(maps0)
        L.start_linking()
        sel = [None] * n
        links = []
        for j, ev in enumerate(seq):
            what = lambda: f'{n} maps, {seq[:j + 1]}'
            if ev[0] == 'c':
                p = ev.split()
                i, x, y = int(ev[1]), float(p[1]), float(p[2])
                pl = L.plots[i]
                press(pl.fig, pl.ax, x, y)
                px, py = math.floor(x + .5), math.floor(y + .5)
                if gms[i][py, px] > 0:
                    sel[i] = int(gms[i][py, px]) - 1
                if i == 0:
                    for t in range(1, n):
                        tx = math.floor((x - ORG[0][0]) * STEP[0] / STEP[t] + ORG[t][0] + .5)
                        ty = math.floor((y - ORG[0][1]) * STEP[0] / STEP[t] + ORG[t][1] + .5)
                        hh, ww = gms[t].shape
                        if 0 <= tx < ww and 0 <= ty < hh and gms[t][ty, tx] > 0:
                            sel[t] = int(gms[t][ty, tx]) - 1
            elif ev[0] == 'b':
                pl = L.plots[int(ev[1])]
                if None in sel:
                    try:
                        with_log(lambda: button(pl.fig, 'Make link'))
                    except Exception:   # noqa: the tool says that no grain is selected
                        pass
                    pl.fig.canvas.mouse_grabber = None
                else:
                    button(pl.fig, 'Make link')
                    if tuple(sel) not in links:
                        links.append(tuple(sel))
            elif ev[0] == 'x':
                outside(L.plots[0].fig)
            else:
                L.reset_links()
                links = []
            got = [m.sel_grain.grain_id if m.sel_grain is not None else None for m in maps0]
            ctx.check(got == sel, lambda: f'{what()}: selected {got}, expected {sel}')
            ctx.check([tuple(map(int, k)) for k in L.links] == links, lambda: f'{what()}: links {L.links}, expected {links}')
            ctx.step()
        for i, m in enumerate(maps0):
            shown(ctx, L.plots[i], m, {} if sel[i] is None else {sel[i]: 'white'}, f'{n} maps {seq}: map {i}')
        ctx.state((n, sel, links))
        ctx.trace()
        ctx.eval(str((n, seq)) if links else None)
        plt.close('all')
        if links and len(seq) == case['depth'] and seq[-1] == LINK[6]:
            analyse(ctx, maps0, L, links, f'{n} maps {seq}')


def with_log(fn):
    fn()


def analyse(ctx, maps, L, links, what):
    """Reference orientations of linked grains come from the first map."""
    for m in maps:
        m.calc_grain_av_oris()
    for g in maps[0]:
        g.ref_ori = type(g.ref_ori).from_axis_angle(np.array([1., 2, 3]), .1 * (g.grain_id + 1))
    old = [[g.ref_ori for g in m] for m in maps]
    L.set_ref_ori_from_master()
    for i, m in enumerate(maps):
        for g in m:
            src = [k for k in links if k[i] == g.grain_id]
            want = old[i][g.grain_id] if i == 0 or not src else old[0][src[-1][0]]
            ctx.check(np.array_equal(g.ref_ori.quat_coef, want.quat_coef), f'{what}: reference orientation of grain {g.grain_id} in map {i}')
    L.update_misori()
    for i, m in enumerate(maps[1:], start=1):
        for k in links:
            g = m[k[i]]
            sym = g.phase.crystal_structure.name
            w = [g.ref_ori.mis_ori(m.data.orientation[p[1], p[0]], sym) for p in g.data.point]
            ctx.check(np.allclose(g.mis_ori_list, w), f'{what}: misorientation of grain {g.grain_id} in map {i}')
            g.mis_ori_axis_list = None
    L.update_misori(calc_axis=True)
    for i, m in enumerate(maps[1:], start=1):
        for k in links:
            g = m[k[i]]
            ctx.check(g.mis_ori_axis_list is not None and len(g.mis_ori_axis_list) == len(g.data.point) and
                      np.allclose([np.linalg.norm(v) for v in g.mis_ori_axis_list], [2 * math.acos(min(1, c)) for c in g.mis_ori_list], atol=1e-5),
                      f'{what}: misorientation axes of grain {g.grain_id} in map {i}')


def run_origin(ctx, case):
    spots = [(0, 0.2, 1.7), (1, 3.4, 2.6), (0, 3.9, 0), (1, -.4, 0), (0, None, None)]
    for seq in itertools.product(spots, repeat=case['depth']):
        maps = [ebsd_map((4, 5)), ebsd_map((6, 7))]
        L = ebsd.Linker(maps)
        ctx.check([tuple(m.origin) for m in maps] == [(0, 0), (0, 0)], 'origins at the start')
        L.set_origin()
        org = [(0, 0), (0, 0)]
        for i, x, y in seq:
            p = L.plots[i]
            if x is None:
                outside(p.fig)
            else:
                press(p.fig, p.ax, x, y)
                org[i] = (math.floor(x + .5), math.floor(y + .5))
            ctx.check([tuple(m.origin) for m in maps] == org, lambda: f'{seq}: origins {[m.origin for m in maps]}, expected {org}')
            for k in range(2):
                ctx.check(offsets(L.plots[k].ax, 0) == [org[k]], f'{seq}: marker of map {k}')
            ctx.step()
        ctx.eval(str(seq))
        plt.close('all')


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
