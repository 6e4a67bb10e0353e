"""P26: map plots show the chosen data, boundaries and grains where they are."""
import copy
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib as mpl            # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg   # noqa: E402
from matplotlib_scalebar.scalebar import ScaleBar              # noqa: E402
from defdap import ebsd, plotting    # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402

PROP = 'P26'
LEVEL = 'model_checking'
RULE = ('(layers) every sequence of operations that add, replace and clear layers of a map plot up to the depth, in lockstep with a model '
        'of what each layer shows; (high) every ordered selection of grains with every list of colours, (arrows) every sequence of arrows up to the depth; (many) up to 289 grains around the sizes of one byte; (gbs) boundaries of maps with '
        'every pattern of two labels, as image and lines; (create) every combination of the options of a plot, for EBSD and HRDIC '
        'maps and grains; (traces) slip traces of every grain in every crystal structure')
ASSUMPTIONS = ['figures are not rendered; the artists that matplotlib would render are inspected']


def worker_init():
    FigureCanvasAgg.draw = lambda self, *a, **k: None


LAB = np.array([[1, 1, 2, 2, 0], [1, 3, 3, 2, 4], [5, 3, 3, 4, 4], [5, 5, 0, 4, 1]], dtype=int)


def grain_map(lab=LAB, kinds=('fcc', 'hcp')):
    """EBSD map with a grain for each connected region of equal label (0: not indexed)."""
    eu = np.zeros((3,) + lab.shape)
    eu[0] = lab * .31
    eu[1] = lab * .17
    ph = np.where(lab == 0, 0, np.where(lab == 4, 2, 1) if len(kinds) > 1 else 1).astype(np.uint8)
    m = ebsd_map(lab.shape, euler=eu, phase_im=ph, kinds=kinds)
    m.data.generate('grains', min_grain_size=1)
    return m


def rgba(img):
    return img.cmap(img.norm(np.asarray(img.get_array())))


def colour_close(got, want):
    return np.allclose(got, mpl.colors.to_rgba(want), atol=.02)


# ---------------------------------------------------------------- expectations of layers
def check_base(ctx, img, data, what):
    ctx.check(np.array_equal(np.ma.filled(np.ma.array(img.get_array(), dtype=float), np.nan), data, equal_nan=True), f'{what}: base layer does not hold the data')
    h, w = data.shape[:2]
    ext = img.get_extent()
    ctx.check(tuple(ext) == (-.5, w - .5, h - .5, -.5), f'{what}: layer drawn at {ext}')


def check_high(ctx, img, m, ids, cols, alpha, what):
    """Later entries use the last colour when there are fewer colours than grains."""
    gm = np.array(m.data.grains) - 1
    v = rgba(img)
    want = np.zeros(gm.shape + (4,))
    for i, g in enumerate(ids):
        want[gm == g] = mpl.colors.to_rgba(cols[min(i, len(cols) - 1)])[:3] + (alpha,)
    on = want[..., 3] > 0
    ctx.check(v.shape == want.shape and np.array_equal(v[..., 3] > 0, on), lambda: f'{what}: highlighted pixels {v[..., 3]}, expected {on}')
    if v.shape == want.shape:
        ctx.check(np.allclose(v[on], want[on], atol=1e-6), lambda: f'{what}: highlight colours {v[on]}, expected {want[on]}')
    check_extent(ctx, img, gm.shape, what)


def check_extent(ctx, img, shape, what):
    ext = img.get_extent()
    ctx.check(tuple(ext) == (-.5, shape[1] - .5, shape[0] - .5, -.5), f'{what}: layer drawn at {ext}')


def dilated(b):
    out = b.copy()
    out[1:] |= b[:-1]
    out[:-1] |= b[1:]
    out[:, 1:] |= b[:, :-1]
    out[:, :-1] |= b[:, 1:]
    return out


def check_gb_pixel(ctx, img, b, colour, dilate, what):
    b = np.array(b, dtype=bool)
    if dilate:
        b = dilated(b)
    v = rgba(img)
    ctx.check(np.array_equal(v[..., 3] > .5, b) and (v[..., 3][~b] < .01).all() and (v[..., 3][b] > .9).all(), lambda: f'{what}: boundary pixels shown {v[..., 3]}, expected {b}')
    ctx.check(all(colour_close(c, colour) for c in v[b]), lambda: f'{what}: boundary colours {v[b]}, expected {colour}')
    check_extent(ctx, img, b.shape, what)


def seg(lines):
    return sorted(tuple(sorted(tuple(map(float, p)) for p in l)) for l in lines)


def check_gb_line(ctx, lc, lines, colour, what):
    ctx.check(seg(lc.get_segments()) == seg(lines), lambda: f'{what}: {len(lc.get_segments())} lines, expected {len(lines)}')
    ctx.check(lc.get_array() is None, f'{what}: lines coloured by value')
    ctx.check(all(colour_close(c, colour) for c in lc.get_colors()) and (len(lc.get_colors()) in (1, len(lines))), lambda: f'{what}: line colours {lc.get_colors()}, expected {colour}')


def offsets(sc):
    return [tuple(map(float, p)) for p in np.ma.filled(np.ma.array(sc.get_offsets(), dtype=float), np.nan)]


# ---------------------------------------------------------------- histories of layers
OPS = ['map', 'map2', 'gbp', 'gbp-red', 'gbd', 'gbl', 'hiA', 'hiB', 'hiC-new', 'pts', 'pts-upd', 'pts-upd1', 'numbers', 'bar', 'clear']
HI = {'hiA': ([0], None, None), 'hiB': ([1, 3, 0], ['red', 'blue'], .5), 'hiC-new': ([4], ['green'], .25)}


def cases(tier):
    q = tier == 'quick'
    out = []
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            out.append(dict(kind='layers', head=[a, b], depth=4 if q else 5, inter=(a + b) % 2))
    for k in range(6):
        out.append(dict(kind='high', first=k, n=3 if q else 4))
    for shape in ((1, 4), (2, 3), (3, 2), (3, 3)) if q else ((1, 6), (2, 4), (4, 2), (3, 3), (3, 4)):
        n = shape[0] * shape[1]
        for k in range(min(8, 2 ** n)):
            out.append(dict(kind='gbs', shape=shape, mod=8, k=k))
    for src in ('ebsd', 'dic', 'grain', 'dicgrain'):
        for bits in range(16):
            out.append(dict(kind='create', src=src, bits=bits, full=not q))
    for k in range(14):
        out.append(dict(kind='arrows', first=k, depth=3 if q else 4))
    for nums in ((126, 127, 128, 129), (200, 254, 255, 256), (257, 280, 289)):
        out.append(dict(kind='many', nums=nums))
    for kinds in (('fcc', 'hcp'), ('bcc', 'fcc'), ('hcp', 'bcc')):
        out.append(dict(kind='traces', kinds=kinds))
    return out


def run_layers(ctx, case):
    m = grain_map()
    gb = np.array(m.data.grain_boundaries.image)
    lines = [tuple(map(tuple, l)) for l in m.data.grain_boundaries.lines]
    d1 = np.arange(20, dtype=float).reshape(4, 5)
    d2 = np.arange(60, dtype=float).reshape(4, 5, 3) / 60
    keep = [d1.copy(), d2.copy(), np.array(m.data.grains), np.array(m.data.euler_angle)]
    plot = plotting.MapPlot(m, make_interactive=bool(case['inter']))
    for k in range(case['depth'] - 1):
        for rest in itertools.product(range(len(OPS)), repeat=k):
            seq = [OPS[i] for i in case['head']] + [OPS[i] for i in rest]
            if not case['inter'] and 'clear' in seq:
                continue
            if seq.count('bar') + seq.count('clear') > 1:
                continue
            one_layers(ctx, plot, m, seq, gb, lines, d1, d2)
            ctx.check(np.array_equal(keep[0], d1) and np.array_equal(keep[1], d2) and np.array_equal(keep[2], np.array(m.data.grains)) and np.array_equal(keep[3], np.array(m.data.euler_angle))
                      and np.array_equal(gb, m.data.grain_boundaries.image), f'{seq}: data changed by plotting')
    if case['inter'] and case['head'][0] == OPS.index('map'):
        for seq in (['map', 'bar', 'clear'], ['map', 'bar', 'clear', 'clear'], ['map', 'bar', 'clear', 'map2', 'bar'], ['map', 'bar', 'clear', 'map', 'clear'],
                    ['map', 'bar', 'gbp', 'clear', 'map', 'bar', 'clear', 'map']):
            one_layers(ctx, plot, m, seq, gb, lines, d1, d2)


def one_layers(ctx, plot, m, seq, gb, lines, d1, d2):
    if plot.colour_bar is not None:
        plot.colour_bar.remove()
        plot.colour_bar = None
    plot.ax.clear()
    plot.set_empty_state()
    model = []          # (kind, details) of each layer
    first_hi = None
    points = []
    texts = 0
    args = []
    for op in seq:
        if op == 'map':
            plot.add_map(d1)
            model.append(('map', d1))
        elif op == 'map2':
            plot.add_map(d2, vmin=0, vmax=.3)
            model.append(('map', d2))
        elif op in ('gbp', 'gbp-red', 'gbd'):
            plot.add_grain_boundaries(colour={'gbp': None, 'gbp-red': 'red', 'gbd': 'blue'}[op], dilate=op == 'gbd')
            model.append(('gbp', {'gbp': 'white', 'gbp-red': 'red', 'gbd': 'blue'}[op], op == 'gbd'))
        elif op == 'gbl':
            plot.add_grain_boundaries(kind='line', colour='cyan')
            model.append(('gbl', 'cyan'))
        elif op in HI:
            ids, cols, alpha = copy.deepcopy(HI[op])
            plot.add_grain_highlights(ids, grain_colours=cols, alpha=alpha, new_layer=op == 'hiC-new')
            ctx.check((ids, cols, alpha) == HI[op], f'{seq}: arguments of highlighting changed to {ids, cols}')
            new = ('high', HI[op][0], HI[op][1] or ['white'], 1 if HI[op][2] is None else HI[op][2])
            if first_hi is None or op == 'hiC-new':
                if first_hi is None:
                    first_hi = len(model)
                model.append(new)
            else:
                model[first_hi] = new
        elif op in ('pts', 'pts-upd', 'pts-upd1'):
            n = len(model)
            xy = [(n, 1.5), (.5, n)] if op == 'pts' else [(2., n + 3)]
            upd = {'pts': None, 'pts-upd': 0, 'pts-upd1': 1}[op]
            if upd == 1 and len(points) == 1:
                return
            plot.add_points([p[0] for p in xy], [p[1] for p in xy], update_layer=upd)
            if upd is None or not points:
                points.append(len(model))
                model.append(('pts', xy))
            else:
                model[points[upd]] = ('pts', xy)
        elif op == 'numbers':
            plot.add_grain_numbers()
            texts += 1
        elif op == 'bar':
            if not model or model[0][0] != 'map':
                return
            plot.add_colour_bar('label', layer=0)
        elif op == 'clear':
            plot.clear()
            model, first_hi, points, texts = [], None, [], 0
            ctx.check(plot.colour_bar is None, f'{seq}: colour bar left')
        ctx.step()
    ctx.check(len(plot.img_layers) == len(model), f'{seq}: {len(plot.img_layers)} layers, expected {len(model)}')
    drawn = [a for a in plot.ax.get_children() if a in plot.img_layers]
    ctx.check(len(drawn) == len(model), f'{seq}: layers that are not in the axes')
    shown = [c for c in list(plot.ax.images) + list(plot.ax.collections)]
    ctx.check(len(shown) == len(model), f'{seq}: {len(shown)} artists in the axes, expected {len(model)}')
    for n, (img, want) in enumerate(zip(plot.img_layers, model)):
        what = f'{seq} layer {n}'
        if want[0] == 'map':
            check_base(ctx, img, want[1], what)
        elif want[0] == 'gbp':
            check_gb_pixel(ctx, img, gb, want[1], want[2], what)
        elif want[0] == 'gbl':
            check_gb_line(ctx, img, lines, want[1], what)
        elif want[0] == 'high':
            check_high(ctx, img, m, *want[1:], what)
        else:
            ctx.check(offsets(img) == [tuple(map(float, p)) for p in want[1]], lambda: f'{what}: points at {offsets(img)}, expected {want[1]}')
    ts = [t for t in plot.ax.texts]
    ctx.check(len(ts) == texts * len(m), f'{seq}: {len(ts)} texts, expected {texts * len(m)}')
    for t, g in zip(ts, list(range(len(m))) * texts):
        pts = np.array(m[g].data.point)
        ctx.check(t.get_text() == str(g) and np.allclose(t.get_position(), pts.mean(axis=0), atol=.5), lambda: f'{seq}: number {t.get_text()} of grain {g} at {t.get_position()}, centre {pts.mean(axis=0)}')
    ctx.state(str(model))
    ctx.trace()
    ctx.eval(str(seq) if len(model) > 1 else None)


COL = [None, ['red'], ['red', 'blue'], ['g', (.1, .2, .3), 'k', 'm'], ('c', 'y', '#102030')]


def run_high(ctx, case):
    m = grain_map()
    n = len(m)
    if case['first'] >= n:
        return
    plot = plotting.MapPlot(m)
    plot.add_map(np.zeros(m.shape))
    for k in range(case['n']):
        for rest in itertools.permutations([i for i in range(n) if i != case['first']], k):
            ids = [case['first']] + list(rest)
            for ci, cols in enumerate(COL):
                for alpha in (None, .3):
                    arg = copy.deepcopy(cols)
                    form = [ids, tuple(ids), np.array(ids)][(k + ci) % 3]
                    img = plot.add_grain_highlights(form, grain_colours=arg, alpha=alpha)
                    what = f'highlight {form} in {cols}, alpha {alpha}'
                    check_high(ctx, img, m, ids, cols or ['white'], 1 if alpha is None else alpha, what)
                    ctx.check(arg == cols, f'{what}: colours changed to {arg}')
                    ctx.check(img is plot.img_layers[1] and len(plot.ax.images) == 2, f'{what}: another layer')
                    ctx.step()
                    ctx.eval(what)


def run_many(ctx, case):
    """More grains than fit in one byte, each in a colour of its own."""
    n = 17
    lab = np.array([[(i * n + j) % 5 + 1 + 5 * (i % 2) for j in range(n)] for i in range(n)])
    m = grain_map(lab, kinds=('fcc',))
    if not ctx.check(len(m) == n * n, f'{len(m)} grains, expected {n * n}'):
        return
    plot = plotting.MapPlot(m)
    plot.add_map(np.zeros(m.shape))
    for num in case['nums']:
        for step in (1, -1, 7):
            ids = [(i * step) % (n * n) for i in range(num)]
            for ncol in sorted({num, num - 1, 100, 130}):
                cols = [(i % 16 / 16, i // 16 % 16 / 16, i // 256) for i in range(ncol)]
                what = f'highlight {num} grains in {ncol} colours, step {step}'
                img = plot.add_grain_highlights(ids, grain_colours=list(cols))
                check_high(ctx, img, m, ids, cols, 1, what)
                ctx.step()
                ctx.eval(what)


ARROWS = [(0, 0, 2, 1), (3, 2, 1, 3), (None, None, None, None)]


def run_arrows(ctx, case):
    """Sequences of arrows: a single one that is moved, taken away or kept, and ones that stay."""
    m = grain_map()
    ops = [(a, pers, keep, lab) for a in range(3) for pers in (0, 1) for keep in (0, 1) for lab in (None, 'L')
           if not (pers and keep) and not (a == 2 and (pers or lab))]
    fig, ax = plt.subplots()
    for seq in itertools.product(range(len(ops)), repeat=case['depth']):
        if seq[0] != case['first']:
            continue
        for t in list(ax.texts):
            t.remove()
        plot = plotting.MapPlot(m, fig=fig, ax=ax)
        lines, labels, last = [], [], None
        for o in seq:
            a, pers, keep, lab = ops[o]
            at = ARROWS[a]
            kw = dict(persistent=True) if pers else {}
            if keep:
                kw['clear_previous'] = False
            if lab:
                kw['label'] = lab
            plot.add_arrow(start_end=at, **kw)
            if not pers:
                if not keep and last is not None:
                    lines.remove(last)
                    last = None
                if a != 2:
                    last = at
            if a != 2:
                lines.append(at)
                if lab:
                    labels.append((lab, at[2:4]))
            if o == case['first'] and sum(seq) % 3 == 0:
                # nothing is left on a cleared plot, which can be used again
                plot.interactive = True
                plot.clear()
                lines, labels, last = [], [], None
            what = f'arrows {[ops[i] for i in seq]}'
            ctx.step()
        arr = [t for t in plot.ax.texts if t.get_text() == '']
        got = sorted(tuple(float(v) for v in tuple(t.xy) + tuple(t.get_position())) for t in arr)
        ctx.check(got == sorted(tuple(map(float, v)) for v in lines), lambda: f'{what}: arrows at {got}, expected {sorted(lines)}')
        got = sorted((t.get_text(), tuple(map(float, t.xy))) for t in plot.ax.texts if t.get_text() != '')
        ctx.check(got == sorted((a, tuple(map(float, b))) for a, b in labels), lambda: f'{what}: labels {got}, expected {labels}')
        ctx.eval(what)


def run_gbs(ctx, case):
    h, w = case['shape']
    n = h * w
    for bits in range(case['k'], 2 ** n, case['mod']):
        lab = np.array([1 + (bits >> i & 1) for i in range(n)]).reshape(h, w)
        m = grain_map(lab, kinds=('fcc',))
        b = np.zeros((h, w), dtype=bool)
        ln = []
        for y, x in np.ndindex(h, w):
            if x + 1 < w and lab[y, x] != lab[y, x + 1]:
                b[y, x] = True
                ln.append(((x + .5, y - .5), (x + .5, y + .5)))
            if y + 1 < h and lab[y, x] != lab[y + 1, x]:
                b[y, x] = True
                ln.append(((x - .5, y + .5), (x + .5, y + .5)))
        d = m.plot_euler_map()
        check_base(ctx, d.img_layers[0], np.array(m.calc_euler_colour(m.data.euler_angle)), f'{lab.tolist()}')
        for colour in ('white', 'red', (0., .2, .8, 1.)):
            what = f'boundaries of {lab.tolist()} in {colour}'
            for dil in (False, True):
                if isinstance(colour, tuple):
                    continue
                img = d.add_grain_boundaries(colour=colour, dilate=dil)
                check_gb_pixel(ctx, img, b, colour, dil, f'{what} dilate {dil}')
            if not (isinstance(colour, tuple) and len(ln) == 4):
                lc = d.add_grain_boundaries(kind='line', colour=colour)
                check_gb_line(ctx, lc, ln, colour, what)
            ctx.step()
        if len(ln) not in (0, 4):
            vals = list(range(len(ln)))
            lc = d.add_grain_boundaries(kind='line', colour=vals, cmap='plasma')
            ctx.check(list(lc.get_array()) == vals and lc.get_cmap().name == 'plasma', f'{lab.tolist()}: values of the lines')
            if len(ln) != 3:
                ctx.raises(ValueError, lambda: d.add_grain_boundaries(kind='line', colour=[1, 2, 3]), f'{lab.tolist()}: three values for {len(ln)} lines')
        # explicit boundaries, of another map
        o = grain_map(lab[::-1], kinds=('fcc',))
        img = d.add_grain_boundaries(boundaries=o.data.grain_boundaries, colour='k')
        v = np.array(o.data.grain_boundaries.image)
        check_gb_pixel(ctx, img, v, 'k', False, f'{lab.tolist()}: boundaries that were given')
        plt.close('all')
        ctx.state(bits)
        ctx.eval(str((h, w, bits)) if ln else None)


# ---------------------------------------------------------------- plots made in one call
def source(kind):
    if kind in ('ebsd', 'grain'):
        m = grain_map()
        m.calc_grain_av_oris()
        m.calc_grain_mis_ori() if kind == 'grain' else None
        return (m, m) if kind == 'ebsd' else (m, m[2])
    e = grain_map(kinds=('fcc', 'bcc'))
    e.calc_grain_av_oris()
    yy, xx = np.mgrid[0:4, 0:5]
    m = dic_map(disp=np.array([.02 * xx * yy + .01 * xx, .03 * yy ** 2 - .01 * xx * yy]), binning=2)
    m.set_scale(.25)
    for q in (e, m):
        q.frame.set_homog_points([(0, 0), (4, 0), (0, 3), (4, 3)])
    m.link_ebsd_map(e, transform_type='affine')
    m.data.generate('grains', algorithm='warp')
    return (m, m) if kind == 'dic' else (m, m[1])


WHAT = {'ebsd': [('band_contrast', None), ('euler_angle', 1), ('orientation', 'IPF_x'), ('phase', None)],
        'dic': [('max_shear', None), ('e', (0, 1)), ('displacement', 0), ('f', 'norm')],
        'grain': [('GROD', None), ('euler_angle', 2), ('band_slope', None)],
        'dicgrain': [('max_shear', None), ('e', (1, 1)), ('displacement', 'norm')]}


def run_create(ctx, case):
    m, obj = source(case['src'])
    bits = [bool(case['bits'] >> i & 1) for i in range(4)]
    grain = 'grain' in case['src']
    for name, comp in WHAT[case['src']]:
        for vm in ((None, None), (.1, .7)):
            kw = {'plot_colour_bar': bits[0]}       # some data has a colour bar by default
            if bits[1]:
                kw['plot_scale_bar'] = True
            if not grain:
                if bits[2]:
                    kw.update(plot_gbs=True, boundary_colour='red')
                elif bits[3]:
                    kw['plot_gbs'] = 'line'
                if bits[3]:
                    kw.update(highlight_grains=[1, 2], highlight_colours=['blue'], highlight_alpha=.6)
            else:
                if bits[2]:
                    kw['plot_slip_traces'] = True
            if vm[0] is not None:
                kw.update(vmin=vm[0], vmax=vm[1])
            if bits[3]:
                kw['cmap'] = 'plasma'
            if bits[2] and bits[0]:
                kw['clabel'] = 'my label'
            own = bits[1] and bits[3]
            if own:
                fig, ax = plt.subplots()
                kw['ax'] = ax
                if bits[0]:
                    kw['fig'] = fig
            before = dict(kw)
            what = f'{case["src"]} {name} {comp} {kw}'
            plot = obj.plot_map(name, component=comp, **kw)
            ctx.check(kw == before, f'{what}: arguments changed')
            if own:
                ctx.check(plot.ax is ax and plot.fig is fig, f'{what}: drawn on other axes')
            store = obj.data[name] if grain else m.data[name]
            data = np.array(store) if name != 'orientation' else None
            if name == 'orientation':
                want = np.array(m.calc_ipf_colour(m.data.orientation, np.array([1, 0, 0])))
            elif comp == 'norm':
                want = np.sqrt((data ** 2).reshape((-1,) + data.shape[len(data.shape) - (1 if grain else 2):]).sum(axis=0))
            else:
                want = data if comp is None else data[comp]
            if grain:
                full = np.full((obj.extreme_coords[3] - obj.extreme_coords[1] + 1, obj.extreme_coords[2] - obj.extreme_coords[0] + 1), np.nan)
                for (x, y), v in zip(obj.data.point, want):
                    full[y - obj.extreme_coords[1], x - obj.extreme_coords[0]] = v
                want = full
            img = plot.img_layers[0]
            check_base(ctx, img, want, what)
            if vm[0] is not None:
                ctx.check(tuple(img.get_clim()) == vm, f'{what}: colour range {img.get_clim()}')
            if bits[3] and want.ndim == 2:
                ctx.check(img.get_cmap().name == 'plasma', f'{what}: colour map {img.get_cmap().name}')
            ctx.check((plot.colour_bar is not None) == bits[0], f'{what}: colour bar')
            if bits[0]:
                lab = plot.colour_bar.ax.get_ylabel()
                if 'clabel' in kw:
                    ctx.check(lab == 'my label', f'{what}: label {lab}')
                else:
                    pp = m.data.get_metadata(name, 'plot_params', {}).get('clabel')
                    if pp:
                        ctx.check(lab.startswith(pp), f'{what}: label {lab}')
                        if isinstance(comp, tuple):
                            ctx.check('(' + ''.join(str(c + 1) for c in comp) + ')' in lab, f'{what}: label {lab}')
                        elif isinstance(comp, str):
                            ctx.check(comp.replace('_', ' ') in lab, f'{what}: label {lab}')
                        unit = m.data.get_metadata(name, 'unit')
                        if unit:
                            ctx.check(f'({unit})' in lab, f'{what}: label {lab}')
            sb = [a for a in plot.ax.artists if isinstance(a, ScaleBar)]
            ctx.check(len(sb) == bits[1], f'{what}: {len(sb)} scale bars')
            if sb:
                ctx.check(abs(sb[0].dx - m.scale * 1e-6) < 1e-15, f'{what}: scale bar of {sb[0].dx}, pixels of {m.scale} um')
            n = 1
            if not grain:
                if bits[2]:
                    check_gb_pixel(ctx, plot.img_layers[n], m.data.grain_boundaries.image, 'red', False, what)
                    n += 1
                elif bits[3]:
                    check_gb_line(ctx, plot.img_layers[n], m.data.grain_boundaries.lines, 'white', what)
                    n += 1
                if bits[3]:
                    check_high(ctx, plot.img_layers[n], m, [1, 2], ['blue'], .6, what)
                    n += 1
            else:
                q = [c for c in plot.ax.collections if type(c).__name__ == 'Quiver']
                ctx.check(len(q) == (len(obj.slip_traces) if bits[2] else 0), f'{what}: {len(q)} traces')
            ctx.check(len(plot.img_layers) == n, f'{what}: {len(plot.img_layers)} layers')
            ctx.step()
            ctx.eval(what)
            plt.close('all')


def run_traces(ctx, case):
    m = grain_map(kinds=tuple(case['kinds']))
    m.calc_grain_av_oris()
    for g in m:
        ang = np.array(g.slip_traces, dtype=float)
        cols = g.phase.slip_trace_colours
        for pos in (None, (.5, 2.)):
            for top in (False, True):
                for give in (None, ['red', 'green']):
                    p = plotting.GrainPlot(calling_grain=g)
                    p.addMap(np.zeros((3, 3)))
                    p.add_slip_traces(colours=give, pos=pos, top_only=top)
                    what = f'{case["kinds"]} grain {g.grain_id} pos {pos} top {top} colours {give}'
                    q = [c for c in p.ax.collections if type(c).__name__ == 'Quiver']
                    ctx.check(len(q) == len(ang), f'{what}: {len(q)} traces, expected {len(ang)}')
                    use = give or cols
                    want_pos = g.centre_coords() if pos is None else pos
                    for k, (a, t) in enumerate(zip(q, ang)):
                        if math.isnan(t):
                            continue
                        u, v = float(a.U[0]), float(a.V[0])
                        s = 1 if abs(u + math.sin(t)) < 1e-9 and abs(v - math.cos(t)) < 1e-9 else -1
                        ctx.check(abs(s * u + math.sin(t)) < 1e-9 and abs(s * v - math.cos(t)) < 1e-9, lambda: f'{what}: trace {k} along {u, v}, angle {math.degrees(t)}')
                        if top:
                            ctx.check(v > -1e-9, lambda: f'{what}: trace {k} points down')
                        ctx.check(np.allclose(offsets(a)[0], want_pos), f'{what}: trace {k} at {offsets(a)}')
                        ctx.check(a.pivot == ('tail' if top else 'middle'), f'{what}: pivot {a.pivot}')
                        ctx.check(colour_close(a.get_facecolor()[0], use[min(k, len(use) - 1)]), f'{what}: colour of trace {k}')
                    ctx.step()
                    ctx.eval(what)
                    plt.close('all')
    # legends of a map use the colours of the layer
    plot = m.plot_phase_map()
    check_base(ctx, plot.img_layers[0], np.array(m.data.phase), 'phase map')
    leg = plot.ax.get_legend()
    ctx.check([t.get_text() for t in leg.get_texts()] == ['Non-indexed'] + [p.name for p in m.phases], 'legend of a phase map')
    for k, h in enumerate(leg.get_patches()):
        ctx.check(colour_close(h.get_facecolor(), rgba(plot.img_layers[0])[np.array(m.data.phase) == k][0]), f'legend colour of phase {k}')
    plot.add_legend([0, 1, 2], ['a', 'b', 'c'])
    leg = plot.ax.get_legend()
    img = plot.img_layers[0]
    ctx.check([t.get_text() for t in leg.get_texts()] == ['a', 'b', 'c'], 'legend labels')
    for k, h in enumerate(leg.get_patches()):
        ctx.check(colour_close(h.get_facecolor(), img.cmap(img.norm(k))), f'legend colour {k}')
    # and those of a later layer
    img = plot.add_map(np.arange(float(np.array(m.data.phase).size)).reshape(np.array(m.data.phase).shape), vmin=0, vmax=2, cmap='hot')
    for layer in (0, 1, -1):
        img = plot.img_layers[layer]
        plot.add_legend([0, .5, 2], ['a', 'b', 'c'], layer=layer)
        for v, h in zip((0, .5, 2), plot.ax.get_legend().get_patches()):
            ctx.check(colour_close(h.get_facecolor(), img.cmap(img.norm(v))), f'legend colour {v} of layer {layer}')
        plot.add_colour_bar('x', layer=layer)
        ctx.check(plot.colour_bar.mappable is img, f'colour bar of layer {layer}')
        ctx.eval(f'legend {layer}')
    for sc in (None, .25, 3):
        g = m[0]
        gp = plotting.GrainPlot(calling_grain=g)
        for q in (plot, gp):
            n = len([a for a in q.ax.artists if isinstance(a, ScaleBar)])
            if sc is None:
                q.add_scale_bar()
            else:
                q.add_scale_bar(scale=sc)
            sb = [a for a in q.ax.artists if isinstance(a, ScaleBar)]
            ctx.check(len(sb) == n + 1 and abs(sb[-1].dx - (m.scale if sc is None else sc) * 1e-6) < 1e-15, f'scale bar of {sc}: {[b.dx for b in sb]}')
    plt.close('all')


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
