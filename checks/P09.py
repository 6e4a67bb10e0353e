"""P09: histories of crop, mask, pattern and homologous point operations."""
import contextlib
import io
import itertools
import os
import re
import sys
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from mc.fixtures import dic_map, ebsd_map     # noqa: E402
from defdap.experiment import Frame  # noqa: E402
from defdap.plotting import HistPlot  # noqa: E402
import math                         # noqa: E402
import matplotlib.pyplot as plt     # noqa: E402

PROP = 'P09'
LEVEL = 'model_checking'
RULE = ('(crop) every sequence of crop, mask, pattern and read operations up to a depth on small HRDIC maps, and a search '
        'of all reachable crop/mask states; every data item compared after every operation with a numpy slice of what was '
        'loaded; (dilate) every mask of one or two points, dilated any number of times; (use) for every mask of one point, some of three and all but three, every plotted component and norm, profile, statistics table, histogram, grain average and grain map against the same over the points that are not masked; (points) every sequence of homologous point operations up to a depth on two frames')
ASSUMPTIONS = ['a mask belongs to the crop it was set for: after changing the crop a new mask (or none) is set before data '
               'that is masked is read']

SHAPE = (5, 6)
B = 2
PATTERN = {}


def pattern_file(shape, b):
    """Greyscale image of the map size times b."""
    k = (shape, b)
    if k not in PATTERN:
        from PIL import Image
        p = os.path.join(env.SCRATCH, f'pat_{shape[0]}_{shape[1]}_{b}.png')
        a = (np.arange(shape[0] * shape[1] * b * b) % 251).astype(np.uint8).reshape(shape[0] * b, shape[1] * b)
        if not os.path.exists(p):
            tmp = p + f'.{os.getpid()}.png'
            Image.fromarray(a).save(tmp)
            os.replace(tmp, p)
        PATTERN[k] = (p, a)
    return PATTERN[k]


def disp(shape):
    n = shape[0] * shape[1]
    a = np.zeros((2,) + shape)
    a[0] = (np.arange(n) ** 1.7 % 13).reshape(shape) / 7
    a[1] = (np.arange(n) ** 1.3 % 11).reshape(shape) / 5
    return a


OPS = [
    ('crop', dict(left=1)), ('crop', dict(right=2)), ('crop', dict(top=1)), ('crop', dict(bottom=1)),
    ('crop', dict(left=0, right=0, top=0, bottom=0)), ('crop', dict(left=2, top=2)),
    ('crop', dict(left=2, bottom=2, update_homog_points=True)), ('crop', dict(top=1, right=1, update_homog_points=True)),
    ('crop', dict(update_homog_points=True, left=0)), ('crop', dict(update_homog_points=True, left=1, top=0)),
    ('mask', 'row'), ('mask', 'chess'), ('mask', 'dilate'), ('mask', None),
    ('pattern', 1), ('pattern', 3), ('add', 'plain'), ('add', 'cropped'), ('add', 'nomask'), ('add', 'binned'), ('points', 0),
]


class M:
    def __init__(self, shape):
        self.shape0 = shape
        self.c = [0, 0, 0, 0]       # left right top bottom
        self.mask = None            # (name, crop it belongs to)
        self.pat = None
        self.added = []
        self.pts = []

    @property
    def shape(self):
        return (self.shape0[0] - self.c[2] - self.c[3], self.shape0[1] - self.c[0] - self.c[1])

    def canon(self):
        return (self.c, self.mask, self.pat, self.added, self.pts)


def mask_array(name, shape):
    m = np.zeros(shape, bool)
    if name == 'row':
        m[0] = True
    elif name == 'chess':
        m[::2, ::2] = True
    elif name == 'dilate':
        m[0, 0] = True
    return m


def dilate(m, it):
    for _ in range(it):
        n = m.copy()
        n[1:] |= m[:-1]
        n[:-1] |= m[1:]
        n[:, 1:] |= m[:, :-1]
        n[:, :-1] |= m[:, 1:]
        m = n
    return m


def enabled(m, op):
    if op[0] == 'add':
        return op[1] not in [a for a, _ in m.added]
    return True


class World:
    def __init__(self, shape):
        self.m = M(shape)
        self.d = dic_map(disp=disp(shape), binning=B)
        self.full = {k: np.array(self.d.data[k]) for k in ('displacement', 'coordinate', 'f', 'e', 'max_shear')}

    def apply(self, op):
        m, d = self.m, self.d
        if op[0] == 'crop':
            kw = op[1]
            old = list(m.c)
            d.set_crop(**kw)
            for i, k in enumerate(('left', 'right', 'top', 'bottom')):
                if k in kw:
                    m.c[i] = kw[k]
            if kw.get('update_homog_points'):
                dx, dy = old[0] - m.c[0], old[2] - m.c[2]
                m.pts = [(x + dx, y + dy) for x, y in m.pts]
            if m.mask and m.c != old:
                # the mask is set again for the new crop (see ASSUMPTIONS)
                d.data.generate('mask', mask=None)
                m.mask = None
        elif op[0] == 'mask':
            if op[1] is None:
                d.data.generate('mask', mask=None)
                m.mask = None
            else:
                a = mask_array(op[1], m.shape)
                keep = a.copy()
                if op[1] == 'dilate':
                    d.data.generate('mask', mask=a, dilation=2)
                else:
                    d.data.generate('mask', mask=a)
                m.mask = op[1]
                assert np.array_equal(a, keep), 'the mask passed in was changed'
        elif op[0] == 'pattern':
            d.set_pattern(pattern_file(m.shape0, op[1])[0], op[1])
            m.pat = op[1]
        elif op[0] == 'add':
            h, w = m.shape0
            if op[1] == 'plain':
                a = np.arange(2 * h * w).reshape(2, h, w)
                d.data.add('plain', a, type='map', order=1)
            elif op[1] == 'cropped':
                a = np.arange(m.shape[0] * m.shape[1]).reshape(m.shape)
                d.data.add('cropped', a, type='map', order=0, cropped=True)
            elif op[1] == 'nomask':
                a = np.arange(4 * h * w).reshape(2, 2, h, w)
                d.data.add('nomask', a, type='map', order=2, apply_mask=False)
            elif op[1] == 'binned':
                a = np.arange(4 * h * w).reshape(2 * h, 2 * w)
                d.data.add('binned', a, type='map', order=0, binning=2, apply_mask=False)
            m.added.append((op[1], list(m.c)))
            self.full[op[1]] = a.copy()
        elif op[0] == 'points':
            pts = [(3, 2), (0, 4), (5, 1)]
            d.frame.set_homog_points(pts)
            m.pts = list(pts)

    def read(self):
        """Everything is read, which must not matter later."""
        for k in ['mask', 'displacement', 'coordinate', 'f', 'e', 'max_shear'] + [a for a, c in self.m.added if a != 'cropped' or c == self.m.c] + (['pattern'] if self.m.pat else []):
            self.d.data[k]

    def compare(self, ctx, hist):
        m, d = self.m, self.d
        l, r, t, b = m.c
        H, W = m.shape0
        ctx.check(tuple(d.shape) == m.shape and d.y_dim == m.shape[0] and d.x_dim == m.shape[1],
                  lambda: f'{hist}: shape {d.shape}, expected {m.shape}')
        ctx.check(tuple(d.original_shape) == m.shape0, f'{hist}: original shape')
        mk = None
        if m.mask:
            mk = mask_array(m.mask, m.shape)
            if m.mask == 'dilate':
                mk = dilate(mk, 2)
        got = d.data.mask
        ctx.check((got is None) if mk is None else np.array_equal(got, mk), f'{hist}: mask')

        def cut(a, k=1):
            return a[..., t * k:(H - b) * k, l * k:(W - r) * k]
        items = ['displacement', 'coordinate', 'f', 'e', 'max_shear'] + [a for a, _ in m.added]
        for k in items:
            a = self.full[k]
            if k == 'cropped':
                if dict(map(lambda z: (z[0], z[1]), m.added))['cropped'] != m.c:
                    continue        # stored for another crop
                want = a
            else:
                want = cut(a, 2 if k == 'binned' else 1)
            got = d.data[k]
            ctx.check(np.shape(got) == want.shape, lambda: f'{hist}: {k} has shape {np.shape(got)}, expected {want.shape}')
            ctx.check(np.array_equal(np.asarray(np.ma.getdata(got)), want), lambda: f'{hist}: {k} is not the cropped data')
            if mk is not None and k not in ('nomask', 'binned'):
                ctx.check(np.array_equal(np.ma.getmaskarray(got), np.broadcast_to(mk, want.shape)), lambda: f'{hist}: mask of {k}')
            else:
                ctx.check(not np.any(np.ma.getmaskarray(got)), f'{hist}: {k} is masked')
        if m.pat:
            want = cut(pattern_file(m.shape0, m.pat)[1].astype(float), m.pat)
            got = np.asarray(d.data.pattern)
            ctx.check(got.shape == want.shape and np.allclose(np.asarray(got, float) * (255 if got.max() <= 1 else 1), want, atol=1e-3),
                      lambda: f'{hist}: pattern image')
        ctx.check([tuple(p) for p in d.frame.homog_points] == m.pts,
                  lambda: f'{hist}: points {d.frame.homog_points}, expected {m.pts}')


# ---- homologous points on two frames
PT = [(1, 2), (7, 0), (4, 9)]
POPS = [('set', 0, 3), ('set', 1, 2), ('set', 0, 0), ('mutate',), ('upd', 0, 0, None, (1, -2)), ('upd', 0, 1, (8, 8), None),
        ('upd', 0, 2, [6, 5], None), ('upd', 0, -1, None, (-3, 4)), ('upd', 1, 0, (0, 0), (5, 5)), ('upd', 1, 1, None, [2, 2]),
        ('bad', 0), ('bad', 1), ('badtype',), ('setarr', 0)]


def run_points(seq, ctx):
    fr = [ebsd_map((2, 2)).frame if False else Frame() for _ in range(2)]
    want = [[], []]
    last = None
    for i, o in enumerate(seq):
        op = POPS[o]
        hist = [POPS[x] for x in seq[:i + 1]]
        if op[0] == 'set':
            last = [list(p) for p in PT[:op[2]]]
            fr[op[1]].set_homog_points(last)
            want[op[1]] = [tuple(p) for p in PT[:op[2]]]
        elif op[0] == 'setarr':
            last = np.array(PT)
            fr[op[1]].set_homog_points(last)
            want[op[1]] = list(PT)
        elif op[0] == 'mutate':
            if last is not None and len(last):
                last[0][0] = 77
                if isinstance(last, list):
                    last.append([5, 5])
        elif op[0] == 'upd':
            _, f, idx, new, delta = op
            if idx >= len(want[f]):
                ctx.raises(Exception, lambda: fr[f].update_homog_points(idx, new_point=new, delta=delta), f'{hist}: index out of range')
            else:
                kw = {}
                if new is not None:
                    kw['new_point'] = new
                if delta is not None:
                    kw['delta'] = delta
                fr[f].update_homog_points(idx, **kw)
                for j in range(len(want[f])):
                    if j == idx or idx < 0:
                        want[f][j] = tuple(new) if new is not None else (want[f][j][0] + delta[0], want[f][j][1] + delta[1])
        elif op[0] == 'bad':
            f = op[1]
            ctx.raises(Exception, lambda: fr[f].update_homog_points(len(want[f]), new_point=(0, 0)), f'{hist}: index out of range')
        elif op[0] == 'badtype':
            ctx.raises(Exception, lambda: fr[0].update_homog_points('0', new_point=(0, 0)), f'{hist}: index is not an integer')
        ctx.step()
        for f in range(2):
            got = [tuple(int(v) for v in p) for p in fr[f].homog_points]
            ctx.check(got == want[f], lambda: f'{hist}: points of frame {f} are {got}, expected {want[f]}')
    ctx.state(('pts', want))
    ctx.trace()


def run_dilate(ctx, case):
    """Masks of one or two points that grow by any number of pixels, and shrink again."""
    shape = tuple(case['shape'])
    disp = np.arange(2 * shape[0] * shape[1]).reshape((2,) + shape) ** 1.5 / 50
    d = dic_map(shape, disp)
    if case['crop']:
        d.set_crop(right=1, top=2)
    full = np.array(d.data.max_shear)
    h, w = full.shape
    if case['a'] >= h * w:
        return
    for b in range(case['a'], h * w):
        m = np.zeros((h, w), bool)
        m.flat[[case['a'], b]] = True
        given = m.copy()
        for k in list(range(case['top'] + 1)) + [0]:
            want = dilate(given, k)
            what = f'{case}: points {case["a"], b} dilated {k} times'
            with contextlib.redirect_stdout(io.StringIO()) as out:
                got = d.data.generate('mask', mask=m, dilation=k, return_val=True)
            nums = re.findall(r'\d+', out.getvalue())
            ctx.check(np.array_equal(got, want) and np.array_equal(d.data.mask, want), lambda: f'{what}: mask {np.argwhere(got).tolist()}')
            ctx.check(np.array_equal(m, given), f'{what}: the mask that was given changed')
            ctx.check(str(int(want.sum())) in nums and str(h * w) in nums, lambda: f'{what}: reported {out.getvalue()!r}')
            v = d.data.max_shear
            ctx.check(np.array_equal(np.ma.getmaskarray(v), want) and np.array_equal(np.ma.getdata(v)[~want], full[~want]), f'{what}: masked data')
            ctx.step()
        ctx.state((case, b))
        ctx.trace()


def quantile(v, q):
    v = sorted(v)
    t = q / 100 * (len(v) - 1)
    lo = int(math.floor(t))
    return v[lo] + (v[min(lo + 1, len(v) - 1)] - v[lo]) * (t - lo)


def run_use(case, ctx):
    """What is made from masked data: masked points are in none of it."""
    h, w = 5, 6
    cl, ct = case['crop']
    ph = np.ones((h, w), dtype=np.uint8)
    ph[:, 3:] = 2
    ph[0, 2] = 2
    e = ebsd_map((h, w), phase_im=ph, kinds=('fcc', 'bcc'))
    e.data.generate('grains', min_grain_size=1)
    d = dic_map((h, w), disp=disp((h, w)))
    d.set_crop(left=cl, top=ct)
    sq = [(0, 0), (5, 0), (0, 4), (5, 4)]
    e.frame.set_homog_points(sq)
    d.frame.set_homog_points([(x - cl, y - ct) for x, y in sq])
    d.link_ebsd_map(e, transform_type='affine')
    d.data.generate('grains', algorithm='warp')
    H, W = d.shape
    pts = [[tuple(map(int, p)) for p in g.data.point] for g in d]
    full = {k: np.array(d.data[k]) for k in ('max_shear', 'f', 'e', 'displacement')}
    masks = [np.zeros((H, W), bool)] + [mask_array(n, (H, W)) for n in ('row', 'chess')]
    for i in range(case['part'], H * W, 5):
        a = np.zeros((H, W), bool)
        a.flat[i] = True
        masks += [a, ~a if i % 2 else np.roll(a, 1) | a | np.roll(a, W)]
    for n, m in enumerate(masks + [None]):
        with contextlib.redirect_stdout(io.StringIO()):
            d.data.generate('mask', mask=m)
        what = f'{case} mask {None if m is None else np.argwhere(m).tolist()}'
        if m is None:
            m = np.zeros((H, W), bool)

        def same(img, want, name):
            img = np.ma.array(img)
            ctx.check(np.array_equal(np.ma.getmaskarray(img), m) and np.allclose(np.ma.getdata(img)[~m], want[~m]), lambda: f'{what}: {name} shows {img}, expected {want}')
        for name, comp, want in (('max_shear', None, full['max_shear']), ('e', (0, 1), full['e'][0, 1]), ('displacement', 1, full['displacement'][1]),
                                 ('displacement', 'norm', np.sqrt((full['displacement'] ** 2).sum(axis=0))), ('f', 'norm', np.sqrt((full['f'] ** 2).sum(axis=(0, 1))))):
            p = d.plot_map(name, component=comp)
            same(p.img_layers[0].get_array(), want, f'plot of {name} {comp}')
            for (x0, y0), (x1, y1) in (((0, 1), (W - 1, 1)), ((1, 0), (1, H - 1)), ((W - 1, H - 1), (0, H - 1))):
                d.calc_line_profile(p, (x0, y0, x1, y1))
                got = np.array(d.profile_plot.ax.lines[0].get_ydata(), float)
                k = max(abs(x1 - x0), abs(y1 - y0))
                along = [(y0 + (y1 - y0) * i // k, x0 + (x1 - x0) * i // k) for i in range(k + 1)]
                exp = np.array([np.nan if m[q] else want[q] for q in along])
                ctx.check(got.shape == exp.shape and np.allclose(got, exp, equal_nan=True), lambda: f'{what}: profile of {name} {comp} from {x0, y0} to {x1, y1}: {got}, expected {exp}')
            plt.close('all')
        keep = ~m
        for name in ('max_shear', 'e'):
            if not keep.any():
                continue
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                d.print_stats_table([0, 50, 90], [name])
            rows = [l.replace('\033[0m', '').split() for l in out.getvalue().split('\n')]
            got = [[float(v) for v in r[1:]] for r in rows if len(r) == 4 and r[0].startswith(name)]
            exp = [[quantile(full[name][i][keep], q) for q in (0, 50, 90)] for i in np.ndindex(full[name].shape[:-2])]
            ctx.check(len(got) == len(exp) and np.allclose(got, exp, atol=5.1e-5), lambda: f'{what}: statistics of {name} {got}, expected {exp}')
        for pt, rng in (('scatter', None), ('bar', (-1, 5)), ('step', (0, 1)), ('scatter', (.1, .7))):
            v = full['max_shear'][keep]
            if not len(v) or np.ptp(v) == 0:
                continue
            p = HistPlot.create(d.data.max_shear, bins=4, range=rng, plot_type=pt, density=False)
            lo, hi = rng or (v.min(), v.max())
            cnt = [int(((v >= lo + (hi - lo) * i / 4 - 1e-12) & ((v < lo + (hi - lo) * (i + 1) / 4 - 1e-12) | ((i == 3) & (v <= hi)))).sum()) for i in range(4)]
            if pt == 'scatter':
                ctx.check(np.allclose(p.ax.lines[0].get_ydata(), cnt), lambda: f'{what}: histogram {p.ax.lines[0].get_ydata()}, expected {cnt}')
            elif pt == 'bar':
                ctx.check(np.allclose([b.get_height() for b in p.ax.patches], cnt), lambda: f'{what}: histogram {[b.get_height() for b in p.ax.patches]}, expected {cnt}')
            else:
                ctx.check(abs(p.ax.patches[0].get_xy()[:, 1].max() - max(cnt)) < 1e-9, lambda: f'{what}: steps of the histogram, expected {cnt}')
            plt.close('all')
        for name, arr in (('max_shear', lambda: d.data.max_shear), ('e', lambda: d.data.e[1, 1])):
            want = full['max_shear'] if name == 'max_shear' else full['e'][1, 1]
            exp = [np.mean([want[y, x] for x, y in p if not m[y, x]]) if any(not m[y, x] for x, y in p) else np.nan for p in pts]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = d.calc_grain_average(arr())
            ctx.check(np.allclose(np.ma.filled(np.ma.array(got), np.nan), exp, equal_nan=True), lambda: f'{what}: average of {name} {got}, expected {exp}')
        for g, p in zip(d, pts):
            v = g.data.max_shear
            gm = np.array([m[y, x] for x, y in p])
            ctx.check(np.array_equal(np.ma.getmaskarray(v), gm) and np.allclose(np.ma.getdata(v)[~gm], [full['max_shear'][y, x] for (x, y), b in zip(p, gm) if not b]), f'{what}: grain data')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                im = np.ma.filled(np.ma.array(g.grain_map_data(grain_data=v)), np.nan)
            x0, y0 = g.extreme_coords[:2]
            ctx.check(all((np.isnan(im[y - y0, x - x0]) if m[y, x] else im[y - y0, x - x0] == full['max_shear'][y, x]) for x, y in p), lambda: f'{what}: map of grain {g.grain_id} {im.tolist()}')
            want = np.sqrt((full['f'] ** 2).sum(axis=(0, 1)))
            if n % 4 == 0:
                im = g.plot_map('f', component='norm').img_layers[0].get_array()
                im = np.ma.filled(np.ma.array(im, dtype=float), np.nan)
                ctx.check(all((np.isnan(im[y - y0, x - x0]) if m[y, x] else abs(im[y - y0, x - x0] - want[y, x]) < 1e-9) for x, y in p), lambda: f'{what}: plot of the norm in grain {g.grain_id} {im.tolist()}')
                plt.close('all')
        ctx.step()
        ctx.state((case['crop'], what))
        ctx.trace()


# crops of more pixels than a byte can count: (near side, far side) of the long direction
WIDE = [[(300, 0)], [(0, 299)], [(270, 258)], [(129, 128), (300, 0)], [(255, 256), (1, 2)], [(513, 1), (0, 600)]]


def run_wide(case, ctx):
    shape = tuple(case['shape'])
    near, far = ('left', 'right') if shape[1] > shape[0] else ('top', 'bottom')
    for upd in (False, True):
        for pre in ([], [('mask', 'chess')], [('pattern', 3)], [('add', 'plain'), ('points', 0)], [('points', 0), ('add', 'binned'), ('mask', 'row')]):
            w = World(shape)
            hist = list(pre)
            for o in pre:
                w.apply(o)
            for a, b in WIDE[case['a']]:
                kw = {near: a, far: b}
                if upd:
                    kw['update_homog_points'] = True
                for o in (('crop', kw), ('mask', 'dilate')):
                    w.apply(o)
                    hist.append(o)
                    ctx.step()
                    w.compare(ctx, hist)
            ctx.state((shape, case['a'], upd, str(pre)))
            ctx.trace()


def cases(tier):
    n = len(OPS)
    out = [dict(kind='seq', first=[a, b], depth=3 if tier == 'quick' else 4) for a in range(n) for b in range(n)]
    out += [dict(kind='bfs', first=a, depth=4 if tier == 'quick' else 6) for a in range(n)]
    k = len(POPS)
    out += [dict(kind='pts', first=[a], depth=4 if tier == 'quick' else 5) for a in range(k)]
    out += [dict(kind='dilate', shape=sh, a=a, crop=c, top=4 if tier == 'quick' else 8) for sh, crops in (((5, 6), (0, 1)), ((2, 7), (0,)), ((4, 2), (0,)))
            for a in range(sh[0] * sh[1]) for c in crops]
    out += [dict(kind='wide', shape=sh, a=a) for sh in ((6, 700), (700, 6)) for a in range(len(WIDE))]
    out += [dict(kind='use', crop=c, part=p) for c in ([0, 0], [1, 0], [0, 2], [2, 1]) for p in range(5)]
    out += [dict(kind='bad')]
    return out


def run(case, ctx):
    n = len(OPS)
    if case['kind'] == 'pts':
        for tail in itertools.product(range(len(POPS)), repeat=case['depth'] - 1):
            run_points(list(case['first']) + list(tail), ctx)
    elif case['kind'] == 'seq':
        def rec(h):
            w = World(SHAPE)
            for o in h:
                if not enabled(w.m, OPS[o]):
                    return
                w.apply(OPS[o])
                if sum(h) % 2:
                    w.read()
            ctx.step()
            ctx.state(w.m.canon())
            w.compare(ctx, [OPS[o] for o in h])
            if len(h) == case['depth']:
                ctx.trace()
            else:
                for o in range(n):
                    rec(h + [o])
        rec(list(case['first']))
    elif case['kind'] == 'bfs':
        frontier = [[case['first']]]
        for _ in range(case['depth'] - 1):
            nxt = []
            for h in frontier:
                for o in range(n):
                    w = World(SHAPE)
                    ok = True
                    for q in h + [o]:
                        if not enabled(w.m, OPS[q]):
                            ok = False
                            break
                        w.apply(OPS[q])
                        if q % 3 == 0:
                            w.read()      # reads in between
                    if ok and ctx.state(w.m.canon()):
                        ctx.step()
                        w.compare(ctx, [OPS[q] for q in h + [o]])
                        ctx.trace()
                        nxt.append(h + [o])
            if len(nxt) > (150 if case['depth'] <= 4 else 3000):
                break
            frontier = nxt
    elif case['kind'] == 'dilate':
        run_dilate(ctx, case)
    elif case['kind'] == 'use':
        run_use(case, ctx)
    elif case['kind'] == 'wide':
        run_wide(case, ctx)
    else:
        w = World(SHAPE)
        d = w.d
        ctx.raises(ValueError, lambda: d.data.generate('mask', mask=np.zeros((2, 2), bool)), 'mask of another shape')
        ctx.raises(ValueError, lambda: d.data.generate('mask', mask=[[True]]), 'mask that is no array')
        w.apply(('crop', dict(left=1, bottom=2)))
        ctx.raises(ValueError, lambda: d.data.generate('mask', mask=np.zeros(SHAPE, bool)), 'mask of the shape before the crop')
        w.compare(ctx, 'refused masks')
        ctx.raises(Exception, lambda: d.data.pattern, 'pattern before a path is set')
        d.set_pattern(pattern_file(SHAPE, 1)[0], 3)
        ctx.raises(ValueError, lambda: d.data.pattern, 'pattern image of another size')
        for s in (0.5, 2.0):
            d.set_scale(s)
            ctx.check(abs(d.scale - s * B) < 1e-12, 'scale')
        ctx.step(6)


def setup(tier):
    for b in (1, 3):
        pattern_file(SHAPE, b)


if __name__ == '__main__':
    check.main(globals())
