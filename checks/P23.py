"""P23: data by grain and data by pixel, and the shape of a grain."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402

PROP = 'P23'
LEVEL = 'exploration'
RULE = ('every assignment of two phases and no phase to the pixels of the map (all partitions these give), and cropped HRDIC maps '
        'linked to them; for each every subset of up to four grains in both orders, every data type and component, and every '
        'background of a list. Non-trivial: at least two grains')
ASSUMPTIONS = ['maps of one grain are made from scalar data or a value (or colour) per point, as the plots use them',
               'a centre halfway between two pixels may be rounded to either']
SHAPES = {'quick': [(2, 4), (3, 3), (1, 5)], 'thorough': [(2, 4), (3, 3), (1, 7), (2, 5), (7, 1)]}


def cases(tier):
    out = []
    for h, w in SHAPES[tier]:
        k = 3 if (h, w) != (3, 3) or tier != 'quick' else 2
        for first in itertools.product(range(k), repeat=2):
            out.append(dict(kind='ebsd', shape=[h, w], k=k, first=first))
    for i in range(6):
        out.append(dict(kind='wide', i=i))
    for first in range(2 ** 4):
        out.append(dict(kind='dic', first=first))
    return out


def sources(shape):
    h, w = shape
    n = h * w
    v = np.arange(n).reshape(shape)
    return dict(real=v * 1.5 - 3.25, uint8=((v * 37 + 5) % 256).astype(np.uint8), flag=(v % 3 == 1), single=(v / 7).astype(np.float32),
                vector=np.array([v * .5, 100. - v]), tensor=np.array([[v + .5, v * v], [-v, 2. * v]]))


def verify_map(ctx, m, what, full, plots):
    """m: map with grains; the grain map says which pixel is in which grain."""
    gm = np.array(m.data.grains)
    h, w = gm.shape
    src = sources((h, w))
    n = len(m)
    ctx.check(gm.max(initial=0) <= n, f'{what}: grain numbers in the map')
    pix = []
    for g in range(n):
        pts = [tuple(int(v) for v in p) for p in m[g].data.point]
        pix.append(pts)
        ctx.check(sorted(pts) == sorted((int(x), int(y)) for y, x in np.argwhere(gm == g + 1)), lambda: f'{what}: points {pts} of grain {g}, map {gm.tolist()}')
    # single grains
    for g in range(n):
        G = m[g]
        pts = pix[g]
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        x0, y0, x1, y1 = min(xs), min(ys), max(xs), max(ys)
        ctx.check(len(G) == len(pts) and G.grain_id == g, f'{what}: size or number of grain {g}')
        ctx.check(tuple(G.extreme_coords) == (x0, y0, x1, y1), lambda: f'{what}: extent {G.extreme_coords} of {pts}')
        for gc in (True, False):
            ox, oy = (x0, y0) if gc else (0, 0)
            for kind, cx, cy in (('box', (x0 + x1) / 2, (y0 + y1) / 2), ('com', sum(xs) / len(xs), sum(ys) / len(ys))):
                c = G.centre_coords(centre_type=kind, grain_coords=gc)
                ctx.check(all(isinstance(v, int) for v in c) and abs(c[0] + ox - cx) <= .5 + 1e-9 and abs(c[1] + oy - cy) <= .5 + 1e-9, lambda: f'{what}: centre {kind} {c} of {pts}')
            ctx.check(G.centre_coords(grain_coords=gc) == G.centre_coords(centre_type='box', grain_coords=gc), f'{what}: default centre')
        ctx.check(G.centre_coords() == G.centre_coords(centre_type='box', grain_coords=True), f'{what}: default centre')
        ctx.raises(ValueError, lambda: G.centre_coords(centre_type='other'), f'{what}: unknown centre')
        inside = np.zeros((y1 - y0 + 1, x1 - x0 + 1), bool)
        for x, y in pts:
            inside[y - y0, x - x0] = True
        for bg, fg in ((None, None), (np.nan, 1), (0, 1), (5, np.nan), (0, .5)):
            o = G.grain_outline() if bg is None else G.grain_outline(bg=bg, fg=fg)
            b, f = (np.nan, 0) if bg is None else (bg, fg)
            ctx.check(np.array_equal(np.array(o, float), np.where(inside, f, b), equal_nan=True), lambda: f'{what}: outline of {pts} with {bg}, {fg}: {o.tolist()}')
        for k, a in src.items():
            want = np.moveaxis(np.array([a[..., y, x] for x, y in pts]), 0, -1)
            d = G.grain_data(a)
            ctx.check(np.array_equal(d, want), lambda: f'{what}: {k} of grain {g} is {d.tolist()}')
            if a.ndim > 2:
                continue
            for bg in (None, 0, -1.5):
                for gd in (False, True):
                    kw = dict(bg=bg) if bg is not None else {}
                    v = G.grain_map_data(grain_data=want, **kw) if gd else G.grain_map_data(map_data=a, **kw)
                    e = np.where(inside, a[y0:y1 + 1, x0:x1 + 1].astype(float), np.nan if bg is None else bg)
                    if k == 'uint8' and bg == -1.5:
                        pass
                    ctx.check(v.shape == inside.shape and np.array_equal(np.array(v, float), e, equal_nan=True), lambda: f'{what}: {k} map of grain {g} with background {bg}: {v.tolist()}, expected {e.tolist()}')
            if k in ('real', 'uint8'):
                for ks in (0, 1, 2, 5):
                    for gd in (False, True):
                        kw = dict(grain_data=want) if gd else dict(map_data=a)
                        if ks == 5:
                            kw['bg'] = 7.
                        v = G.grain_map_data_coarse(kernel_size=ks, **kw)
                        for y, x in np.ndindex(inside.shape):
                            near = [float(a[q[1], q[0]]) for q in pts if abs(q[0] - x0 - x) <= ks and abs(q[1] - y0 - y) <= ks]
                            if inside[y, x]:
                                ctx.check(abs(v[y, x] - sum(near) / len(near)) < 1e-9, lambda: f'{what}: coarse {k} with kernel {ks}: {v.tolist()}')
                            else:
                                ctx.check(v[y, x] == 7. if ks == 5 else np.isnan(v[y, x]), f'{what}: coarse {k} outside of the grain')
        rgb = np.array([[.1 * i, .5, 1 - .01 * i] for i in range(len(pts))])
        v = G.grain_map_data(grain_data=rgb)
        ctx.check(v.shape == inside.shape + (3,) and all(np.array_equal(v[p[1] - y0, p[0] - x0], rgb[i]) for i, p in enumerate(pts)), f'{what}: colours of grain {g}')
        ctx.raises(ValueError, lambda: G.grain_map_data(), f'{what}: no data')
        # own data of the grain
        G.data.add('own', np.array([[g * 10. + i, -i] for i in range(len(pts))]).T, type='list', order=1, unit='')
        G.data.add('own0', np.array([g + i / 8 for i in range(len(pts))]), type='list', order=0, unit='')
        ctx.step()
    if n:
        for name, comps in (('own', 2), ('own0', 0)):
            for v in (m.grain_data_to_map(name), np.array(m.data[name])):
                want = np.zeros(((comps,) if comps else ()) + (h, w))
                for g in range(n):
                    for i, (x, y) in enumerate(pix[g]):
                        if comps:
                            want[:, y, x] = (g * 10. + i, -i)
                        else:
                            want[y, x] = g + i / 8
                ctx.check(v.shape == want.shape and np.array_equal(v, want), lambda: f'{what}: {name} of all grains as a map {v.tolist()}, expected {want.tolist()}')
    # subsets
    if n <= 4:
        subs = [list(o) for r in range(n + 1) for s in itertools.combinations(range(n), r) for o in {s, s[::-1]}]
    else:
        subs = [list(range(n)), list(range(n))[::-1], list(range(0, n, 2)), [n - 1, 0], []]
    for ids in [-1, n - 1] + subs if n else [-1]:
        lst = list(range(n)) if type(ids) is int and ids == -1 else [ids] if type(ids) is int else ids
        for k in ('real', 'uint8', 'flag'):
            want = [np.mean([float(src[k][y, x]) for x, y in pix[g]]) for g in lst]
            v = m.calc_grain_average(src[k], grain_ids=ids)
            ctx.check(len(v) == len(lst) and np.allclose(v, want), lambda: f'{what}: average of {k} over grains {ids}: {v}, expected {want}')
        if n and ids == -1:
            ctx.check(np.allclose(m.calc_grain_average(src['real']), [np.mean([src['real'][y, x] for x, y in pix[g]]) for g in lst]), f'{what}: average over all grains')
        data = [dict(v=[.5 + i for i in range(len(lst))]), dict(v=np.array([i + 1 for i in range(len(lst))])), dict(v=np.array([i % 2 == 0 for i in range(len(lst))], dtype=bool)),
                dict(v=np.array([[.1 * i, 1 - .1 * i, .5] for i in range(len(lst))]).reshape(-1, 3), rgb=True)]
        for t in data:
            for bg in (0, -1, np.nan, .5):
                r = m.grain_data_to_map_data(t['v'], grain_ids=ids, bg=bg)
                want = np.full((h, w) + ((3,) if 'rgb' in t else ()), float(bg))
                for i, g in enumerate(lst):
                    for x, y in pix[g]:
                        want[y, x] = t['v'][i]
                ctx.check(r.shape == want.shape and np.array_equal(np.array(r, float), want, equal_nan=True), lambda: f'{what}: values {t["v"]} of grains {ids} over {bg}: {r.tolist()}, expected {want.tolist()}')
        ctx.raises(ValueError, lambda: m.grain_data_to_map_data([1.] * (len(lst) + 1), grain_ids=ids), f'{what}: too many values')
        if lst:
            ctx.raises(ValueError, lambda: m.grain_data_to_map_data([1.] * (len(lst) - 1), grain_ids=ids), f'{what}: too few values')
            ctx.raises(ValueError, lambda: m.grain_data_to_map_data(np.zeros((len(lst), 2)), grain_ids=ids), f'{what}: two values per grain')
        if plots and lst:
            p = m.plot_grain_data_map(map_data=src['real'], grain_ids=ids, bg=-5)
            want = np.full((h, w), -5.)
            for g in lst:
                for x, y in pix[g]:
                    want[y, x] = np.mean([src['real'][yy, xx] for xx, yy in pix[g]])
            ctx.check(np.allclose(np.asarray(p.img_layers[0].get_array(), float), want), f'{what}: plotted averages of grains {ids}')
            p = m.plot_grain_data_map(grain_data=[3. + i for i in range(len(lst))], grain_ids=ids)
            want = np.zeros((h, w))
            for i, g in enumerate(lst):
                for x, y in pix[g]:
                    want[y, x] = 3. + i
            ctx.check(np.allclose(np.asarray(p.img_layers[0].get_array(), float), want), f'{what}: plotted values of grains {ids}')
            plt.close('all')
    ctx.eval(what if n > 1 else None)


def run_ebsd(ctx, case):
    h, w = case['shape']
    for n, rest in enumerate(itertools.product(range(case['k']), repeat=h * w - 2)):
        ph = np.array(list(case['first']) + list(rest), dtype=np.uint8).reshape(h, w)
        if case['k'] == 2:
            ph += 1
        m = ebsd_map((h, w), phase_im=ph, kinds=('fcc', 'bcc'))
        m.data.generate('grains', min_grain_size=1 if n % 5 else 2)
        verify_map(ctx, m, f'phases {ph.tolist()}', True, n % 97 == 0)


def run_wide(ctx, case):
    """More grains, and more pixels in a grain and in a row, than a byte can count."""
    i = case['i']
    if i < 2:       # single pixels
        ph = 1 + np.indices((2, 140)).sum(axis=0) % 2
    elif i < 4:     # two rows, one pixel in the wrong row
        ph = np.repeat([[1], [2]], 290, axis=1)
        ph[0, 270] = 2
    else:           # frame of one phase around another
        ph = np.full((18, 20), 2)
        ph[1:-1, 1:-1] = 1
    ph = (ph if i % 2 == 0 else np.ascontiguousarray(ph.T)).astype(np.uint8)
    m = ebsd_map(ph.shape, phase_im=ph, kinds=('fcc', 'bcc'))
    m.data.generate('grains', min_grain_size=1)
    ctx.check(len(m) > 255 or max(len(g) for g in m) > 255, f'{case}: wide')
    verify_map(ctx, m, f'wide {i}', True, True)


def run_dic(ctx, case):
    for rest in itertools.product(range(2), repeat=5):
        bits = [case['first'] >> i & 1 for i in range(4)] + list(rest)
        ph = np.array(bits, dtype=np.uint8).reshape(3, 3) + 1
        # pixels of the EBSD map are 2 by 2 pixels of the HRDIC map
        e = ebsd_map((3, 3), phase_im=ph, kinds=('fcc', 'bcc'))
        e.data.generate('grains', min_grain_size=1)
        d = dic_map(shape=(6, 6))
        crop = sum(bits) % 3
        if crop:
            d.set_crop(left=crop, top=2 - crop)
        sq = [(0, 0), (2, 0), (0, 2), (2, 2)]
        e.frame.set_homog_points(sq)
        d.frame.set_homog_points([(2 * x, 2 * y) for x, y in sq])
        d.link_ebsd_map(e, transform_type='affine')
        d.data.generate('grains', algorithm=('warp', 'floodfill')[sum(bits) // 3 % 2], min_grain_size=1)
        ctx.note(f'HRDIC maps with {len(d)} grains')
        if len(d):
            verify_map(ctx, d, f'HRDIC map cropped by {crop} of phases {ph.tolist()}', False, case['first'] == 5)


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
