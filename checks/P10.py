"""P10: transforms between frames and what is warped with them."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from mc.fixtures import dic_map, ebsd_map     # noqa: E402
from defdap.experiment import Frame, Experiment  # noqa: E402

PROP = 'P10'
LEVEL = 'exploration'
RULE = ('every combination of transform type, linear part, shift, map shapes and crop from the lists in the check, with points that fit and points that do not; transforms '
        'compared on the homologous points and a grid of other points in both directions, warped images with a nearest '
        'pixel lookup, lines and boundary points with their transformed position. (relink) every sequence of three links of one pair of maps, by transform type and order, against a pair linked once. Non-trivial: not the identity')
ASSUMPTIONS = ['pixels whose source position is within 0.02 of the middle between two pixels are not judged',
               'warped boundary points are checked to 1.5 pixels (they are made by thinning an image), for straight '
               'boundaries of 20 pixels or more and frames that are scaled and shifted']

LIN = {
    'id': ((1, 0), (0, 1)), 'x3': ((3, 0), (0, 3)), 'half': ((.5, 0), (0, .5)), 'aniso': ((2, 0), (0, 3)),
    'rot': ((math.cos(.2), -math.sin(.2)), (math.sin(.2), math.cos(.2))), 'shear': ((1, .25), (0, 1)),
    'flip': ((-1, 0), (0, 1)), 'swap': ((0, 1), (1, 0)), 'gen': ((1.3, .2), (-.1, .8)),
}
SHIFT = [(0, 0), (3, -2), (-4.5, 10), (100, 57)]
TYPES = ['affine', 'projective', 'polynomial', 'piecewise_affine', 'piecewiseAffine']


def pts_grid(n=3, w=12, h=9):
    return [(w * i / (n - 1), h * j / (n - 1)) for j in range(n) for i in range(n)]


def apply_lin(L, s, p):
    p = np.asarray(p, float)
    return p @ np.array(L, float).T + np.array(s, float)


def proj(p):
    p = np.asarray(p, float)
    d = 1 + .01 * p[:, 0] - .005 * p[:, 1]
    return np.stack([(1.2 * p[:, 0] + .1 * p[:, 1] + 2) / d, (.05 * p[:, 0] + .9 * p[:, 1] - 1) / d], 1)


def cases(tier):
    out = []
    for t in TYPES:
        for l in LIN:
            for s in range(len(SHIFT)):
                out.append(dict(kind='trans', type=t, lin=l, shift=s))
    for t in TYPES + ['polynomial1']:
        for l in LIN:
            for n in range(3, 6 if tier == 'quick' else 9):
                out.append(dict(kind='few', type=t, lin=l, n=n))
    out.append(dict(kind='proj'))
    out.append(dict(kind='poly'))
    for i in range(len(LINKS)):
        out.append(dict(kind='relink', first=i))
    out.append(dict(kind='errors'))
    for t in TYPES:
        for l in ('id', 'x3', 'aniso', 'rot', 'shear', 'flip', 'gen'):
            for k in range(9 if tier == 'quick' else 81):
                out.append(dict(kind='noise', type=t, lin=l, k=k))
    shapes = [(4, 4), (3, 6), (6, 3), (1, 5), (5, 1)]
    outs = [(4, 4), (7, 5), (5, 9), (12, 15)]
    for t in ('affine', 'projective'):
        for l in ('id', 'x3', 'half', 'aniso', 'rot', 'shear', 'flip', 'swap', 'gen'):
            for sh in shapes:
                for s in ((0, 0), (1, -1), (-2, 3)):
                    out.append(dict(kind='image', type=t, lin=l, shape=sh, shift=s, outs=outs))
    for t in ('affine', 'projective'):
        for l in ('id', 'x3', 'half', 'swap'):
            for sh in ((3, 400), (400, 3)):
                for s in ((0, 0), (300, -1), (-2, -270)):
                    out.append(dict(kind='image', type=t, lin=l, shape=sh, shift=s, outs=[(4, 700), (700, 4)]))
    for t in TYPES:
        for l in LIN:
            # (points on the hull of a piecewise transform may be outside of it by rounding)
            if not t.startswith('piecewise') or l in ('id', 'x3', 'half', 'flip', 'swap'):
                out.append(dict(kind='manypts', type=t, lin=l))
    dsh = [(5, 5), (4, 7), (7, 4)]
    for l in ('id', 'x3', 'aniso', 'shear'):
        for sh in shapes[:3]:
            for d in dsh:
                for c in range(9):
                    out.append(dict(kind='dic', lin=l, shape=sh, dshape=d, crop=(c % 3, c // 3)))
    for l in ('id', 'x3', 'half', 'aniso', 'swap', 'gen'):
        for s in ((0, 0), (3, -2), (-1, 5)):
            out.append(dict(kind='lines', lin=l, shift=s))
    for sh in ((24, 24), (60, 22), (22, 60), (40, 30)) + (((300, 22), (24, 290)) if tier != 'quick' else ()):
        for ax in 'xy':
            for l in ((1, 1), (2, 2), (3, 3), (.5, .5), (2, 3)):
                for off in ((0, 0), (3, 2), (-3, -2), (5, -4)):
                    # (boundaries of less than 10 points are removed on purpose)
                    if min(l) < 1 and min(sh) < 40:
                        continue
                    if max(l) > 2 and max(sh) > 50 and tier == 'quick':
                        continue
                    out.append(dict(kind='points', shape=sh, ax=ax, sc=l, off=off))
    return out


def extra(t):
    return dict(type=t.lower(), order=2) if t == 'polynomial' else dict(type=t.lower())


def run_trans(case, ctx):
    L, s = LIN[case['lin']], SHIFT[case['shift']]
    ex = Experiment()
    f1, f2, f3 = Frame(), Frame(), Frame()
    p1 = pts_grid(4 if case['type'] == 'polynomial' else 3)
    p2 = apply_lin(L, s, p1)
    f1.set_homog_points(p1)
    f2.set_homog_points([tuple(p) for p in p2])
    f3.set_homog_points(apply_lin(L, (1, 1), p2))
    ex.link_frames(f1, f2, extra(case['type']))
    ex.link_frames(f3, f1, dict(type='affine'))
    compare_trans(ctx, ex, f1, f2, p1, p2, [(1.5, 2.5), (7.25, 8), (0.1, .2), (11, 4)], L, s, case)
    # moved points are used from then on
    f2.update_homog_points(-1, delta=(5, -3))
    s2 = (s[0] + 5, s[1] - 3)
    compare_trans(ctx, ex, f1, f2, p1, apply_lin(L, s2, p1), [(1.5, 2.5), (7.25, 8)], L, s2, case)
    T = ex.get_frame_transform(f3, f1)
    ctx.check(np.allclose(T(apply_lin(L, (1, 1), p2)), p1, atol=1e-6), f'{case}: other link')
    ctx.eval(str(case) if case['lin'] != 'id' else None)


def run_manypts(case, ctx):
    """More homologous points than a byte can count; all of them matter."""
    t = case['type']
    L, s = LIN[case['lin']], (300, -270)
    ex = Experiment()
    f1, f2 = Frame(), Frame()
    p1 = pts_grid(18, 600, 500)
    f1.set_homog_points(p1)
    f2.set_homog_points([tuple(p) for p in apply_lin(L, s, p1)])
    ex.link_frames(f1, f2, extra(t))
    compare_trans(ctx, ex, f1, f2, p1, apply_lin(L, s, p1), [(1.5, 2.5), (307.25, 8), (0.1, 402), (511, 499)], L, s, case)
    ctx.check(len(f1.homog_points) == len(p1), f'{case}: number of points')
    ctx.eval(str(case))
    if t == 'affine':
        # the least-squares transform: points far down the list move it
        rng = [(((i * 37) % 11 - 5) / 3, ((i * 53) % 13 - 6) / 3) for i in range(len(p1))]
        q = apply_lin(L, s, p1) + np.array([(a * (1 + i // 100), b * (1 + i // 90)) for i, (a, b) in enumerate(rng)])
        f2.set_homog_points([tuple(p) for p in q])
        A = np.c_[np.array(p1, float), np.ones(len(p1))]
        want = np.linalg.lstsq(A, q, rcond=None)[0]
        got = ex.get_frame_transform(f1, f2)(np.array(p1, float))
        ctx.check(np.abs(got - A @ want).max() < 1.5, lambda: f'{case}: fit of many points off by {np.abs(got - A @ want).max()}')


def run_few(case, ctx):
    """Every set of few points that determines the transform, from the smallest number on."""
    t = case['type']
    L, s = LIN[case['lin']], (3, -2)
    grid = [(0, 0), (6, 0), (12, 0), (0, 6), (6, 6), (12, 6), (0, 12), (6, 12), (12, 12)]
    props = dict(type='polynomial', order=1) if t == 'polynomial1' else extra(t)
    need = 3 if t == 'polynomial' else 0
    for sub in itertools.combinations(grid, case['n'] + need):
        p = np.array(sub, float)
        if t == 'polynomial':
            M = np.array([[1, x, y, x * x, x * y, y * y] for x, y in p / 12])
            if np.linalg.matrix_rank(M) < 6 or np.linalg.cond(M) > 200:
                continue
        else:
            tri = [abs(np.linalg.det([b - a, c - a])) > 1 for a, b, c in itertools.combinations(p, 3)]
            if not any(tri) or (t == 'projective' and len(p) == 4 and not all(tri)):
                continue
            if t == 'projective' and len(p) < 4:
                continue
        q = apply_lin(L, s, p)
        for sense in (0, 1):
            ex = Experiment()
            f1, f2 = Frame(), Frame()
            f1.set_homog_points([tuple(v) for v in p])
            f2.set_homog_points([tuple(v) for v in q])
            a, b = (f1, f2) if sense == 0 else (f2, f1)
            ex.link_frames(a, b, dict(props))
            T, R = ex.get_frame_transform(f1, f2), ex.get_frame_transform(f2, f1)
            what = f'{case} {sub} linked in sense {sense}'
            ctx.check(np.allclose(T(p), q, atol=1e-4), lambda: f'{what}: homologous points go to {T(p).tolist()}, expected {q.tolist()}')
            ctx.check(np.allclose(R(q), p, atol=1e-4), lambda: f'{what}: homologous points go back to {R(q).tolist()}, expected {p.tolist()}')
            if not t.lower().startswith('piece'):
                probe = np.array([(1.5, 2.5), (7.25, 7.5), (3, 3.3), (10.7, 4)])
                w = apply_lin(L, s, probe)
                ctx.check(np.allclose(T(probe), w, atol=1e-3) and np.allclose(R(w), probe, atol=1e-3), lambda: f'{what}: other points go to {T(probe).tolist()} and back to {R(w).tolist()}')
            ctx.step()
        ctx.eval(f'{case} {sub}')


def run_noise(case, ctx):
    """Points that do not fit the transform exactly."""
    L, s = LIN[case['lin']], (3, -2)
    size = abs(np.linalg.det(np.array(L, float))) ** .5
    p1 = pts_grid(4 if case['type'] == 'polynomial' else 3)
    k = case['k']
    p2 = apply_lin(L, s, p1)
    noise = np.array([[((k // 3 ** (i % 4)) % 3 - 1 + i % 2) * .4 * size, ((k + i * i) % 3 - 1) * .4 * size] for i in range(len(p1))])
    p2 = p2 + noise
    dev = np.abs(noise).max()
    probe = np.array([(1.5, 2.5), (7.25, 7.5), (3, 3.3), (10.7, 4)])
    for sense in (0, 1):
        ex = Experiment()
        f1, f2 = Frame(), Frame()
        f1.set_homog_points(p1)
        f2.set_homog_points([tuple(p) for p in p2])
        a, b = (f1, f2) if sense == 0 else (f2, f1)
        ex.link_frames(a, b, extra(case['type']))
        T, R = ex.get_frame_transform(f1, f2), ex.get_frame_transform(f2, f1)
        exact = case['type'].lower().startswith('piece')
        ctx.check(np.abs(T(np.array(p1, float)) - p2).max() <= (1e-6 if exact else 3 * dev + 1e-6), f'{case} {sense}: homologous points')
        ctx.check(np.abs(R(p2) - np.array(p1, float)).max() <= (1e-6 if exact else 3 * dev / size * 3 + 1e-6), f'{case} {sense}: homologous points back')
        if case['type'] in ('affine', 'projective'):
            # (polynomials are fitted in each direction, and triangles are chosen in each direction)
            ctx.check(np.allclose(R(T(probe)), probe, atol=1e-6), lambda: f'{case} {sense}: there and back leads from {probe.tolist()} to {R(T(probe)).tolist()}')
            q = T(probe)
            ctx.check(np.allclose(T(R(q)), q, atol=1e-6), lambda: f'{case} {sense}: back and there leads from {q.tolist()} to {T(R(q)).tolist()}')
        ctx.eval(f'{case} {sense}' if k else None)


def compare_trans(ctx, ex, f1, f2, p1, p2, probe, L, s, case):
    T = ex.get_frame_transform(f1, f2)
    R = ex.get_frame_transform(f2, f1)
    ctx.check(np.allclose(T(np.array(p1, float)), p2, atol=1e-5), lambda: f'{case}: homologous points go to {T(np.array(p1, float)).tolist()}')
    ctx.check(np.allclose(R(np.array(p2, float)), p1, atol=1e-5), lambda: f'{case}: and back to {R(np.array(p2, float)).tolist()}')
    q = apply_lin(L, s, probe)
    ctx.check(np.allclose(T(np.array(probe, float)), q, atol=1e-4), f'{case}: other points')
    ctx.check(np.allclose(R(q), probe, atol=1e-4), f'{case}: other points back')


def nearest(img, src, shape):
    """expected (value, judged) images: src(x, y) is the source position of output pixels."""
    h, w = shape
    xx, yy = np.meshgrid(np.arange(w), np.arange(h))
    S = src(np.stack([xx.ravel(), yy.ravel()], 1).astype(float)).reshape(h, w, 2)
    X, Y = S[..., 0], S[..., 1]
    judged = (np.abs(X - np.floor(X) - .5) > .02) & (np.abs(Y - np.floor(Y) - .5) > .02)
    Xi, Yi = np.floor(X + .5).astype(int), np.floor(Y + .5).astype(int)
    ins = (Xi >= 0) & (Yi >= 0) & (Xi < img.shape[1]) & (Yi < img.shape[0])
    # positions within one pixel outside of the image are the business of the image library
    near = (X > -.52) & (X < img.shape[1] - .48) & (Y > -.52) & (Y < img.shape[0] - .48) & ~ins
    val = np.zeros(shape)
    val[ins] = img[Yi[ins], Xi[ins]]
    return val, judged & ~near


def run_image(case, ctx):
    L, s = LIN[case['lin']], case['shift']
    sh = tuple(case['shape'])
    img = 1. + np.arange(sh[0] * sh[1]).reshape(sh)
    ex = Experiment()
    f1, f2 = Frame(), Frame()
    p1 = [(0, 0), (9, 0), (0, 9), (9, 9), (4, 6)]
    f1.set_homog_points(p1)
    f2.set_homog_points(apply_lin(L, s, p1))
    Li = np.linalg.inv(np.array(L, float))
    fwd = lambda p: apply_lin(L, s, p)                  # noqa
    back = lambda p: (p - np.array(s, float)) @ Li.T      # noqa
    for linked in (0, 1):
        ex.frame_relations.clear() if False else None
        ex = Experiment()
        if linked == 0:
            ex.link_frames(f1, f2, dict(type=case['type']))
        else:
            ex.link_frames(f2, f1, dict(type=case['type']))
        for o in case['outs']:
            o = tuple(o)
            for a, b, src in ((f1, f2, back), (f2, f1, fwd)):
                keep = img.copy()
                got = ex.warp_image(img, a, b, output_shape=o, order=0, preserve_range=True)
                want, j = nearest(img, src, o)
                ctx.check(got.shape == o and np.allclose(got[j], want[j], atol=1e-6),
                          lambda: f'{case}: warped to {got.tolist()}, expected {want.tolist()} where {j.astype(int).tolist()}')
                ctx.check(np.array_equal(img, keep), f'{case}: the input image was changed')
                ctx.note('judged pixels', int(j.sum()))
                ctx.note('judged pixels with data', int((j & (want > 0)).sum()))
                ctx.eval(f'{case} {o} {a is f1}' if (want > 0).any() else None)
        if case['type'] == 'affine' and case['lin'] in ('id', 'x3', 'half', 'aniso'):
            # whole image with a border
            for a, b, lin in ((f1, f2, Li), (f2, f1, np.array(L, float))):
                sc = np.abs(np.diag(lin))
                exp_shape = (int(sh[0] * 1.4 / sc[1] + 1e-9), int(sh[1] * 1.4 / sc[0] + 1e-9))
                if min(exp_shape) < 1 or min(sh) < 3:
                    continue
                got = ex.warp_image(img, a, b, crop=False, order=0, preserve_range=True)
                ctx.check(all(abs(p - q) <= 1 for p, q in zip(got.shape, exp_shape)),
                          lambda: f'{case}: whole image has shape {got.shape}, expected {exp_shape}')
                off = -.05 * np.array([sh[1], sh[0]])
                want, j = nearest(img, lambda p: p @ lin.T + off, got.shape)
                ctx.check(np.allclose(got[j], want[j], atol=1e-6), lambda: f'{case}: whole image {got.tolist()}, expected {want.tolist()}')
                ctx.check(set(np.unique(img)) <= set(np.unique(got)) or min(1 / sc) < 1, lambda: f'{case}: part of the whole image is missing')


def run_dic(case, ctx):
    L = LIN[case['lin']]
    sh, dsh, (cl, ct) = tuple(case['shape']), tuple(case['dshape']), case['crop']
    e = ebsd_map(sh)
    d = dic_map(dsh)
    p1 = [(0, 0), (9, 0), (0, 9), (9, 9)]
    e.frame.set_homog_points(p1)
    d.frame.set_homog_points(apply_lin(L, (0, 0), p1))
    d.link_ebsd_map(e, transform_type='Affine')
    Li = np.linalg.inv(np.array(L, float))
    img = 1. + np.arange(sh[0] * sh[1]).reshape(sh)
    want, j = nearest(img, lambda p: p @ Li.T, dsh)
    for step in range(3):
        got = d.warp_to_dic_frame(img, order=0, preserve_range=True)
        if step == 0:
            w_, j_ = want, j
        elif step == 1:
            w_, j_ = want[ct:, cl:], j[ct:, cl:]
        else:
            w_, j_ = want[ct:dsh[0] - 1, 1:], j[ct:dsh[0] - 1, 1:]
        ctx.check(got.shape == w_.shape and np.allclose(got[j_], w_[j_], atol=1e-6),
                  lambda: f'{case} step {step}: {got.tolist()}, expected {w_.tolist()}')
        ctx.eval(f'{case} {step}')
        if step == 0:
            d.set_crop(left=cl, top=ct, update_homog_points=True)
        elif step == 1:
            d.set_crop(left=1, bottom=1, update_homog_points=True)
    e2 = ebsd_map(sh)
    d2 = dic_map(dsh)
    ctx.raises(Exception, lambda: d2.warp_to_dic_frame(img), 'warping without a linked map')


def run_lines(case, ctx):
    L, s = LIN[case['lin']], case['shift']
    ex = Experiment()
    f1, f2 = Frame(), Frame()
    p1 = [(0, 0), (9, 0), (0, 9), (9, 9), (4, 6)]
    f1.set_homog_points(p1)
    f2.set_homog_points(apply_lin(L, s, p1))
    ex.link_frames(f1, f2, dict(type='affine'))
    Li = np.linalg.inv(np.array(L, float))
    lines = [((x + .5, y - .5), (x + .5, y + .5)) for x in range(4) for y in range(3)] + \
            [((x - .5, y + .5), (x + .5, y + .5)) for x in range(4) for y in range(3)] + [((0.5, 0.5), (7.5, 3.5)), ((6.5, 1.5), (2.5, 9.5))]
    for a, b, fn in ((f1, f2, lambda p: apply_lin(L, s, p)), (f2, f1, lambda p: (p - np.array(s, float)) @ Li.T)):
        for n in (len(lines), 1, 2):
            got = ex.warp_lines(lines[:n], a, b)
            ctx.check(len(got) == n, f'{case}: {len(got)} lines of {n}')
            for g, l in zip(got, lines[:n]):
                for gp, lp in zip(g, l):
                    t = fn(np.array([lp], float))[0]
                    gp = np.array(gp, float)
                    ctx.check(np.all(np.abs(gp - t) <= .5 + 1e-6) and np.allclose(gp - .5, np.round(gp - .5)),
                              lambda: f'{case}: line end {lp} warped to {gp.tolist()}, expected near {t.tolist()} on a pixel corner')
                    ctx.eval(f'{case} {lp}')
    ctx.check(list(ex.warp_lines([], f1, f2)) == [], f'{case}: no lines')


def run_points(case, ctx):
    sh, ax, sc, off = tuple(case['shape']), case['ax'], np.array(case['sc'], float), np.array(case['off'], float)
    h, w = sh
    cut = (w if ax == 'x' else h) // 2
    e = np.zeros((3,) + sh)
    if ax == 'x':
        e[0][:, cut:] = .5
    else:
        e[0][cut:] = .5
    em = ebsd_map(sh, e)
    # HRDIC pixel = EBSD pixel * sc - off
    dsh = (int(round((h - abs(off[1]) / sc[1]) * sc[1])), int(round((w - abs(off[0]) / sc[0]) * sc[0])))
    dm = dic_map(dsh)
    pts = [(1, 1), (w - 2, 1), (1, h - 2), (w - 3, h - 4)]
    em.frame.set_homog_points(pts)
    dm.frame.set_homog_points([tuple(np.array(p) * sc - off) for p in pts])
    dm.link_ebsd_map(em)
    gb = dm.data.grain_boundaries
    im = np.asarray(gb.image)
    ctx.check(im.shape == dsh, f'{case}: shape of the boundary image')
    k = 0 if ax == 'x' else 1
    # the boundary is at the pixel edge cut - 1/2, drawn on the pixel before it
    exp_line = (cut - .5) * sc[k] - off[k]
    ys, xs = np.nonzero(im)
    loc, along = (xs, ys) if ax == 'x' else (ys, xs)
    tol = 1.5 + sc[k] / 2
    ctx.check(len(loc) > 0, f'{case}: no boundary points')
    ctx.check(np.all(np.abs(loc - exp_line) <= tol), lambda: f'{case}: boundary points at {sorted(set(loc.tolist()))}, expected {exp_line}')
    n = dsh[k]
    lo, hi = max(0, -off[1 - k]), min(n, (h if ax == 'x' else w) * sc[1 - k] - off[1 - k])
    cov = len(set(along.tolist())) / max(1, (hi - lo))
    ctx.check(cov > .85, lambda: f'{case}: boundary points cover {cov:.2f} of the boundary')
    ctx.eval(str(case))
    # lines of the same boundaries
    for ln in gb.lines:
        for p in ln:
            ctx.check(abs(p[k] - exp_line) <= 1 and abs(p[k] - .5 - round(p[k] - .5)) < 1e-9, lambda: f'{case}: line at {ln}, expected {exp_line}')
    ctx.check(len(gb.lines) == (h if ax == 'x' else w), f'{case}: {len(gb.lines)} boundary lines')
    # cropping the map moves the boundary with it
    dm.set_crop(left=2, top=1, update_homog_points=True)
    im2 = np.asarray(dm.data.grain_boundaries.image)
    ctx.check(im2.shape == (dsh[0] - 1, dsh[1] - 2), f'{case}: shape after crop')
    ys, xs = np.nonzero(im2)
    loc = (xs + 2) if ax == 'x' else (ys + 1)
    ctx.check(len(loc) > 0 and np.all(np.abs(loc - exp_line) <= tol), lambda: f'{case}: after crop at {sorted(set(loc.tolist()))}, expected {exp_line}')


LINKS = [('affine', {}), ('projective', {}), ('Polynomial', dict(order=1)), ('polynomial', {}), ('polynomial', dict(order=2)), ('polynomial', dict(order=3)),
         ('piecewise_affine', {})]


def run_relink(ctx, case):
    """Maps that are linked again, with another kind of transform or order: only the last link counts."""
    f = lambda p: np.stack([p[:, 0] + .02 * p[:, 0] * p[:, 1] + .003 * p[:, 0] ** 3 + 1, p[:, 1] - .01 * p[:, 0] ** 2 + .002 * p[:, 1] ** 3 + 2], 1)       # noqa
    p1 = np.array(pts_grid(5))
    q = np.array([(1., 2.), (3.5, 7.), (11, 3)])
    fresh = []
    for t, kw in LINKS:
        ex = Experiment()
        f1, f2 = Frame(), Frame()
        f1.set_homog_points(f(p1))
        f2.set_homog_points(p1)
        ex.link_frames(f1, f2, dict(type=t.lower(), **kw))
        fresh.append((ex.get_frame_transform(f2, f1)(q), ex.get_frame_transform(f1, f2)(f(q))))
        # the points are those of a cubic, which only a cubic fits
        ctx.check(np.allclose(fresh[-1][0], f(q), atol=1e-3) == (kw.get('order') == 3), lambda: f'{t} {kw}: {fresh[-1][0].tolist()}, points of a cubic {f(q).tolist()}')
    d = dic_map((12, 14))
    e = ebsd_map((12, 14))
    d.frame.set_homog_points(f(p1))
    e.frame.set_homog_points(p1)
    for seq in itertools.product(range(len(LINKS)), repeat=2):
        for i in (case['first'],) + seq:
            t, kw = LINKS[i]
            given = dict(kw)
            d.link_ebsd_map(e, transform_type=t, **given)
            got = (d.experiment.get_frame_transform(e.frame, d.frame)(q), d.experiment.get_frame_transform(d.frame, e.frame)(f(q)))
            ctx.check(np.allclose(got, fresh[i], atol=1e-9, equal_nan=True), lambda: f'{case} {seq}: linked by {t} {kw}, but points go to {got}, expected {fresh[i]}')
            ctx.check(given == kw, f'{case}: arguments changed')
            ctx.step()
        ctx.eval(f'{case} {seq}')


def run(case, ctx):
    k = case['kind']
    if k == 'trans':
        run_trans(case, ctx)
    elif k == 'image':
        run_image(case, ctx)
    elif k == 'dic':
        run_dic(case, ctx)
    elif k == 'lines':
        run_lines(case, ctx)
    elif k == 'points':
        run_points(case, ctx)
    elif k == 'manypts':
        run_manypts(case, ctx)
    elif k == 'proj':
        ex = Experiment()
        f1, f2 = Frame(), Frame()
        p1 = np.array(pts_grid(3))
        f1.set_homog_points(p1)
        f2.set_homog_points(proj(p1))
        ex.link_frames(f1, f2, dict(type='projective'))
        q = np.array([(1., 2.), (3.5, 7.)])
        ctx.check(np.allclose(ex.get_frame_transform(f1, f2)(q), proj(q), atol=1e-5), 'projective')
        ctx.check(np.allclose(ex.get_frame_transform(f2, f1)(proj(q)), q, atol=1e-5), 'projective back')
        ctx.eval('proj')
    elif k == 'noise':
        run_noise(case, ctx)
    elif k == 'few':
        run_few(case, ctx)
    elif k == 'poly':
        f = lambda p: np.stack([p[:, 0] + .02 * p[:, 0] * p[:, 1] + 1, p[:, 1] - .01 * p[:, 0] ** 2 + 2], 1)       # noqa
        ex = Experiment()
        f1, f2 = Frame(), Frame()
        p1 = np.array(pts_grid(5))
        f1.set_homog_points(p1)
        f2.set_homog_points(f(p1))
        ex.link_frames(f1, f2, dict(type='polynomial', order=2))
        q = np.array([(1., 2.), (3.5, 7.)])
        ctx.check(np.allclose(ex.get_frame_transform(f1, f2)(q), f(q), atol=1e-4), 'polynomial')
        # the opposite sense is estimated on its own, so it is only near
        ctx.check(np.allclose(ex.get_frame_transform(f2, f1)(f(p1)), p1, atol=.5), 'polynomial back')
        ctx.eval('poly')
    elif k == 'relink':
        run_relink(ctx, case)
    elif k == 'errors':
        ex = Experiment()
        f1, f2, f3 = Frame(), Frame(), Frame()
        ctx.raises(ValueError, lambda: ex.get_frame_transform(f1, f2), 'frames that are not linked')
        ex.link_frames(f1, f2, dict(type='affine'))
        ctx.raises(ValueError, lambda: ex.get_frame_transform(f1, f3), 'frames that are not linked')
        ctx.raises(ValueError, lambda: Experiment().get_frame_transform(f1, f2), 'frames linked in another experiment')
        ctx.eval()


if __name__ == '__main__':
    check.main(globals())
