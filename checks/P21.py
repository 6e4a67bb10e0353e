"""P21: loading DIC files of every format and layout."""
import itertools
import os
import pathlib
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.image as mpimg     # noqa: E402
from defdap import hrdic             # noqa: E402
from defdap.experiment import Experiment  # noqa: E402

PROP = 'P21'
LEVEL = 'exploration'
RULE = ('(grid) every format, shape, sub-window width, origin, displacement pattern and row order: every loaded value at its place; '
        '(sparse) every set of measured points of a small grid in every order of rows and points the format allows (PyVale), loaded '
        'at their places or refused; (refuse) every other shape and sub-window width in the header, missing and extra rows, scaled '
        'coordinates; (images) correlation values and pattern images of every size up to a bound. '
        'Non-trivial: the displacements differ between points')
ASSUMPTIONS = ['maps have at least two rows and columns',
               'OpenPIV coordinates are the centres of sub-windows counted from the corner of the image, as the loader states']
SHAPES = [(2, 2), (2, 3), (3, 2), (4, 3), (5, 7)]
WIDE = [(3, 300), (300, 3)]
BINS = [1, 2, 5, 12]
ERR = (ValueError, AssertionError, IndexError, KeyError, TypeError)
PYV = np.dtype([('x', 'int32'), ('y', 'int32'), ('u', 'f8'), ('v', 'f8'), ('m', 'f8'), ('conv', 'u1'), ('cost', 'f8'), ('ftol', 'f8'), ('xtol', 'f8'), ('n', 'int32')])


def cases(tier):
    out = []
    for s in range(len(SHAPES)):
        for b in BINS:
            out.append(dict(kind='grid', shape=s, binning=b))
            out.append(dict(kind='refuse', shape=s, binning=b))
        out.append(dict(kind='images', shape=s))
    for s in range(len(WIDE)):
        for b in BINS:
            out.append(dict(kind='grid', shape=len(SHAPES) + s, binning=b))
        out.append(dict(kind='images', shape=len(SHAPES) + s))
    for h, w in ((2, 3), (3, 2), (3, 3)) + (() if tier == 'quick' else ((4, 3), (3, 4))):
        for first in range(2 ** w):
            out.append(dict(kind='sparse', shape=[h, w], first=first))
    return out


def field(shape, k):
    """Displacements, distinct for every point and exact in text."""
    h, w = shape
    y, x = np.mgrid[0:h, 0:w]
    if k == 0:
        return np.array([x * .5 + y * 16 + .25, -x * 8 + y * .125])
    if k == 1:
        return np.array([-(x * w + y * h * .0625 + x * y), y * 4. - 100 + x * .5])
    return np.zeros((2, h, w))


def write_davis(path, c, u, binning, shape=None, rows=None):
    h, w = shape or c.shape[1:]
    pts = [(c[0][i], c[1][i], u[0][i], u[1][i]) for i in np.ndindex(c.shape[1:])]
    if rows is not None:
        pts = (pts + pts)[:rows]
    with open(path, 'w') as f:
        f.write(f'#DaVis 8.4.0 2D-vector {binning} {h} {w} "" "pixel" "" "pixel" "displacement" "pixel"\n')
        for p in pts:
            f.write('\t'.join(f'{float(v):.10g}' for v in p) + '\n')


def write_piv_text(path, c, u, flip, rows=None):
    pts = [(c[0][i], c[1][i], u[0][i], u[1][i]) for i in np.ndindex(c.shape[1:])]
    w = c.shape[2]
    if flip:
        pts = [p for r in reversed(range(c.shape[1])) for p in pts[r * w:(r + 1) * w]]
    if rows is not None:
        pts = (pts + pts)[:rows]
    with open(path, 'w') as f:
        f.write('# x\ty\tu\tv\tflags\tmask\n')
        for p in pts:
            f.write('\t'.join(f'{float(v):.8e}' if k > 1 else f'{float(v):.4f}' for k, v in enumerate(p)) + '\t0.0000e+00\t0.0000e+00\n')


def write_piv_npz(path, c, u, flip, binning, shape=None):
    s = slice(None, None, -1 if flip else 1)
    np.savez(path, format='OpenPIV', version='0.25', binning=binning, shape=np.array(shape or c.shape[1:]),
             x=c[0][s], y=c[1][s], u=u[0][s], v=u[1][s])


def write_pyvale(path, pts, kind):
    a = np.zeros(len(pts), dtype=PYV)
    for i, p in enumerate(pts):
        a[i] = (p[0], p[1], p[2], p[3], np.hypot(p[2], p[3]), 1, .5 * i, 1e-3, 1e-4, i)
    if kind == 'binary':
        a.tofile(path)
        return
    with open(path, 'w') as f:
        f.write('subset_x,subset_y,displacement_u,displacement_v,displacement_mag,converged,cost,ftol,xtol,num_iterations\n')
        for r in a:
            f.write(','.join(repr(v.item()) for v in r) + '\n')


def load(path, dt=None):
    return hrdic.Map(path, data_type=dt, experiment=Experiment())


def verify(ctx, m, shape, binning, c, u, what, fmt):
    ctx.check(tuple(int(v) for v in m.shape) == tuple(shape) and (m.xdim, m.ydim) == (shape[1], shape[0]) and (m.x_dim, m.y_dim) == (shape[1], shape[0]), lambda: f'{what}: shape {m.shape} {m.xdim} {m.ydim}')
    ctx.check(m.binning == binning, lambda: f'{what}: sub-window {m.binning}, expected {binning}')
    ctx.check(str(m.format) == fmt[0] and str(m.version) == fmt[1], lambda: f'{what}: format {m.format} {m.version}, expected {fmt}')
    for k, w in (('coordinate', c), ('displacement', u)):
        v = np.array(m.data[k])
        ctx.check(v.shape == (2,) + tuple(shape) and np.allclose(v, w, atol=1e-9), lambda: f'{what}: {k} {v.tolist()}, expected {np.asarray(w).tolist()}')


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=env.SCRATCH)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def grid(shape, b, org):
    y, x = np.mgrid[0:shape[0], 0:shape[1]]
    return np.array([x * b + org[0], y * b + org[1]], float)


def run_grid(ctx, case):
    shape, b = (SHAPES + WIDE)[case['shape']], case['binning']
    for k in range(3):
        u = field(shape, k)
        for org in ((b / 2, b / 2), (0, 0), (100, 7)):
            c = grid(shape, b, org)
            what = f'{case} {k} {org}'
            for n in range(3):
                with Tmp() as d:
                    p = os.path.join(d, ('map.txt', 'a b', 'map.v2.txt')[n])
                    write_davis(p, c, u, b)
                    verify(ctx, load(pathlib.Path(p) if n else p, (None, 'Davis', 'davis')[n]), shape, b, c, u, what + ' Davis', ('DaVis', '8.4.0'))
                    ctx.step()
                    ctx.eval(f'{what} davis {n}' if k < 2 else None)
                    for flip in (False, True):
                        if org == (b / 2, b / 2):
                            p = os.path.join(d, 'piv.txt')
                            write_piv_text(p, c, u, flip)
                            verify(ctx, load(p, ('OpenPIV', 'OpenPivText', 'openpivtext')[n]), shape, b, c, u, f'{what} OpenPIV text {flip}', ('OpenPIV', 'n/a'))
                        p = os.path.join(d, 'piv.npz')
                        write_piv_npz(p, c, u, flip, b)
                        verify(ctx, load(p, ('OpenPivBinary', 'openpivbinary', 'OPENPIVBINARY')[n]), shape, b, c, u, f'{what} OpenPIV binary {flip}', ('OpenPIV', '0.25'))
                        ctx.step(2)
                        ctx.eval(f'{what} piv {n} {flip}' if k < 2 else None)
            if org[0] != b / 2:
                for rev, back in itertools.product((False, True), repeat=2):
                    rows = range(shape[0])[::-1] if rev else range(shape[0])
                    cols = range(shape[1])[::-1] if back else range(shape[1])
                    pts = [(int(c[0][y, x]), int(c[1][y, x]), u[0][y, x], u[1][y, x]) for y in rows for x in cols]
                    for kind in ('csv', 'binary'):
                        with Tmp() as d:
                            p = os.path.join(d, 'map.' + kind)
                            write_pyvale(p, pts, kind)
                            for dt in (f'PyVale-{kind}', f'pyvale-{kind}'):
                                verify(ctx, load(p, dt), shape, b, c, u, f'{what} {dt} {rev} {back}', ('PyVale', 'n/a'))
                        ctx.step()
                        ctx.eval(f'{what} pyvale {rev} {back} {kind}' if k < 2 else None)


def run_sparse(ctx, case):
    h, w = case['shape']
    full = field((h, w), 1)
    b = 3
    org = (30, 15)
    first = [x for x in range(w) if case['first'] >> x & 1]
    for rest in itertools.product(range(2 ** w), repeat=h - 1):
        rows = [first] + [[x for x in range(w) if r >> x & 1] for r in rest]
        if sum(map(len, rows)) < 2:
            continue
        for rev, back in itertools.product((False, True), repeat=2):
            order = list(range(h))[::-1] if rev else list(range(h))
            idx = [(y, x) for y in order for x in (rows[y][::-1] if back else rows[y])]
            pts = [(org[0] + b * x, org[1] + b * y, full[0][y, x], full[1][y, x]) for y, x in idx]
            kind = ('csv', 'binary')[(len(pts) + rev) % 2]
            dx = [abs(p[0] - q[0]) for p, q in zip(pts, pts[1:])]
            dy = [abs(p[1] - q[1]) for p, q in zip(pts, pts[1:])]
            ys = [p[1] for p in pts]
            xs = [p[0] for p in pts]
            what = f'{case["shape"]} points {idx} {kind}'
            with Tmp() as d:
                p = os.path.join(d, 'map')
                write_pyvale(p, pts, kind)
                try:
                    m = load(p, 'PyVale-' + kind)
                except ERR + (ZeroDivisionError,):
                    # only when the spacing cannot be seen in the order of the points, or there is one row or column
                    ctx.check(not (min(dx) == max(dy) == b and len(set(ys)) > 1 and len(set(xs)) > 1
                                   and all((v - min(ys)) % b == 0 for v in ys)), lambda: f'{what}: was refused')
                    ctx.note('refused')
                    ctx.eval()
                    continue
                x0, y0 = min(xs), min(ys)
                bb = int(m.binning)
                ctx.check(bb % b == 0 and bb > 0, lambda: f'{what}: sub-window {bb}')
                sh = ((max(ys) - y0) // bb + 1, (max(xs) - x0) // bb + 1)
                want = np.zeros((2,) + sh)
                hit = set()
                for q in pts:
                    ctx.check((q[1] - y0) % bb == 0 and (q[0] - x0) % bb == 0, lambda: f'{what}: loaded with points between those of a grid of {bb}')
                    i = ((q[1] - y0) // bb, (q[0] - x0) // bb)
                    ctx.check(i not in hit, lambda: f'{what}: two points in one place')
                    hit.add(i)
                    want[:, i[0], i[1]] = q[2:]
                yy, xx = np.mgrid[0:sh[0], 0:sh[1]]
                verify(ctx, m, sh, bb, np.array([xx * bb + x0, yy * bb + y0]), want, what, ('PyVale', 'n/a'))
                ctx.step()
                ctx.eval(what)


def run_refuse(ctx, case):
    shape, b = SHAPES[case['shape']], case['binning']
    h, w = shape
    u = field(shape, 0)
    for org in ((b / 2, b / 2), (100, 7)):
        c = grid(shape, b, org)
        with Tmp() as d:
            p = os.path.join(d, 'm.txt')
            z = os.path.join(d, 'm.npz')
            for hh in range(1, h + 4):
                for ww in range(1, w + 4):
                    if (hh, ww) == shape:
                        continue
                    write_davis(p, c, u, b, (hh, ww))
                    ctx.raises(ERR, lambda: load(p), f'{case}: Davis data of {shape} with {hh, ww} in the header')
                    write_piv_npz(z, c, u, False, b, (hh, ww))
                    ctx.raises(ERR, lambda: load(z, 'OpenPivBinary'), f'{case}: OpenPIV data of {shape} with {hh, ww} in the header')
                    ctx.eval(f'{case} {org} {hh} {ww}', 2)
            for bb in range(1, 15):
                if bb == b:
                    continue
                write_davis(p, c, u, bb)
                ctx.raises(ERR, lambda: load(p), f'{case}: Davis data with sub-window {bb} in the header')
                write_piv_npz(z, c, u, False, bb)
                ctx.raises(ERR, lambda: load(z, 'OpenPivBinary'), f'{case}: OpenPIV data with sub-window {bb} in the header')
                for sx, sy in ((bb, b), (b, bb), (bb, bb)):
                    # coordinates on another grid than the header says
                    c2 = grid(shape, 1, (0, 0)) * np.array([sx, sy])[:, None, None] + np.array(org)[:, None, None]
                    write_davis(p, c2, u, b)
                    ctx.raises(ERR, lambda: load(p), f'{case}: Davis points every {sx, sy}')
                    write_piv_npz(z, c2, u, False, b)
                    ctx.raises(ERR, lambda: load(z, 'OpenPivBinary'), f'{case}: OpenPIV points every {sx, sy}')
                    if sx != sy:
                        c3 = c2 - np.array(org)[:, None, None] + np.array([sx / 2, sy / 2])[:, None, None]
                        write_piv_text(p, c3, u, False)
                        ctx.raises(ERR, lambda: load(p, 'OpenPIV'), f'{case}: OpenPIV points every {sx, sy}')
                        pts = [(int(c2[0][i]), int(c2[1][i]), 0., 1.) for i in np.ndindex(shape)]
                        write_pyvale(p, pts, 'binary')
                        ctx.raises(ERR, lambda: load(p, 'PyVale-binary'), f'{case}: PyVale points every {sx, sy}')
                    ctx.eval(f'{case} {org} {bb} {sx} {sy}', 2)
            for n in range(h * w - 2, h * w + 3):
                if n == h * w:
                    continue
                write_davis(p, c, u, b, rows=n)
                ctx.raises(ERR, lambda: load(p), f'{case}: Davis data with {n} points')
                if org[0] == b / 2 and n % w:
                    write_piv_text(p, c, u, False, rows=n)
                    ctx.raises(ERR, lambda: load(p, 'OpenPIV'), f'{case}: OpenPIV data with {n} points')
                ctx.eval(f'{case} {org} rows {n}')
            write_davis(p, c, u, b)
            load(p)
            ctx.raises(ValueError, lambda: load(p, 'Unknown'), f'{case}: unknown format')
            ctx.raises(ValueError, lambda: load(p, 'PyVale'), f'{case}: unknown kind of PyVale file')
            ctx.raises(ValueError, lambda: load(p, 'PyVale-other'), f'{case}: unknown kind of PyVale file')
            for dt in (None, 'OpenPIV', 'OpenPivBinary', 'PyVale-csv', 'PyVale-binary'):
                ctx.raises(FileNotFoundError, lambda: load(p + 'x', dt), f'{case}: missing file as {dt}')
            ctx.step(10)


def run_images(ctx, case):
    shape = (SHAPES + WIDE)[case['shape']]
    h, w = shape
    u = field(shape, 0)
    with Tmp() as d:
        p = os.path.join(d, 'm.txt')
        write_davis(p, grid(shape, 4, (0, 0)), u, 4)
        m = load(p)
        for hh in range(1, h + 3):
            for ww in range(1, w + 3):
                q = os.path.join(d, 'corr.txt')
                v = np.arange(hh * ww).reshape(hh, ww) * .25 - 1
                with open(q, 'w') as f:
                    f.write('#DaVis image\n' + '\n'.join('\t'.join(map(str, r)) for r in v) + '\n')
                if (hh, ww) == shape:
                    m.load_corr_val_data(q)
                    ctx.check(np.array_equal(m.corr_val, v), f'{case}: correlation values')
                    m.load_corr_val_data(pathlib.Path(q), data_type='DavisImage')
                    ctx.check(np.array_equal(m.corr_val, v), f'{case}: correlation values')
                else:
                    ctx.raises(ERR, lambda: m.load_corr_val_data(q), f'{case}: correlation values of {hh, ww}')
                for b in (1, 2, 3):
                    img = (np.arange(hh * ww * b * b).reshape(hh * b, ww * b) * 7 % 256 / 255).astype(np.float32)
                    q = os.path.join(d, 'pat.tif')
                    from PIL import Image
                    Image.fromarray((img * 255).round().astype(np.uint8)).save(q)
                    m2 = load(p)
                    m2.set_pattern(q, b)
                    if (hh, ww) == shape:
                        ctx.check(np.array_equal(m2.data.pattern, (img * 255).round()), f'{case}: pattern image')
                        m2.set_crop(left=1)
                        ctx.check(np.array_equal(m2.data.pattern, (img * 255).round()[:, b:]), f'{case}: cropped pattern image')
                    else:
                        ctx.raises(ERR, lambda: m2.data.pattern, f'{case}: pattern image of {hh, ww} times {b}')
                ctx.step(4)
                ctx.eval(f'{case} {hh} {ww}')
        ctx.raises(FileNotFoundError, lambda: m.load_corr_val_data(os.path.join(d, 'none.txt')), f'{case}: missing file')


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
