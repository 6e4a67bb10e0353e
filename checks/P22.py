"""P22: deformation gradient, Green strain and effective shear strain."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from mc.fixtures import dic_map      # noqa: E402

PROP = 'P22'
LEVEL = 'exploration'
RULE = ('(unit) every single displaced point of every shape and sub-window width - a basis of all displacement fields of that shape; '
        '(linear) every uniform gradient from a grid and every rigid rotation and translation of a list; (poly) every quadratic '
        'field with coefficients from a set; (order) every order of reading the data with crops, masks and plots between. '
        'Compared with differences of neighbouring points. Non-trivial: the displacement is not constant')
ASSUMPTIONS = ['derivatives are central differences, one-sided at the edges of the map', 'maps have at least two rows and columns']
SHAPES = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 5), (5, 4)]
WIDE = [(2, 300), (300, 3)]
BINS = [1, 2, 12]


def cases(tier):
    out = []
    for s in range(len(SHAPES)):
        for b in BINS:
            out.append(dict(kind='unit', shape=s, binning=b))
            out.append(dict(kind='linear', shape=s, binning=b))
            for k in range(3 if tier == 'quick' else 9):
                out.append(dict(kind='poly', shape=s, binning=b, k=k))
    for s in range(len(WIDE)):
        for b in BINS:
            out.append(dict(kind='linear', shape=len(SHAPES) + s, binning=b))
            out.append(dict(kind='poly', shape=len(SHAPES) + s, binning=b, k=8))
    for i in range(len(READS)):
        out.append(dict(kind='order', head=i, depth=4 if tier == 'quick' else 5))
    return out


def diff(a, axis, h):
    """Central differences, one-sided at the ends."""
    out = np.zeros(a.shape)
    n = a.shape[axis]
    for i in range(n):
        lo, hi = max(0, i - 1), min(n - 1, i + 1)
        v = (np.take(a, hi, axis) - np.take(a, lo, axis)) / ((hi - lo) * h)
        if axis == 0:
            out[i] = v
        else:
            out[:, i] = v
    return out


def expected(u, b):
    h, w = u.shape[1:]
    F = np.zeros((2, 2, h, w))
    for i in range(2):                      # component of the displacement
        F[i, 0] = diff(u[i], 1, b) + (i == 0)
        F[i, 1] = diff(u[i], 0, b) + (i == 1)
    E = np.zeros((2, 2, h, w))
    for y, x in np.ndindex(h, w):
        f = F[:, :, y, x]
        E[:, :, y, x] = (f.T @ f - np.eye(2)) / 2
    S = np.zeros((h, w))
    for y, x in np.ndindex(h, w):
        # half the difference of the principal strains
        ev = np.linalg.eigvalsh(E[:, :, y, x])
        S[y, x] = (ev[1] - ev[0]) / 2
    return F, E, S


def verify(ctx, m, u, b, what, tol=1e-9):
    F, E, S = expected(u, b)
    for k, w in (('f', F), ('e', E), ('max_shear', S)):
        v = np.array(m.data[k])
        ctx.check(v.shape == w.shape and np.allclose(v, w, atol=tol * (1 if k != 'max_shear' else 100)), lambda: f'{what}: {k} {v.tolist()}, expected {w.tolist()}')
    ctx.step()


def run_unit(ctx, case):
    shape, b = (SHAPES + WIDE)[case['shape']], case['binning']
    for i in range(2):
        for y, x in np.ndindex(shape):
            for v in (1., -.125):
                u = np.zeros((2,) + shape)
                u[i, y, x] = v
                verify(ctx, dic_map(disp=u, binning=b), u, b, f'{case} point {x, y} displaced by {v} in {"xy"[i]}')
                ctx.eval(f'{case} {i} {y} {x} {v}')


def run_linear(ctx, case):
    shape, b = (SHAPES + WIDE)[case['shape']], case['binning']
    y, x = np.mgrid[0:shape[0], 0:shape[1]] * float(b)
    for g in itertools.product((-.25, 0, .125), repeat=4):
        for t in ((0, 0), (3.5, -100)):
            u = np.array([g[0] * x + g[1] * y + t[0], g[2] * x + g[3] * y + t[1]])
            m = dic_map(disp=u, binning=b)
            what = f'{case} gradient {g} translation {t}'
            verify(ctx, m, u, b, what)
            f = np.array([[1 + g[0], g[1]], [g[2], 1 + g[3]]])
            e = (f.T @ f - np.eye(2)) / 2
            ctx.check(np.allclose(np.moveaxis(m.data.f, (0, 1), (2, 3)), f, atol=1e-9), f'{what}: gradient is not uniform')
            ctx.check(np.allclose(np.moveaxis(m.data.e, (0, 1), (2, 3)), e, atol=1e-9), f'{what}: strain is not uniform')
            if not any(g):
                ctx.check(np.all(np.abs(m.data.e) < 1e-10) and np.all(np.abs(m.data.max_shear) < 1e-10), f'{what}: strain of a translation')
            ctx.eval(what if any(g) else None)
    for a in range(0, 360, 15):
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        u = np.array([(c - 1) * x - s * y + 2, s * x + (c - 1) * y - 7])
        m = dic_map(disp=u, binning=b)
        ctx.check(np.all(np.abs(m.data.e) < 1e-9) and np.all(np.abs(m.data.max_shear) < 1e-8), f'{case}: strain of a rotation by {a}')
        ctx.check(np.allclose(np.moveaxis(m.data.f, (0, 1), (2, 3)), [[c, -s], [s, c]], atol=1e-9), f'{case}: gradient of a rotation by {a}')
        ctx.eval(f'{case} rotation {a}' if a else None)


def run_poly(ctx, case):
    shape, b = (SHAPES + WIDE)[case['shape']], case['binning']
    y, x = np.mgrid[0:shape[0], 0:shape[1]].astype(float)
    terms = [x, y, x * y, x * x, y * y]
    vals = (-.5, 0, .25)
    other = [.1 * x * y - y, x * x * .3 + y, y * y * .2 - .7 * x, 3 * x, 2 - y, x * 0, x * y * y * .1, -x * x * y * .05, np.cos(x) + np.sin(y)][case['k']]
    for n, co in enumerate(itertools.product(vals, repeat=5)):
        a = sum(c * t for c, t in zip(co, terms))
        for u in (np.array([a, other]), np.array([other, a])):
            verify(ctx, dic_map(disp=u, binning=b), u, b, f'{case} coefficients {co}')
            ctx.eval(f'{case} {co}', 1)


READS = ('f', 'e', 'max_shear', 'displacement', 'crop', 'plot', 'set', 'mask', 'write')


def run_order(ctx, case):
    shape, b = (5, 4), 2
    y, x = np.mgrid[0:5, 0:4].astype(float)
    u0 = np.array([.3 * x * y - y + .1 * x * x, .2 * x * x - .05 * y * y * x])
    for rest in itertools.permutations([i for i in range(len(READS)) if i != case['head']], case['depth'] - 1):
        seq = [READS[i] for i in (case['head'],) + rest]
        m = dic_map(disp=u0, binning=b)
        F, E, S = expected(u0, b)
        ref = dict(f=F, e=E, max_shear=S, displacement=u0)
        cut = (slice(None), slice(None))
        mask = None
        for r in seq:
            if r == 'crop':
                m.set_crop(left=1, top=2)
                if mask is not None:
                    break       # a mask belongs to the crop it was made for
                cut = (slice(2, None), slice(1, None))
            elif r == 'plot':
                m.plot_map('e', component=(0, 1))
                plt.close('all')
            elif r == 'set':
                m.set_scale(3.)
            elif r == 'mask':
                mask = np.zeros((5, 4), bool)[cut]
                mask[0, 1] = True
                m.data.generate('mask', mask=mask)
            elif r == 'write':
                # values of a copy are the caller's own
                v = np.array(m.data.e)
                v[...] = 7
            else:
                v = m.data[r]
                w = ref[r][(Ellipsis,) + cut]
                if mask is not None and r != 'displacement':
                    v = np.ma.getdata(v)[..., ~mask] if np.ma.isMaskedArray(v) else np.array(v)[..., ~mask]
                    w = w[..., ~mask]
                elif mask is not None:
                    v = np.ma.getdata(v)
                    if v.shape == w.shape:
                        v, w = v[..., ~mask], w[..., ~mask]
                ctx.check(np.shape(v) == w.shape and np.allclose(v, w, atol=1e-9), lambda: f'{seq}: {r} is {np.array(v).tolist()}')
            ctx.step()
            ctx.state((seq[:seq.index(r) + 1],))
        ctx.trace()
        ctx.eval(str(seq))


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
