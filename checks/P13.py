"""P13: reduction to the unit triangle and IPF colours."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import defdap                        # noqa: E402
from defdap.quat import Quat         # noqa: E402
from mc.fixtures import ebsd_map     # noqa: E402

PROP = 'P13'
LEVEL = 'exploration'
RULE = ('every orientation of a regular grid of Bunge angles (which holds all the degenerate ones: directions on the edges '
        'and corners of the triangle) for every sample direction of a list, crystal symmetry, triangle convention and '
        'precision; every symmetric equivalent of a part of them; and maps of every phase pattern up to a size. '
        'Non-trivial: not the identity')
ASSUMPTIONS = ['colours are compared to 0.01 (they are calculated in single precision)']
D = math.pi / 180
DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (-1, 0, 0), (1, 1, 0), (0, 1, 1), (-1, 0, 1), (1, 1, 1), (1, -1, -1), (-1, 2, 3), (0, 3, 10)]
NAMES = ('cubic', 'hexagonal')


def reduce(v, name, triangle='up'):
    """The member of the unit triangle that is equivalent to the direction v (reference)."""
    v = np.asarray(v, float) / np.linalg.norm(v)
    if name == 'cubic':
        a = np.sort(np.abs(v))
        return np.array([-a[0], a[1], a[2]])
    z, r = abs(v[2]), math.hypot(v[0], v[1])
    b = (math.atan2(v[1], v[0]) / D - 90) % 60
    b = min(b, 60 - b)
    b = 90 + b if triangle == 'up' else 90 - b
    return np.array([r * math.cos(b * D), r * math.sin(b * D), z])


def colour(v, name):
    """Reference colour of a direction of the 'up' triangle."""
    s = 1 / math.sqrt(2)
    t = 1 / math.sqrt(3)
    C = ([(0, 0, 1), (0, s, s), (-t, t, t)] if name == 'cubic' else [(0, 0, 1), (0, 1, 0), (-.5, math.sqrt(3) / 2, 0)])
    C = [np.array(c, float) for c in C]

    def ang(a, b):
        return math.atan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b))
    rgb = []
    for i in range(3):
        c, a, b = C[i], C[(i + 1) % 3], C[(i + 2) % 3]
        if ang(v, c) < 1e-9:
            rgb.append(1.)
            continue
        p = np.cross(np.cross(v, c), np.cross(a, b))
        p /= np.linalg.norm(p)
        if np.dot(p, v) < 0:
            p = -p
        rgb.append(ang(v, p) / ang(c, p))
    rgb = np.array(rgb)
    return rgb / rgb.max()


def eulers(step):
    return list(itertools.product(*[[a * D for a in range(0, m + 1, step)] for m in (360, 180, 360)]))


def cases(tier):
    out = []
    for name in NAMES:
        for i in range(len(DIRS)):
            for s in (((15,) if i % 2 == 0 else (30, 45)) if tier == 'quick' else (9, 15, 20, 36)):
                out.append(dict(kind='grid', name=name, dir=i, step=s))
    for name in NAMES:
        for i in range(len(DIRS)):
            out.append(dict(kind='equiv', name=name, dir=i, step=90 if tier == 'quick' else 45))
    out.append(dict(kind='corners'))
    for c in range(81):
        out.append(dict(kind='maps', i=c))
    return out


def near(ctx, a, b, tol, what):
    ctx.check(np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol), what)


def cart(a, b):
    return np.stack([np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)], 1)


def in_sector(ctx, a, b, name, tri, what):
    lo, hi = (90, 135) if name == 'cubic' else (90, 120) if tri == 'up' else (60, 90)
    e = 1e-5
    ctx.check(np.all((a >= 0) & (a <= np.pi / 2 + e)), f'{what}: inclination out of range')
    v = cart(a, b)
    d1 = np.cos(lo * D) * v[:, 1] - np.sin(lo * D) * v[:, 0]
    d2 = -np.cos(hi * D) * v[:, 1] + np.sin(hi * D) * v[:, 0]
    ctx.check(np.all(d1 >= -e) and np.all(d2 >= -e), f'{what}: outside of the sector')
    if name == 'cubic':
        ctx.check(np.all(v[:, 2] >= v[:, 1] - e), f'{what}: outside of the triangle')


def run_grid(ctx, case):
    name, d = case['name'], DIRS[case['dir']]
    E = eulers(case['step'])
    qs = Quat.create_many_quats(np.array(E).T)
    mats = np.array([oracle.bunge(e) for e in E])
    crys = mats @ np.array(d, float)
    for tri in (('up', 'down') if name == 'hexagonal' else ('up',)):
        want = np.array([reduce(v, name, tri) for v in crys])
        for dt, tol in ((float, 1e-6), (np.float32, 1e-3)):
            for scale in (1, 2.5):
                a, b = Quat.calc_fund_dirs(qs, np.array(d) * scale, name, dtype=dt, triangle=tri)
                v = cart(a, b)
                ctx.check(a.shape == b.shape == (len(E),), f'{case}: shape')
                in_sector(ctx, a, b, name, tri, f'{case} {tri} {dt.__name__}')
                err = np.linalg.norm(v - want, axis=1)
                k = int(np.argmax(~(err <= tol)))
                ctx.check(np.all(err <= tol), lambda: f'{case} {tri} {dt.__name__}: Euler {np.array(E[k])/D} reduced to {v[k].tolist()}, expected {want[k].tolist()}')
        ctx.eval(n=len(E))
        ctx.nontriv.update(check.digest((name, d, tri, e)) for e in E[1:])
    # the default convention
    old = defdap.defaults['ipf_triangle_convention']
    try:
        for tri in ('up', 'down'):
            defdap.defaults['ipf_triangle_convention'] = tri
            a, b = Quat.calc_fund_dirs(qs[::7], d, name)
            want = np.array([reduce(v, name, tri) for v in crys[::7]])
            near(ctx, cart(a, b), want, 1e-6, f'{case}: convention {tri} as the default')
            c = Quat.calc_ipf_colours(qs[::7], d, name)
            ref = np.array([colour(reduce(v, name), name) for v in crys[::7]]).T
            near(ctx, c, ref, .01, f'{case}: colours with convention {tri}')
    finally:
        defdap.defaults['ipf_triangle_convention'] = old
    want = np.array([colour(reduce(v, name), name) for v in crys]).T
    for dt, tol in ((np.float32, .01), (float, 1e-5)):
        c = Quat.calc_ipf_colours(qs, d, name, dtype=dt)
        ctx.check(c.shape == (3, len(E)) and np.all(np.isfinite(c)) and c.min() >= 0 and c.max() <= 1 + 1e-6, f'{case} {dt.__name__}: not a colour')
        ctx.check(np.allclose(c.max(0), 1, atol=1e-6), f'{case} {dt.__name__}: colours are not at full brightness')
        err = np.abs(c - want).max(0)
        k = int(np.argmax(err))
        ctx.check(err[k] <= tol, lambda: f'{case} {dt.__name__}: Euler {np.array(E[k])/D} has colour {c[:, k].tolist()}, expected {want[:, k].tolist()}')
    # opposite directions have the same colour
    c2 = Quat.calc_ipf_colours(qs, -np.array(d), name)
    near(ctx, c2, Quat.calc_ipf_colours(qs, d, name), .01, f'{case}: colours of the opposite direction')


def run_equiv(ctx, case):
    name, d = case['name'], DIRS[case['dir']]
    E = eulers(case['step']) + [(.3, 1.2, 2.3), (5.1, .4, 3.2), (1e-5, 1e-5, 0), (0, 1e-4, 3)]
    syms = Quat.sym_eqv(name)
    for e in E:
        q = Quat.from_euler_angles(*e)
        eq = [s * q for s in syms] + [Quat(-np.array(q.quat_coef), allow_southern=True)]
        c = Quat.calc_ipf_colours(eq, d, name)
        want = colour(reduce(oracle.bunge(e) @ np.array(d, float), name), name)
        near(ctx, c, np.repeat(want[:, None], len(eq), 1), .01, lambda: f'{case}: Euler {np.array(e)/D} equivalents have colours {c.T.tolist()}, expected {want}')
        # one at a time gives the same as all together
        for k in (0, 3, len(syms) - 1):
            c1 = Quat.calc_ipf_colours([eq[k]], d, name)
            near(ctx, c1[:, 0], c[:, k], .01, f'{case}: one orientation on its own')
        ctx.eval(f'{name} {d} {e}')
        a, b = Quat.calc_fund_dirs(eq, d, name, triangle='up')
        near(ctx, cart(a, b), np.tile(reduce(oracle.bunge(e) @ np.array(d, float), name), (len(eq), 1)), 1e-6, f'{case}: Euler {e} reduced')


def run_corners(ctx):
    """Orientations that bring each crystal direction of a corner to a sample direction."""
    t = math.sqrt(3) / 2
    fam = {'cubic': [[(1, 0, 0), (0, 1, 0), (0, 0, 1)], [(1, 1, 0), (1, -1, 0), (0, 1, 1), (0, 1, -1), (1, 0, 1), (1, 0, -1)],
                     [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)]],
           'hexagonal': [[(0, 0, 1)], [(0, 1, 0), (t, .5, 0), (-t, .5, 0)], [(1, 0, 0), (.5, t, 0), (-.5, t, 0)]]}
    for name in NAMES:
        for i, f in enumerate(fam[name]):
            for c in f:
                c = np.array(c, float) / np.linalg.norm(c)
                for sg in (1, -1):
                    for d in DIRS:
                        u = np.array(d, float) / np.linalg.norm(d)
                        ax = np.cross(u, sg * c)
                        if np.linalg.norm(ax) < 1e-9:
                            ax = np.cross(u, (1, 2, 3.3)) if np.dot(u, sg * c) < 0 else u
                        an = math.atan2(np.linalg.norm(np.cross(u, sg * c)), np.dot(u, sg * c))
                        for spin in (0, 17, 45, 90, 200):
                            # crystal vector = M sample vector
                            M = oracle.rot_axis(c, spin * D) @ oracle.rot_axis(ax, an)
                            q = Quat.from_euler_angles(*oracle.euler_of(M))
                            col = Quat.calc_ipf_colours([q], d, name)[:, 0]
                            want = np.eye(3)[i]
                            ctx.check(np.all(np.abs(col - want) < .01), lambda: f'{name}: {c.tolist()} along {d} has colour {col.tolist()}')
                            ctx.eval(f'{name} {c} {sg} {d} {spin}')
    for f in (lambda: Quat.calc_ipf_colours([Quat(1, 0, 0, 0)], (0, 0, 1), 'monoclinic'), lambda: Quat.calc_fund_dirs([Quat(1, 0, 0, 0)], (0, 0, 1), 'x')):
        ctx.raises(ValueError, f, 'unknown symmetry')


def run_maps(ctx, case):
    """All phase patterns of a map with four pixels: each pixel has the colour of its own phase."""
    i = case['i']
    ph = np.array([(i // 3 ** k) % 3 for k in range(4)], dtype=np.uint8)
    E = [(.3, .8, 1.1), (0, 0, 0), (2, 1.3, .4), (4, 2.5, 3)]
    for shape in ((2, 2), (1, 4), (4, 1)):
        m = ebsd_map(shape, np.array(E).T.reshape((3,) + shape), ph.reshape(shape), kinds=('fcc', 'hcp'))
        for letter, d in (('x', (1, 0, 0)), ('y', (0, 1, 0)), ('z', (0, 0, 1))):
            sub = [None, [0], [1], [0, 1], [1, 0], []]
            for bg in (None, np.array([.2, .4, .6])):
                for phases in sub:
                    got = m.calc_ipf_colour(m.data.orientation, np.array(d), phases=phases, bg_colour=bg)
                    ctx.check(got.shape == shape + (3,), f'{case}: shape')
                    for k in range(4):
                        p = int(ph[k])
                        if p == 0 or (phases is not None and p - 1 not in phases):
                            want = np.zeros(3) if bg is None else bg
                        else:
                            name = ('cubic', 'hexagonal')[p - 1]
                            want = colour(reduce(oracle.bunge(E[k]) @ np.array(d, float), name), name)
                        ctx.check(np.all(np.abs(got.reshape(4, 3)[k] - want) < .01),
                                  lambda: f'{case} {shape} {letter} phases {phases}: pixel {k} has colour {got.reshape(4, 3)[k].tolist()}, expected {want.tolist()}')
            full = m.calc_ipf_colour(m.data.orientation, np.array(d))
            if i % 9 == 5:
                import matplotlib.pyplot as plt
                for comp in (f'IPF_{letter}', f'ipf_{letter}', f'IPF_{letter.upper()}'):
                    p = m.plot_map('orientation', component=comp)
                    near(ctx, np.asarray(p.img_layers[0].get_array()), full, 1e-6, f'{case}: component {comp}')
                    plt.close('all')
            ctx.eval(f'{case} {shape} {letter}' if ph.any() else None)


def run(case, ctx):
    k = case['kind']
    if k == 'grid':
        run_grid(ctx, case)
    elif k == 'equiv':
        run_equiv(ctx, case)
    elif k == 'corners':
        run_corners(ctx)
    else:
        run_maps(ctx, case)


if __name__ == '__main__':
    check.main(globals())
