"""P03: boundaries of every phase/orientation arrangement on small maps and of every pair of orientations."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                          # noqa: E402
from mc.fixtures import ebsd_map            # noqa: E402

PROP = 'P03'
LEVEL = 'exploration'
RULE = ('(grid) one map whose adjacent pixels are all ordered pairs of an orientation list (base orientations, rotations '
        'by angles on both sides of the tolerances, all their symmetric equivalents), for a ladder of tolerances; '
        '(pair) two-pixel maps with the tolerance just below and just above the misorientation; '
        '(label) every assignment of (phase, orientation) letters to the pixels of small maps. '
        'A case is non-trivial when the map has a boundary edge and a free edge; distinct by boundary pattern')
ASSUMPTIONS = ['misorientation over the symmetry of the primary phase (documented limit of multi-phase maps)',
               'edges whose misorientation is within 1e-5 rad of the tolerance are not judged']

D = math.pi / 180
AX = [(0, 0, 1), (1, 0, 0), (1, 1, 0), (1, 1, 1), (3, -1, 2)]
ANG = [0, 1.5, 4.9, 5.1, 9.8, 10.2, 14.9, 15.1, 31, 44.5, 59]
BASE = [(0, 0, 0), (30 * D, 40 * D, 50 * D), (200 * D, 179 * D, 10 * D), (330 * D, 90 * D, 300 * D)]


def orientations(kind, n_sym):
    S = oracle.sym(kind)
    out = []
    for b, base in enumerate(BASE):
        g0 = oracle.bunge(base)
        for a, ax in enumerate(AX):
            for i, ang in enumerate(ANG):
                if (a + i + b) % n_sym[1]:
                    continue
                g = oracle.rot_axis(ax, ang * D) @ g0
                k = (7 * a + 3 * i + b) % len(S)
                for s in range(n_sym[0]):
                    out.append(oracle.euler_of(S[(k + s * 5) % len(S)] @ g))
    return out


def cases(tier):
    out = []
    for kinds, prim in ((('fcc',), 0), (('hcp',), 0), (('fcc', 'hcp'), 1), (('hcp', 'fcc'), 1), (('hcp', 'fcc'), 0)):
        sym = oracle.KIND_SYM[kinds[prim]]
        n = len(orientations(sym, (2, 2) if tier == 'quick' else (4, 1)))
        for lo in range(0, n, 12):
            out.append(dict(kind='grid', kinds=kinds, prim=prim, lo=lo, hi=min(n, lo + 12), dens=(2, 2) if tier == 'quick' else (4, 1)))
    for sym in ('cubic', 'hexagonal'):
        for b in range(len(BASE)):
            for a in range(len(AX)):
                out.append(dict(kind='pair', sym=sym, b=b, a=a))
    # letters: (phase, angle about the c axis in degree)
    letters = [(1, 0), (1, 7), (1, 14), (2, 0), (0, 0)]
    for shape in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)):
        for f in range(len(letters)):
            out.append(dict(kind='label', shape=shape, first=[f], letters=letters))
    for shape in ((3, 300), (300, 3), (2, 513), (513, 2)):
        for v in range(2):
            out.append(dict(kind='wide', shape=shape, v=v))
    L3 = letters[:3] + letters[3:4]
    for shape in ((2, 3), (3, 2)):
        for f in itertools.product(range(4), repeat=2):
            out.append(dict(kind='label', shape=shape, first=list(f), letters=L3))
    if tier == 'thorough':
        for shape in ((2, 4), (4, 2)):
            for f in itertools.product(range(3), repeat=4):
                out.append(dict(kind='label', shape=shape, first=list(f), letters=[(1, 0), (1, 7), (2, 14)]))
        for shape in ((3, 3),):
            for f in itertools.product(range(3), repeat=5):
                out.append(dict(kind='label', shape=shape, first=list(f), letters=[(1, 0), (1, 7), (1, 14)]))
    return out


def edges(m):
    """Boundary sets of a map as sets of (x, y), read in every way they are given."""
    return m.data.grain_boundaries, m.data.phase_boundaries


def judge(ctx, m, phase, mis_x, mis_y, tol, what):
    h, w = phase.shape
    m.data.generate('grain_boundaries', misori_tol=tol)
    gb, pb = edges(m)
    nb = nf = 0
    for name, mis, dx, dy, gimg, gpts, pimg, ppts in (
            ('x', mis_x, 1, 0, gb.image_x, gb.points_x, pb.image_x, pb.points_x),
            ('y', mis_y, 0, 1, gb.image_y, gb.points_y, pb.image_y, pb.points_y)):
        gimg, pimg = np.asarray(gimg), np.asarray(pimg)
        gset, pset = {(int(x), int(y)) for x, y in gpts}, {(int(x), int(y)) for x, y in ppts}
        ctx.check(gimg.shape == (h, w) and pimg.shape == (h, w), f'{what}: shape of boundary images')
        ctx.check({(x, y) for y, x in zip(*np.nonzero(gimg))} == gset and {(x, y) for y, x in zip(*np.nonzero(pimg))} == pset,
                  f'{what}: boundary image and points disagree ({name})')
        for y in range(h):
            for x in range(w):
                edge = x + dx < w and y + dy < h
                got_g, got_p = (x, y) in gset, (x, y) in pset
                if not edge:
                    ctx.check(not got_g and not got_p, lambda: f'{what}: boundary towards {name} at the map edge {(x, y)}')
                    continue
                diff = phase[y, x] != phase[y + dy, x + dx]
                ctx.check(got_p == diff, lambda: f'{what}: phase boundary {name} at {(x, y)} is {got_p}')
                mm = mis[y, x]
                if not diff and abs(mm - tol * D) < 1e-5:
                    ctx.note('edges too close to the tolerance')
                    continue
                want = bool(diff or mm > tol * D)
                nb += want
                nf += not want
                ctx.check(got_g == want, lambda: f'{what}: grain boundary {name} at {(x, y)} is {got_g}, misorientation '
                                                 f'{mm / D:.5f} deg, tolerance {tol}')
    full = gb.points
    ctx.check({(int(x), int(y)) for x, y in full} == gset_union(gb), f'{what}: all points')
    img = np.asarray(gb.image)
    ctx.check(np.array_equal(img, np.asarray(gb.image_x) | np.asarray(gb.image_y)), f'{what}: combined image')
    ctx.eval((what, tol, sorted(map(tuple, full))) if nb and nf else None)
    return nb, nf


def gset_union(b):
    return {(int(x), int(y)) for x, y in b.points_x} | {(int(x), int(y)) for x, y in b.points_y}


def mis_arrays(gs, sym):
    """misorientation to the right and to the bottom neighbour; gs (h, w, 3, 3)"""
    S = oracle.sym(sym)
    h, w = gs.shape[:2]
    mx, my = np.zeros((h, w)), np.zeros((h, w))
    if w > 1:
        d = gs[:, 1:] @ np.swapaxes(gs[:, :-1], -1, -2)
        mx[:, :-1] = np.min([oracle.angle(s @ d) for s in S], axis=0)
    if h > 1:
        d = gs[1:] @ np.swapaxes(gs[:-1], -1, -2)
        my[:-1] = np.min([oracle.angle(s @ d) for s in S], axis=0)
    return mx, my


def run(case, ctx):
    if case['kind'] == 'grid':
        kinds, prim = case['kinds'], case['prim']
        sym = oracle.KIND_SYM[kinds[prim]]
        ors = orientations(sym, case['dens'])
        sel = ors[case['lo']:case['hi']]
        # row r alternates one orientation of sel with all others
        eu = np.zeros((3, len(sel), 2 * len(ors)))
        for r, a in enumerate(sel):
            for c, b in enumerate(ors):
                eu[:, r, 2 * c] = a
                eu[:, r, 2 * c + 1] = b
        for view in ('x', 'y'):
            e = eu if view == 'x' else eu.transpose(0, 2, 1)
            shape = e.shape[1:]
            m = ebsd_map(shape, e, np.ones(shape, dtype=np.uint8), kinds=kinds)
            m.primary_phase_id = prim
            gs = np.array([[oracle.bunge(e[:, y, x]) for x in range(shape[1])] for y in range(shape[0])])
            mx, my = mis_arrays(gs, sym)
            for tol in (1, 5, 10, 15, 30, 45) if view == 'x' else (10, 15):
                judge(ctx, m, np.ones(shape, int), mx, my, tol, f'grid {kinds} {prim} {view}')
    elif case['kind'] == 'pair':
        S = oracle.sym(case['sym'])
        kind = 'fcc' if case['sym'] == 'cubic' else 'hcp'
        g0 = oracle.bunge(BASE[case['b']])
        for i, ang in enumerate(ANG[1:]):
            for k in range(0, len(S), 5):
                for k2 in (0, 7):
                    a = S[k2] @ g0
                    b = S[k] @ oracle.rot_axis(AX[case['a']], ang * D) @ g0
                    mis = oracle.misori(a, b, case['sym'])
                    for shape in ((1, 2), (2, 1)):
                        e = np.array([oracle.euler_of(a), oracle.euler_of(b)]).T.reshape((3,) + shape)
                        m = ebsd_map(shape, e, np.ones(shape, dtype=np.uint8), kinds=(kind,))
                        z = np.zeros(shape)
                        q = z.copy()
                        q[0, 0] = mis
                        for dt in (-2e-3, 2e-3):
                            judge(ctx, m, np.ones(shape, int), q if shape == (1, 2) else z, q if shape == (2, 1) else z,
                                  mis / D + dt, f'pair {case} {ang} {k}')
                        ctx.eval((i, k, k2, shape))
    elif case['kind'] == 'wide':
        # more pixels in a row than a byte can count; equal pixels lie next to different ones everywhere
        h, w = case['shape']
        v = case['v']
        sym = ('cubic', 'hexagonal')[v]
        ors = orientations(sym, (2, 2))
        pat = [(0, 0, 1, 1, 2, 5, 5, 9, 2)[(x + 2 * (x // 7) + 3 * y + y // 5) % 9] for y in range(h) for x in range(w)]
        e = np.array([ors[(3 * p + v) % len(ors)] for p in pat]).T.reshape(3, h, w)
        ph = np.array([1 + (y * w + x) % 11 // 9 for y in range(h) for x in range(w)], dtype=np.uint8).reshape(h, w)
        m = ebsd_map((h, w), e, ph, kinds=(('fcc', 'hcp'), ('hcp', 'fcc'))[v])
        gs = np.array([[oracle.bunge(e[:, y, x]) for x in range(w)] for y in range(h)])
        mx, my = mis_arrays(gs, sym)
        for tol in (10, 31):
            judge(ctx, m, ph, mx, my, tol, f'wide {h}x{w} {v}')
    else:
        h, w = case['shape']
        letters = case['letters']
        n = h * w
        rest = n - len(case['first'])
        if rest < 0:
            return
        g = {l: oracle.bunge((l[1] * D, 0, 0)) for l in map(tuple, letters)}
        for tail in itertools.product(range(len(letters)), repeat=rest):
            lab = [tuple(letters[i]) for i in list(case['first']) + list(tail)]
            ph = np.array([l[0] for l in lab], dtype=np.uint8).reshape(h, w)
            e = np.zeros((3, h, w))
            e[0] = np.array([l[1] * D for l in lab]).reshape(h, w)
            m = ebsd_map((h, w), e, ph, kinds=('fcc', 'hcp'))
            mx, my = np.zeros((h, w)), np.zeros((h, w))
            for y in range(h):
                for x in range(w):
                    a = lab[y * w + x][1]
                    if x + 1 < w:
                        mx[y, x] = abs(a - lab[y * w + x + 1][1]) * D
                    if y + 1 < h:
                        my[y, x] = abs(a - lab[(y + 1) * w + x][1]) * D
            for tol in (5, 10):
                judge(ctx, m, ph, mx, my, tol, f'label {lab}')


if __name__ == '__main__':
    check.main(globals())
