"""P18: kernel average misorientation, Nye tensor and filtering."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from defdap.quat import Quat         # noqa: E402
from mc.fixtures import ebsd_map     # noqa: E402

PROP = 'P18'
LEVEL = 'exploration'
RULE = ('(kam) every assignment of an alphabet of orientations to all pixels of the map, against angles of relative rotation '
        'matrices; (nye) every bending axis in x and y, base orientation, step size, phase and assignment of equivalents, '
        'against relative rotation matrices; (filter) every placement of one and two deviating pixels and every straight '
        'interface in a window, with every sign pattern of a list, against a direct evaluation of the filter. '
        'Non-trivial: the map is not uniform')
ASSUMPTIONS = ['maps have at least two rows and two columns',
               'neighbour misorientations for the Nye tensor have a unique smallest equivalent']
D = math.pi / 180
BASES = [(0, 0, 0), (.3, .8, 1.1), (4, 2.2, 5), (math.pi, 0, 0), (math.pi, math.pi, 0), (2.9, .05, .2)]
KINDS = ('fcc', 'hcp')


def cases(tier):
    q = tier == 'quick'
    out = []
    for b in range(len(BASES)):
        for sh, k in (((2, 3), 4), ((3, 3), 2)) + (() if q else (((3, 3), 3), ((2, 4), 4))):
            for first in range(k):
                for second in range(k if not q or k == 4 else 1):
                    out.append(dict(kind='kam', base=b, shape=sh, k=k, fix=[first] if q and k == 2 else [first, second]))
        out.append(dict(kind='wide', base=b))
        for kind in KINDS:
            for ax in range(7):
                out.append(dict(kind='nye', base=b, phase=kind, ax=ax))
        for dev in range(3):
            for sg in range(4):
                out.append(dict(kind='filter', base=b, dev=dev, sg=sg, tier=tier))
    return out


def quats_of(mats):
    return [Quat.from_euler_angles(*oracle.euler_of(M)) for M in mats]


def run_kam(ctx, case):
    h, w = case['shape']
    B = oracle.bunge(BASES[case['base']])
    # the last letter: far away, so that half of its rotation counts
    letters = [B, B @ oracle.rot_axis((1, 2, 3), 5 * D), oracle.rot_axis((0, 1, 0), math.pi / 2) @ B, B @ oracle.rot_axis((1, 0, 0), -170 * D)][:case['k']]
    k = len(letters)
    e = [oracle.euler_of(M) for M in letters]
    cosm = [[abs(math.cos(oracle.angle(a @ b.T) / 2)) for b in letters] for a in letters]
    tail = case['fix']
    south = [Quat(-q.quat_coef, allow_southern=True) for q in quats_of(letters)]
    for n, head in enumerate(itertools.product(range(k), repeat=h * w - len(tail))):
        pat = list(head) + list(tail)
        eul = np.array([[[e[pat[y * w + x]][i] for x in range(w)] for y in range(h)] for i in range(3)])
        m = ebsd_map((h, w), eul)
        how = n % 3
        if how:
            ori = m.data.orientation.copy()
            for y in range(h):
                for x in range(w):
                    if how == 1 or (x + y) % 2:
                        ori[y, x] = south[pat[y * w + x]]
            m.data.orientation = ori
        kam = np.array(m.data.KAM)
        ctx.check(kam.shape == (h, w), f'{case} shape of the kernel average misorientation {kam.shape}')
        if n % 64 == 0:
            p = m.plot_map('KAM')
            ctx.check(np.array_equal(np.asarray(p.img_layers[0].get_array(), float), kam), f'{case} {pat}: plotted map')
            plt.close('all')
        for y in range(h):
            for x in range(w):
                me = pat[y * w + x]
                v = [cosm[me][pat[yy * w + x]] for yy in (y - 1, y + 1) if 0 <= yy < h]
                r = [cosm[me][pat[y * w + xx]] for xx in (x - 1, x + 1) if 0 <= xx < w]
                want = 2 * math.acos(min(1, (sum(v) / len(v) + sum(r) / len(r)) / 2))
                ctx.check(abs(kam[y, x] - want) < 1e-6, lambda: f'{case} {pat} signs {how}: misorientation at {(x, y)} is {kam[y, x]}, expected {want}')
        ctx.step()
        ctx.eval(str((case['base'], h, w, pat)) if len(set(pat)) > 1 else None)


def run_wide(ctx, case):
    """Long maps: more pixels in a row than a byte can count."""
    B = oracle.bunge(BASES[case['base']])
    bvec = 1.4e-10
    for h, w in ((3, 300), (300, 3)):
        # orientations that repeat after 23 pixels, so that every neighbourhood is known
        rot = [oracle.rot_axis((1, -2, 3), 3 * math.sin(i * 1.7) * D) @ oracle.rot_axis((0, 1, 1), 2 * math.cos(i * .9) * D) for i in range(23)]
        R = np.array([[B @ rot[(x + 5 * y) % 23] for x in range(w)] for y in range(h)])
        e = np.array([[oracle.euler_of(M) for M in row] for row in R]).transpose(2, 0, 1)
        m = ebsd_map((h, w), e, kinds=('fcc',))
        kam = np.asarray(m.data.KAM)
        nye = np.asarray(m.data.Nye_tensor)
        want = np.zeros((3, 3, h, w))
        for y in range(h):
            for x in range(w):
                c = [[math.cos(oracle.angle(R[y, x] @ R[p].T) / 2) for p in pts if 0 <= p[0] < h and 0 <= p[1] < w]
                     for pts in (((y - 1, x), (y + 1, x)), ((y, x - 1), (y, x + 1)))]
                k = 2 * math.acos(min(1, (sum(c[0]) / len(c[0]) + sum(c[1]) / len(c[1])) / 2))
                ctx.check(abs(kam[y, x] - k) < 1e-6, lambda: f'wide {h}x{w}: misorientation at {(x, y)} is {kam[y, x]}, expected {k}')
                if x + 1 < w and y + 1 < h:
                    dx = (R[y, x + 1].T @ R[y, x] - np.eye(3)) / 1e-6
                    dy = (R[y + 1, x].T @ R[y, x] - np.eye(3)) / 1e-6
                    want[:, 2, y, x] = (dy[:, 0] - dx[:, 1]) / bvec
                    want[:, 1, y, x] = dx[:, 2] / bvec
                    want[:, 0, y, x] = -dy[:, 2] / bvec
        off = np.abs(nye - want).max(axis=(0, 1))
        ctx.check(off.max() < 1e-6 * 1e6 / bvec, lambda: f'wide {h}x{w}: Nye tensor at {np.argwhere(off >= 1 / bvec).tolist()[:5]} off by {off.max() * bvec}')
        ctx.eval(f'wide {case["base"]} {h} {w}')
        before = np.array([[q.quat_coef.copy() for q in row] for row in m.data.orientation])
        if h < 5 or w < 5:
            m.filter_data(misori_tol=5)
            after = m.data.orientation
            ctx.check(all(np.allclose(after[y, x].quat_coef, before[y, x]) for y, x in np.ndindex(h, w)), f'wide {h}x{w}: narrow map changed by the filter')
    for h, w in ((5, 300), (300, 5)):
        R = [[B @ rot[(3 * x + 5 * y + (x // 31)) % 23] for x in range(w)] for y in range(h)]
        e = np.array([[oracle.euler_of(M) for M in row] for row in R]).transpose(2, 0, 1)
        m = ebsd_map((h, w), e, kinds=('fcc',))
        before = np.array([[q.quat_coef.copy() for q in row] for row in m.data.orientation])
        m.filter_data(misori_tol=5)
        after = m.data.orientation
        wantf = filtered(before, 5 * D)
        for y, x in np.ndindex(h, w):
            q = after[y, x].quat_coef
            ctx.check(any(abs(abs(np.dot(q, v)) - 1) < 1e-10 for v in wantf[y, x]), lambda: f'wide {h}x{w}: filter at row {y} column {x}: {q}, expected {wantf[y, x]}')
        ctx.eval(f'wide filter {case["base"]} {h} {w}')


BEND = [(0, 0), (1.5, 0), (0, 1.5), (1.5, -1), (-.8, 2), (12, 0), (-3, -9)]
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -2, 3), (0, 1, -1), (-1, 0, 2)]


def run_nye(ctx, case):
    name = oracle.KIND_SYM[case['phase']]
    S = oracle.sym(name)
    B = oracle.bunge(BASES[case['base']])
    ax = AXES[case['ax']]
    h, w = 3, 4
    bvec = 1.4e-10
    for bx, by in BEND:
        for step in (1., .25):
            first = None
            for rep in range(4):
                R = {}
                e = np.zeros((3, h, w))
                for y in range(h):
                    for x in range(w):
                        # sample rotated about an axis of the sample, more with x and y
                        R[x, y] = B @ oracle.rot_axis(ax, (bx * x + by * y) * D)
                        s = (0, (3 * x + 5 * y) % len(S), (7 * x + y + 2) % len(S), len(S) - 1)[rep]
                        e[:, y, x] = oracle.euler_of(S[s] @ R[x, y])
                m = ebsd_map((h, w), e, kinds=(case['phase'], 'fcc'), step_size=step)
                if rep == 2:
                    ori = m.data.orientation.copy()
                    for y, x in np.ndindex(h, w):
                        if (x + 2 * y) % 3:
                            ori[y, x] = Quat(-ori[y, x].quat_coef, allow_southern=True)
                    m.data.orientation = ori
                if rep % 2:
                    nye, gnd = np.array(m.data.Nye_tensor), np.array(m.data.GND)
                else:
                    gnd, nye = np.array(m.data.GND), np.array(m.data.Nye_tensor)
                ctx.check(gnd.shape == (h, w) and nye.shape == (3, 3, h, w), f'{case}: shapes {gnd.shape} {nye.shape}')
                want = np.zeros((3, 3, h, w))
                tot = np.zeros((h, w))
                for y in range(h - 1):
                    for x in range(w - 1):
                        dx = (R[x + 1, y].T @ R[x, y] - np.eye(3)) / (step * 1e-6)
                        dy = (R[x, y + 1].T @ R[x, y] - np.eye(3)) / (step * 1e-6)
                        # alpha_i3 = d(beta_i1)/dy - d(beta_i2)/dx, the others from the column out of the surface
                        a = np.zeros((3, 3))
                        a[:, 2] = dy[:, 0] - dx[:, 1]
                        a[:, 1] = dx[:, 2]
                        a[:, 0] = -dy[:, 2]
                        want[:, :, y, x] = a / bvec
                        tot[y, x] = 1.5 * np.abs(a / bvec).sum()
                scale = 1e-6 / (step * 1e-6) / bvec
                ctx.check(np.abs(nye - want).max() < scale, lambda: f'{case} bend {bx, by} step {step} equivalents {rep}: Nye tensor off by {np.abs(nye - want).max()}')
                ctx.check(np.abs(gnd - tot).max() < 20 * scale, lambda: f'{case} bend {bx, by}: density {gnd}, expected {tot}')
                if bx == by == 0:
                    ctx.check(np.all(np.abs(gnd) < scale), f'{case}: density {gnd.max()} of a uniform map')
                ctx.check(np.allclose(gnd, 1.5 * np.abs(nye).sum(axis=(0, 1)), atol=1), f'{case} bend {bx, by}: density is not the norm of the tensor')
                if first is None:
                    first = nye
                ctx.check(np.abs(nye - first).max() < 2 * scale, f'{case} bend {bx, by} step {step}: tensor depends on the equivalents')
                ctx.step()
                ctx.eval(f'{case} {bx} {by} {step} {rep}' if bx or by else None)


def filtered(Q, tol):
    """Candidate results (several for ties) of the filter for the quaternion components Q[y][x]."""
    h, w, _ = Q.shape
    out = {}
    for y in range(h):
        for x in range(w):
            if not (2 <= y < h - 2 and 2 <= x < w - 2):
                out[y, x] = [Q[y, x]]
                continue
            opts = []
            for cy in (-1, 0, 1):
                for cx in (-1, 0, 1):
                    if cy == cx == 0:
                        continue
                    win = Q[y + cy - 1:y + cy + 2, x + cx - 1:x + cx + 2].reshape(-1, 4)
                    d = win @ Q[y, x]
                    near = np.abs(d) > math.cos(tol / 2)
                    v = (np.sign(d)[:, None] * win)[near].sum(axis=0)
                    opts.append((np.abs(d)[near].mean(), v / np.linalg.norm(v)))
            top = max(o[0] for o in opts)
            out[y, x] = [v for s, v in opts if s > top - 1e-12]
    return out


def interfaces(h, w):
    """Sets of deviating pixels."""
    pts = [(y, x) for y in range(h) for x in range(w)]
    for a in range(len(pts)):
        yield {pts[a]}
    for ny, nx in ((0, 1), (1, 0), (1, 1), (1, -1), (2, 1), (1, -2)):
        for c in range(-8, 16):
            s = {(y, x) for y, x in pts if ny * y + nx * x < c}
            if 0 < len(s) < len(pts):
                yield s


def run_filter(ctx, case):
    B = oracle.bunge(BASES[case['base']])
    tol = 5
    dev = [B @ oracle.rot_axis((1, 2, 3), 3 * D), B @ oracle.rot_axis((0, 1, 1), -35 * D), oracle.rot_axis((1, 0, 0), math.pi / 2) @ B][case['dev']]
    sg = case['sg']
    jobs = []
    for h, w in ((5, 5), (6, 5), (4, 6)):
        for s in interfaces(h, w):
            jobs.append((h, w, s))
    pts = [(y, x) for y in range(5) for x in range(5)]
    pairs = list(itertools.combinations(pts, 2))
    jobs += [(5, 5, set(p)) for p in (pairs[case['sg'] * 7 % 13::13] if case['tier'] == 'quick' else pairs)]
    jobs.append((5, 6, set()))
    qb, qd = quats_of([B, dev])
    for k, (h, w, s) in enumerate(jobs):
        for grad in (0, 1):
            tol = (5, 2.03, 9.1, 37.3)[k % 4] if grad else 5
            e = np.zeros((3, h, w))
            for y, x in np.ndindex(h, w):
                M = dev if (y, x) in s else B
                e[:, y, x] = oracle.euler_of(M @ oracle.rot_axis((1, 1, -1), grad * (.4 * x - .3 * y + .05 * x * y) * D))
            m = ebsd_map((h, w), e)
            ori = m.data.orientation.copy()
            for y, x in np.ndindex(h, w):
                neg = (False, True, (x + y) % 2 == 0, (y, x) in s)[sg]
                if neg:
                    ori[y, x] = Quat(-ori[y, x].quat_coef, allow_southern=True)
            m.data.orientation = ori
            before = np.array([[ori[y, x].quat_coef.copy() for x in range(w)] for y in range(h)])
            if grad:
                m.filter_data(misori_tol=tol)
            else:
                m.filter_data()
            after = m.data.orientation
            want = filtered(before, tol * D)
            for y, x in np.ndindex(h, w):
                q = after[y, x].quat_coef
                ctx.check(abs(np.linalg.norm(q) - 1) < 1e-9, f'{case}: not a unit quaternion')
                ctx.check(any(abs(abs(np.dot(q, v)) - 1) < 1e-10 for v in want[y, x]),
                          lambda: f'{case} {h}x{w} {sorted(s)} gradient {grad} at row {y} column {x}: {q}, expected {want[y, x]}')
                ctx.check(abs(np.dot(q, before[y, x])) > math.cos(tol * D / 2), lambda: f'{case}: filtered orientation is far from the input')
                if not s and not grad:
                    ctx.check(abs(np.dot(q, before[y, x])) > 1 - 1e-12, f'{case}: uniform map changed')
            ctx.step()
            ctx.eval(f'{case} {h} {w} {sorted(s)} {grad}' if s or grad else None)


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
