"""P17: reference orientation of a grain and the misorientation to it."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from defdap.quat import Quat         # noqa: E402
from mc.fixtures import ebsd_map     # noqa: E402

PROP = 'P17'
LEVEL = 'exploration'
RULE = ('(mean) for every base orientation and every assignment of small rotations to a few pixels: every order of the pixels '
        'and every assignment of symmetric equivalents and signs from a list, the mean compared with one made from relative '
        'rotations; (map) maps with grains of all phases, every pattern of small rotations, own or given reference orientations: misorientation '
        'lists, maps, averages and axes. Non-trivial: the pixels of a grain differ')
ASSUMPTIONS = ['the orientations of a grain spread over less than half of the smallest symmetry rotation',
               'the axis of a zero misorientation is not defined (NaN)']
D = math.pi / 180
SMALL = [((0, 0, 1), 0), ((1, 0, 0), 5), ((1, 2, 3), -8), ((0, 1, -1), 11)]


def bases():
    return oracle.bunge_grid()[::9] + [(.3, .8, 1.1), (4, 2.2, 5)]


def cases(tier):
    out = []
    for b in range(len(bases())):
        for name in ('cubic', 'hexagonal'):
            out.append(dict(kind='mean', base=b, name=name, n=3))
            if tier != 'quick':
                out.append(dict(kind='mean', base=b, name=name, n=4))
            out.append(dict(kind='long', base=b, name=name))
    for b in range(len(bases())):
        for phase in ('fcc', 'hcp'):
            out.append(dict(kind='wide', base=b, phase=phase))
        for k in range(9 if tier == 'quick' else 27):
            out.append(dict(kind='map', base=b, pat=k, tier=tier))
    return out


def rel_quat(R):
    """Quaternion (w >= 0) of a rotation matrix with a small angle."""
    w = math.sqrt(max(0, 1 + np.trace(R))) / 2
    return np.array([w, (R[2, 1] - R[1, 2]) / 4 / w, (R[0, 2] - R[2, 0]) / 4 / w, (R[1, 0] - R[0, 1]) / 4 / w])


def nearest(M, base, name):
    S = oracle.sym(name)
    C = S @ (M @ base.T)
    return C[int(np.argmax(np.trace(C, axis1=1, axis2=2)))]


def ref_mean(mats, name):
    """Mean orientation: the sum of the rotations relative to the first one."""
    base = mats[0]
    q = sum(rel_quat(nearest(M, base, name)) for M in mats)
    q /= np.linalg.norm(q)
    return oracle.quat_matrix(q) @ base


def run_mean(ctx, case):
    name, n = case['name'], case['n']
    B = oracle.bunge(bases()[case['base']])
    syms = Quat.sym_eqv(name)
    S = [s.rot_matrix() for s in syms]
    small = [oracle.rot_axis(a, t * D) for a, t in SMALL]
    reps = [(0, 1), (5, 1), (len(S) - 1, -1), (0, -1)]
    for pat in itertools.combinations_with_replacement(range(len(SMALL)), n):
        mats = [B @ small[i] for i in pat]
        quats = [Quat.from_euler_angles(*oracle.euler_of(M)) for M in mats]
        want = ref_mean(mats, name)
        orders = sorted(set(itertools.permutations(range(n))))
        for rep in itertools.product(range(len(reps)), repeat=n):
            qs = []
            for q, r in zip(quats, rep):
                s, sg = reps[r]
                p = syms[s] * q
                qs.append(Quat(sg * p.quat_coef, allow_southern=True))
            for order in (orders if len(set(rep)) > 1 or sum(rep) == 0 else orders[:1]):
                if len(set(rep)) == n and order != orders[sum(rep) % len(orders)]:
                    continue
                arr = np.empty(n, dtype=object)
                arr[:] = [qs[i] for i in order]
                comps = Quat.calc_sym_eqvs(arr, name)
                keep = comps.copy()
                av = Quat.calc_average_ori(comps)
                ctx.check(np.array_equal(comps, keep), 'argument changed')
                A = oracle.quat_matrix(av.quat_coef)
                ctx.check(abs(av.norm() - 1) < 1e-9 and av[0] >= 0, f'{case} {pat} {rep}: {av.quat_coef} is not a unit quaternion of the upper half')
                m = oracle.misori(A, want, name)
                ctx.check(m < 1e-6, lambda: f'{case} {pat} rotations as equivalents {rep} in order {order}: mean is off by {m / D} degrees')
                mo, mq = Quat.calcMisOri(comps, av)
                for j, i in enumerate(order):
                    w = oracle.misori(want, mats[i], name)
                    ctx.check(abs(2 * math.acos(min(1, mo[j])) - w) < 1e-5, lambda: f'{case} {pat} {rep} {order}: misorientation of pixel {j} is {2 * math.acos(min(1, mo[j]))}, expected {w}')
                ctx.step()
                ctx.eval(f'{case} {pat} {rep} {order}' if len(set(pat)) > 1 else None)


def run_long(ctx, case):
    """Many pixels along a bend of up to 30 degrees."""
    name = case['name']
    B = oracle.bunge(bases()[case['base']])
    syms = Quat.sym_eqv(name)
    for ax in ((1, 0, 0), (0, 0, 1), (1, 2, 3)):
        for tot in (2, 12, 25):
            for n in (2, 9, 40, 300) if tot == 12 else (2, 9, 40):
                mats = [B @ oracle.rot_axis(ax, tot * D * (i / (n - 1) - .5)) for i in range(n)]
                # a bend is symmetric about its middle
                for rep in range(4):
                    qs = []
                    for i, M in enumerate(mats):
                        p = syms[(0, i % len(syms), (7 * i) % len(syms), -1)[rep]] * Quat.from_euler_angles(*oracle.euler_of(M))
                        qs.append(Quat((-1) ** (i * rep) * p.quat_coef, allow_southern=True))
                    for order in (1, -1):
                        av = Quat.calc_average_ori(Quat.calc_sym_eqvs(qs[::order], name))
                        m = oracle.misori(oracle.quat_matrix(av.quat_coef), B, name)
                        ctx.check(m < 1e-6, lambda: f'{case} bend of {tot} over {n} pixels, {rep}: mean is off by {m / D} degrees')
                        ctx.eval(f'{case} {ax} {tot} {n} {rep} {order}')


KINDS = ('fcc', 'hcp', 'bcc')


def run_map(ctx, case):
    b, k = case['base'], case['pat']
    B = [oracle.bunge(bases()[(b + i) % len(bases())]) for i in range(3)]
    digits = [(k // 3 ** i) % 3 for i in range(3)]
    angs = [0, 2.5, -4]
    # three grains of different phases, four rows of three pixels each
    e = np.zeros((3, 4, 9))
    ph = np.zeros((4, 9), dtype=np.uint8)
    mats = {}
    for y in range(4):
        for x in range(9):
            g = x // 3
            a = angs[(digits[(x + y) % 3] + x * digits[y % 3] + y) % 3]
            ax = ((1, 0, 0), (0, 1, 1), (1, -2, 3))[(x + y + k) % 3]
            M = B[g] @ oracle.rot_axis(ax, a * D)
            name = oracle.KIND_SYM[KINDS[g]]
            S = oracle.sym(name)
            mats[x, y] = M
            # the equivalent a pixel is stored in depends on the pixel
            e[:, y, x] = oracle.euler_of(S[(x * 5 + y * 7 + k) % len(S)] @ M)
            ph[y, x] = g + 1
    ph[0, 0] = 0
    for order in range(8):
        m = ebsd_map((4, 9), e, ph, kinds=KINDS)
        m.data.generate('grain_boundaries', misori_tol=40)
        m.data.generate('grains', min_grain_size=1)
        if len(m) != 3:
            ctx.note('maps not in three grains')
            return
        if order == 0:
            m.calc_grain_av_oris()
            m.calc_grain_mis_ori(calc_axis=True)
        elif order == 1:
            m.calc_grain_mis_ori(calc_axis=False)
            m.calc_grain_mis_ori(calc_axis=True)
        elif order == 2:
            grod_first = np.array(m.data.GROD)
        given = {}
        if order > 4:
            # another reference after the misorientations were calculated (what a Linker of maps does)
            m.calc_grain_mis_ori(calc_axis=order == 6)
        if order > 2:
            # reference orientations that were set before (for example those of the same grain in another map)
            for g in list(m)[(0, 1)[1 - order % 2]:]:
                M = nearest(mats[tuple(map(int, g.data.point[0]))], B[g.phase_id], oracle.KIND_SYM[KINDS[g.phase_id]]) @ oracle.rot_axis((1, 2, 2), (3 + g.grain_id) * D)
                S = oracle.sym(oracle.KIND_SYM[KINDS[g.phase_id]])
                given[g.grain_id] = Quat.from_euler_angles(*oracle.euler_of(S[k % len(S)] @ M))
                g.ref_ori = given[g.grain_id]
                if order == 7:
                    pass
                elif order % 2:
                    g.build_mis_ori_list()
                else:
                    g.build_mis_ori_list(calc_axis=True)
            if order == 7:
                # once more for the whole map
                m.calc_grain_mis_ori(calc_axis=False)
                for g in m:
                    for i, p in enumerate(g.data.point):
                        w = oracle.misori(oracle.quat_matrix(g.ref_ori.quat_coef), mats[tuple(map(int, p))], oracle.KIND_SYM[KINDS[g.phase_id]])
                        ctx.check(abs(g.mis_ori_list[i] - math.cos(w / 2)) < 1e-9, lambda: f'{case} pixel {p}: misorientation not calculated again for another reference')
                m.calc_grain_mis_ori(calc_axis=True)
            if order == 4:
                for g in m:
                    ctx.check(g.data.GROD is not None, f'{case}')
        fig0 = np.array(m.plot_mis_ori_map(component=0).img_layers[0].get_array(), float)
        figs = [np.array(m.plot_mis_ori_map(component=c).img_layers[0].get_array(), float) for c in (1, 2, 3)]
        plt.close('all')
        grod = np.array(m.data.GROD)
        axis = np.array(m.data.GROD_axis)
        ctx.check(grod.shape == (4, 9) and axis.shape == (3, 4, 9), f'{case}: shape of the misorientation maps')
        seen = set()
        for g in m:
            name = oracle.KIND_SYM[KINDS[g.phase_id]]
            pts = [tuple(map(int, p)) for p in g.data.point]
            want = ref_mean([mats[p] for p in pts], name)
            R = oracle.quat_matrix(g.ref_ori.quat_coef)
            if g.grain_id in given:
                want = oracle.quat_matrix(given[g.grain_id].quat_coef)
            ctx.check(oracle.misori(R, want, name) < 1e-6, lambda: f'{case} {order} grain {g.grain_id}: reference is off by {oracle.misori(R, want, name) / D} degrees')
            ctx.check(len(g.mis_ori_list) == len(pts) == len(g.data.GROD), f'{case} {order}: length of the list')
            cs = []
            for i, p in enumerate(pts):
                seen.add(p)
                x, y = p
                w = oracle.misori(R, mats[p], name)
                cs.append(math.cos(w / 2))
                ctx.check(abs(g.mis_ori_list[i] - math.cos(w / 2)) < 1e-9, lambda: f'{case} {order} pixel {p}: misorientation {g.mis_ori_list[i]}, expected {math.cos(w / 2)}')
                for what, v in (('map', grod[y, x]), ('grain', g.data.GROD[i]), ('plot', fig0[y, x] * D)):
                    ctx.check(abs(v - w) < 1e-6, lambda: f'{case} {order} pixel {p}: misorientation in the {what} {v}, expected {w}')
                for what, v in (('map', axis[:, y, x]), ('grain', np.array(g.data.GROD_axis)[:, i]), ('list', np.array(g.mis_ori_axis_list[i])),
                                ('plot', np.array([f[y, x] for f in figs]) * D)):
                    ctx.check(abs(np.linalg.norm(v) - w) < 1e-5, lambda: f'{case} {order} pixel {p}: rotation vector in the {what} {v}, angle {w}')
                if w > 1e-4:
                    E = nearest(mats[p], R, name)
                    for what, v in (('map', axis[:, y, x]), ('grain', np.array(g.data.GROD_axis)[:, i]), ('list', np.array(g.mis_ori_axis_list[i])),
                                    ('plot', np.array([f[y, x] for f in figs]) * D)):
                        ctx.check(abs(np.linalg.norm(v) - w) < 1e-5 and np.allclose(oracle.rot_axis(v, np.linalg.norm(v)), E, atol=1e-5),
                                  lambda: f'{case} {order} pixel {p}: rotation vector in the {what} {v}, angle {w}')
                ctx.eval(f'{case} {order} {p}' if w > 1e-6 else None)
            ctx.check(abs(g.average_mis_ori - np.mean(cs)) < 1e-9, lambda: f'{case} {order}: average misorientation {g.average_mis_ori}, expected {np.mean(cs)}')
        rest = [(x, y) for x in range(9) for y in range(4) if (x, y) not in seen]
        ctx.check(rest == [(0, 0)], f'{case}: pixels in grains')
        ctx.check(abs(fig0[0, 0]) < 1e-6 and all(f[0, 0] == 0 for f in figs), f'{case}: misorientation plotted out of the grains')
        if order == 2:
            ctx.check(np.array_equal(grod_first, grod, equal_nan=True), f'{case}: misorientation map changed by plotting')
            # averages over grains of the map
            av = np.array(m.calc_grain_average(grod))
            ctx.check(np.allclose(av, [np.mean(g.data.GROD) for g in m]), f'{case}: grain averages')


def run_wide(ctx, case):
    """Grains of more pixels than a byte can count, along and across the map."""
    B = [oracle.bunge(bases()[(case['base'] + i) % len(bases())]) for i in range(2)]
    name = oracle.KIND_SYM[case['phase']]
    S = oracle.sym(name)
    for shape in ((2, 300), (300, 2)):
        lead = np.indices(shape)[0 if shape[0] == 2 else 1]
        along = np.indices(shape)[1 if shape[0] == 2 else 0]
        e, mats = np.zeros((3,) + shape), {}
        for y, x in np.ndindex(shape):
            i = int(along[y, x])
            M = B[lead[y, x]] @ oracle.rot_axis(((1, 0, 0), (0, 1, 1), (1, -2, 3))[i % 3], (4 * math.sin(i * .7) + i / 100) * D)
            mats[x, y] = M
            e[:, y, x] = oracle.euler_of(S[(i * 5 + i // 100) % len(S)] @ M)
        m = ebsd_map(shape, e, (1 + lead).astype(np.uint8), kinds=(case['phase'],) * 2)
        m.data.generate('grain_boundaries', misori_tol=40)
        m.data.generate('grains', min_grain_size=1)
        ctx.check(len(m) == 2, f'{case}: {len(m)} grains')
        grod, axis = np.array(m.data.GROD), np.array(m.data.GROD_axis)
        m.calc_grain_mis_ori()
        for g in m:
            pts = [tuple(map(int, p)) for p in g.data.point]
            ctx.check(len(pts) == 300, f'{case}: {len(pts)} pixels')
            R = oracle.quat_matrix(g.ref_ori.quat_coef)
            off = oracle.misori(R, ref_mean([mats[p] for p in pts], name), name)
            ctx.check(off < 1e-6, lambda: f'{case} {shape}: reference is off by {off / D} degrees')
            ws = []
            for i, (x, y) in enumerate(pts):
                w = oracle.misori(R, mats[x, y], name)
                ws.append(w)
                ctx.check(abs(grod[y, x] - w) < 1e-6 and abs(g.data.GROD[i] - w) < 1e-6 and abs(np.linalg.norm(axis[:, y, x]) - w) < 1e-5,
                          lambda: f'{case} {shape} pixel {x, y}: misorientation {grod[y, x]}, axis {axis[:, y, x]}, expected {w}')
                if w > 1e-4:
                    ctx.check(np.allclose(oracle.rot_axis(axis[:, y, x], w), nearest(mats[x, y], R, name), atol=1e-5), lambda: f'{case} {shape} pixel {x, y}: axis {axis[:, y, x]}')
                ctx.eval(f'{case} {shape} {x} {y}')
            ctx.check(abs(g.average_mis_ori - np.mean(np.cos(np.array(ws) / 2))) < 1e-9, f'{case}: average misorientation')


def run(case, ctx):
    globals()['run_' + case['kind']](*((ctx, case)))


if __name__ == '__main__':
    check.main(globals())
