"""P16: Schmid factors, slip traces and relative displacement ratios."""
import contextlib
import io
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from defdap.quat import Quat         # noqa: E402
from mc.fixtures import ebsd_map, dic_map, get_phase     # noqa: E402

PROP = 'P16'
LEVEL = 'exploration'
RULE = ('every orientation of a regular grid (degenerate ones included) in every phase, stored as different symmetric '
        'equivalents, every load direction of a list and every slip system; each grain of the maps compared with products '
        'of cosines from rotation matrices. Non-trivial: the factor, trace or ratio is not zero')
ASSUMPTIONS = ['slip planes parallel to the surface have no trace and are only checked for their inclination']
D = math.pi / 180
KINDS = ('fcc', 'bcc', 'hcp')
LOADS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (1, 1, 0), (1, -1, 1), (2, 0, 1), (0, .1, 3)]


def grid(tier):
    g = oracle.bunge_grid() + [(a * D, b * D, c * D) for a in (10, 100, 200, 300) for b in (5, 45, 54.7356, 80, 120) for c in (15, 45, 75)]
    if tier != 'quick':
        g += [(a * D, b * D, c * D) for a in range(0, 360, 40) for b in range(0, 181, 20) for c in range(0, 360, 40)]
    return g


def cases(tier):
    n = len(grid(tier))
    out = [dict(kind='map', lo=i, shift=s, tier=tier) for i in range(0, n, 18) for s in range(3)]
    out += [dict(kind='max', load=i) for i in range(len(LOADS))]
    out += [dict(kind='dic'), dict(kind='custom')]
    return out


def kind_of(i, shift):
    return KINDS[(i + shift) % 3]


def build(E, shift):
    """One grain per column, two pixels high, the pixels stored as different equivalents."""
    n = len(E)
    e = np.zeros((3, 2, n))
    ph = np.zeros((2, n), dtype=np.uint8)
    for i, x in enumerate(E):
        name = oracle.KIND_SYM[kind_of(i, shift)]
        # all pixels of the map are averaged over the symmetry of the primary phase: same equivalent in both
        S = oracle.sym(name)[(5 * i) % len(oracle.sym(name))]
        e[:, 0, i] = e[:, 1, i] = oracle.euler_of(S @ oracle.bunge(x)) if i % 2 else x
        ph[:, i] = KINDS.index(kind_of(i, shift)) + 1
    m = ebsd_map((2, n), e, ph, kinds=KINDS)
    m.data.generate('grains', min_grain_size=1)
    return m


def factors(M, load, systems):
    l = np.array(load, float) / np.linalg.norm(load)
    c = M @ l
    return [[abs(np.dot(c, s.slip_plane) * np.dot(c, s.slip_dir)) / np.linalg.norm(s.slip_plane) / np.linalg.norm(s.slip_dir) for s in g] for g in systems]


def flat(x):
    return [b for a in x for b in a]


def run_map(ctx, case):
    E = grid(case['tier'])[case['lo']:case['lo'] + 18]
    if len(E) < 2:
        E = E * 2
    sh = case['shift']
    m = build(E, sh)
    ctx.check(len(m) == len(E), f'{case}: {len(m)} grains for {len(E)} columns')
    m.calc_grain_av_oris()
    mats = []
    for i, (g, x) in enumerate(zip(m, E)):
        kind = kind_of(i, sh)
        name = oracle.KIND_SYM[kind]
        ctx.check(g.phase is get_phase(kind), f'{case} {i}: phase')
        M = oracle.quat_matrix(g.ref_ori.quat_coef)
        ctx.check(oracle.misori(M, oracle.bunge(x), name) < 1e-6, f'{case} {i}: reference orientation')
        mats.append((M, oracle.bunge(x), get_phase(kind).slip_systems))
    for load in LOADS:
        for arg in (load, list(load), np.array(load)):
            keep = np.array(arg).copy()
            m.calc_average_grain_schmid_factors(arg)
            ctx.check(np.array_equal(keep, arg), 'load vector changed')
        for i, g in enumerate(m):
            M, B, ss = mats[i]
            got = g.average_schmid_factors
            want = factors(M, load, ss)
            ctx.check([len(a) for a in got] == [len(a) for a in want] and np.allclose(flat(got), flat(want), atol=1e-9),
                      lambda: f'{case} grain {i} load {load}: Schmid factors {got}, expected {want}')
            ctx.check(max(flat(got)) <= .5 + 1e-9 and min(flat(got)) >= 0, lambda: f'{case} grain {i} load {load}: factor out of range {got}')
            eq = sorted(flat(factors(B, load, ss)))
            ctx.check(np.allclose(sorted(flat(got)), eq, atol=1e-6), lambda: f'{case} grain {i} load {load}: factors {sorted(flat(got))} differ for an equivalent orientation {eq}')
            for k, v in enumerate(flat(want)):
                ctx.eval(f'{case} {i} {load} {k}' if v > 1e-9 else None)
        if load == LOADS[case['lo'] % len(LOADS)]:
            for planes, dirs in ((None, None), ([0], None), ([1, 2], None), ([0, 3], [0]), ([2], [0])):
                p = m.plot_average_grain_schmid_factors_map(planes=planes, directions=dirs)
                img = np.asarray(p.img_layers[0].get_array())
                for i, g in enumerate(m):
                    f = g.average_schmid_factors
                    if planes is None:
                        w = max(flat(f))
                    else:
                        w = max(flat([[f[q][d] for d in dirs] if dirs else f[q] for q in planes]))
                    ctx.check(np.allclose(img[:, i], w), lambda: f'{case} planes {planes} directions {dirs}: grain {i} is drawn with {img[:, i]}, expected {w}')
                plt.close('all')
    # traces
    for i, g in enumerate(m):
        M, B, ss = mats[i]
        with np.errstate(all='ignore'):
            for again in range(2):
                angles = list(g.slip_traces)
        inc = list(g.slip_trace_inclinations)
        ctx.check(len(angles) == len(inc) == len(ss), f'{case} grain {i}: number of traces')
        for k, grp in enumerate(ss):
            n = M.T @ grp[0].slip_plane
            want = math.acos(min(1, abs(n[2])))
            ctx.check(abs(inc[k] - want) < 1e-6, lambda: f'{case} grain {i} plane {k}: inclination {inc[k]}, expected {want}')
            if want < 1e-6:
                continue
            t = np.array([-math.sin(angles[k]), math.cos(angles[k]), 0])
            ctx.check(-1e-9 <= angles[k] <= math.pi + 1e-9, f'{case} grain {i} plane {k}: angle {angles[k]}')
            ctx.check(abs(np.dot(t, n)) / math.sin(want) < 1e-6, lambda: f'{case} grain {i} plane {k}: trace at {angles[k]} does not lie in the plane with normal {n}')
            ctx.eval(f'{case} trace {i} {k}')
        if i % 6 == 0:
            buf = io.StringIO()
            with np.errstate(all='ignore'), contextlib.redirect_stdout(buf):
                g.print_slip_traces()
            lines = buf.getvalue().strip().split('\n')
            want = []
            for k, grp in enumerate(ss):
                want.append((grp[0].slip_plane_label, f'{angles[k] / D:.2f}'))
                want += [(s.slip_dir_label, f'{f:.3f}') for s, f in zip(grp, g.average_schmid_factors[k])]
            got = [(l.split()[0], l.split()[-1]) for l in lines]
            ctx.check(got == want, lambda: f'{case} grain {i}: printed {got}, expected {want}')
    # displacement ratios
    with np.errstate(all='ignore'):
        m.calc_rdr()
    for i, g in enumerate(m):
        M, B, ss = mats[i]
        ctx.check([len(a) for a in g.rdr] == [len(a) for a in ss], f'{case} grain {i}: number of displacement ratios')
        for a, b in zip(g.rdr, ss):
            for r, s in zip(a, b):
                d = M.T @ s.slip_dir
                if abs(d[1]) < 1e-9:
                    continue
                ctx.check(abs(r + d[0] / d[1]) < 1e-6 * max(1, abs(r)) ** 2, lambda: f'{case} grain {i} {s}: ratio {r}, expected {-d[0] / d[1]}')
                ctx.eval(f'{case} rdr {i} {s}' if abs(r) > 1e-9 else None)


def run_max(ctx, case):
    """Orientations that give a system the largest factor reach one half, and only that."""
    load = np.array(LOADS[case['load']], float)
    l = load / np.linalg.norm(load)
    for kind in KINDS:
        name = oracle.KIND_SYM[kind]
        ss = flat(get_phase(kind).slip_systems)
        pick = ss[::max(1, len(ss) // 8)]
        E = []
        for s in pick:
            # load in the direction (n + d) / sqrt 2 of the crystal
            c = (s.slip_plane + s.slip_dir) / math.sqrt(2)
            ax = np.cross(l, c)
            if np.linalg.norm(ax) < 1e-9:
                M = np.eye(3) if np.dot(l, c) > 0 else oracle.rot_axis(np.cross(l, (.3, .5, .8)), math.pi)
            else:
                M = oracle.rot_axis(ax, math.atan2(np.linalg.norm(ax), np.dot(l, c)))
            E.append(oracle.euler_of(M))
        for s, e in zip(pick, E):
            m = ebsd_map((2, 2), np.tile(np.array(e).reshape(3, 1, 1), (1, 2, 2)), kinds=(kind,))
            m.data.generate('grains', min_grain_size=1)
            g = m[0]
            g.calc_average_schmid_factors(load)
            ctx.check(abs(max(flat(g.average_schmid_factors)) - .5) < 1e-6, lambda: f'{kind} {s} load {load}: largest factor {max(flat(g.average_schmid_factors))}')
            k = flat(get_phase(kind).slip_systems).index(s)
            v = flat(g.average_schmid_factors)
            M = oracle.quat_matrix(g.ref_ori.quat_coef)
            if np.allclose(M, oracle.bunge(e), atol=1e-6):
                ctx.check(abs(v[k] - .5) < 1e-6, f'{kind} {s} load {load}: factor {v[k]}')
            ctx.eval(f'{kind} {s} {load}')


def run_custom(ctx):
    E = grid('quick')[:12]
    m = build(E, 0)
    fresh = build(E, 0)
    ctx.raises(Exception, lambda: m.plot_average_grain_schmid_factors_map(), 'no Schmid factors')
    for i, g in enumerate(m):
        if i == 0:
            ctx.raises(Exception, g.print_slip_traces, 'no Schmid factors')
        ss = get_phase(kind_of(i, 0)).slip_systems
        for sub in (ss[:1], ss[1:3], [[ss[0][0]], [ss[1][-1], ss[0][0]]]):
            M = None
            g.calc_average_schmid_factors((1, 2, 0), slip_systems=sub)
            M = oracle.quat_matrix(g.ref_ori.quat_coef)
            ctx.check(np.allclose(flat(g.average_schmid_factors), flat(factors(M, (1, 2, 0), sub))), f'grain {i}: chosen slip systems')
            with np.errstate(all='ignore'):
                g.calc_slip_traces(slip_systems=sub)
            ctx.check(len(g.slip_traces) == len(sub), f'grain {i}: traces of chosen slip systems')
            for a, grp in zip(g.slip_traces, sub):
                n = M.T @ grp[0].slip_plane
                if abs(n[2]) < 1 - 1e-9:
                    ctx.check(abs(np.dot((-math.sin(a), math.cos(a), 0), n)) < 1e-6, f'grain {i}: trace of chosen slip systems')
            ctx.eval(f'{i} {len(sub)}')
        # a reference orientation that was set is the one that counts, whether or not something was calculated before
        given = Quat.from_euler_angles(*E[(i + 5) % 12])
        M = oracle.quat_matrix(given.quat_coef)
        for j in range(2):
            x = g if j else fresh[i]
            x.ref_ori = given
            x.calc_average_schmid_factors((1, 2, 0))
            ctx.check(x.ref_ori is given, f'grain {i}: given reference orientation replaced by that for Schmid factors')
            ctx.check(np.allclose(flat(x.average_schmid_factors), flat(factors(M, (1, 2, 0), ss))), f'grain {i}: Schmid factors of a given orientation')
            with np.errstate(all='ignore'):
                x.calc_slip_traces()
            ctx.check(x.ref_ori is given, f'grain {i}: given reference orientation replaced by that for slip traces')
            for a, grp in zip(x.slip_traces, ss):
                n = M.T @ grp[0].slip_plane
                if abs(n[2]) < 1 - 1e-9:
                    ctx.check(abs(np.dot((-math.sin(a), math.cos(a), 0), n)) < 1e-6, f'grain {i}: trace of a given orientation')
            ctx.eval(f'given {i} {j}')
        m.calc_average_grain_schmid_factors((0, 0, 1), slip_systems=ss[:1])
        ctx.check(all(len(x.average_schmid_factors) == 1 for x in m), 'chosen slip systems for the map')


def run_dic(ctx):
    """HRDIC grains give the traces of the EBSD grain they are linked to."""
    for e in grid('quick')[::9]:
        em = ebsd_map((4, 4), np.tile(np.array(e).reshape(3, 1, 1), (1, 4, 4)), kinds=('hcp',))
        em.data.generate('grains', min_grain_size=1)
        dm = dic_map((4, 4))
        p = [(0, 0), (3, 0), (0, 3), (3, 3)]
        em.frame.set_homog_points(p)
        dm.frame.set_homog_points(p)
        dm.link_ebsd_map(em)
        dm.data.generate('grains', algorithm='floodfill', min_grain_size=1)
        with np.errstate(all='ignore'):
            ctx.check(len(dm) == 1 and np.array_equal(dm[0].slip_traces, em[0].slip_traces, equal_nan=True), 'traces of a linked grain')
            dm[0].calc_slip_traces(slip_systems=get_phase('hcp').slip_systems[:2])
        ctx.check(len(dm[0].slip_traces) == 2, 'chosen slip systems')
        ctx.check(dm[0].ref_ori is em[0].ref_ori if hasattr(dm[0], 'ref_ori') else True, 'orientation of a linked grain')
        # also when it is replaced later
        for q in (Quat.from_euler_angles(.1, .9, .3), Quat.from_euler_angles(2., 1., .4)):
            em[0].ref_ori = q
            ctx.check(dm[0].ref_ori is q, 'orientation of a linked grain after that of the EBSD grain was set')
        ctx.eval(str(e))


def run(case, ctx):
    k = case['kind']
    if k in ('map', 'max'):
        globals()['run_' + k](ctx, case)
    else:
        globals()['run_' + k](ctx)


if __name__ == '__main__':
    check.main(globals())
