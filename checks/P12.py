"""P12: symmetry groups and the misorientation of symmetric equivalents."""
import functools
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from defdap.quat import Quat         # noqa: E402
from defdap import crystal, ebsd     # noqa: E402
from mc.fixtures import ebsd_map, get_phase    # noqa: E402

PROP = 'P12'
LEVEL = 'model_checking'
RULE = ('the whole multiplication table of the symmetry operations of every crystal structure; for every pair of a list of '
        'orientations (regular grid, degenerate ones, and ones at the edge of the fundamental zone) and every symmetric '
        'equivalent of either, the misorientation angle, equivalent and axis. Non-trivial: different orientations')
ASSUMPTIONS = ['reference: smallest rotation angle over matrices of a group generated from its axes']
D = math.pi / 180
NAMES = ('cubic', 'hexagonal')


def orients():
    e = oracle.bunge_grid()[::3]
    q = [Quat.from_euler_angles(*x) for x in e]
    for a in ((0, 0, 1), (1, 1, 1), (1, 0, 0), (1, 1, 0), (1, 2, 3)):
        for t in (1e-4, 15, 30, 45, 60, 62.8, 90, 93.8, 179.9):
            q.append(Quat.from_axis_angle(a, t * D))
    return q


def cases(tier):
    out = [dict(kind='group', name=n) for n in NAMES]
    n = len(orients())
    for name in NAMES:
        for i in range(n):
            out.append(dict(kind='pairs', name=name, i=i, step=5 if tier == 'quick' else 1))
        out.append(dict(kind='array', name=name))
    out.append(dict(kind='zone', n=24 if tier == 'quick' else 60))
    return out


def run_group(ctx, name):
    cs = crystal.crystalStructures[name]
    S = [s.rot_matrix() for s in cs.symmetries]
    ref = oracle.sym(name)
    ctx.check(len(S) == len(ref) == {'cubic': 24, 'hexagonal': 12}[name], f'{name}: {len(S)} operations')
    ctx.check(np.allclose(S[0], np.eye(3)), f'{name}: first operation is not the identity')
    find = lambda M, L: [i for i, x in enumerate(L) if np.allclose(x, M, atol=1e-8)]     # noqa
    for i, M in enumerate(S):
        ctx.check(np.allclose(M @ M.T, np.eye(3), atol=1e-9) and abs(np.linalg.det(M) - 1) < 1e-9, f'{name} {i}: not a proper rotation')
        ctx.check(abs(cs.symmetries[i].norm() - 1) < 1e-12 and cs.symmetries[i][0] >= 0, f'{name} {i}: not a unit quaternion of the upper half')
        ctx.check(len(find(M, S)) == 1, f'{name} {i}: listed more than once')
        ctx.check(len(find(M, ref)) == 1, f'{name} {i}: not a symmetry of the structure')
        ctx.check(len(find(M.T, S)) == 1, f'{name} {i}: inverse missing')
        for j, N in enumerate(S):
            ctx.step()
            ctx.state((name, i, j))
            p = (cs.symmetries[i] * cs.symmetries[j]).rot_matrix()
            ctx.check(len(find(p, S)) == 1, f'{name} {i} {j}: product is missing')
            ctx.eval(f'{name} {i} {j}')
        # the unit cell is mapped onto itself
        V = cs.vertices
        perm = []
        for v in V:
            w = np.array(cs.symmetries[i].transform_vector(v))
            hit = [k for k, u in enumerate(V) if np.allclose(u, w, atol=1e-8)]
            ctx.check(len(hit) == 1, f'{name} {i}: corner {v} of the unit cell goes to {w}')
            perm.append(hit[0])
        ctx.check(sorted(perm) == list(range(len(V))), f'{name} {i}: corners of the unit cell')
        fs = [frozenset(f) for f in cs.faces]
        ctx.check(sorted(map(sorted, (frozenset(perm[k] for k in f) for f in fs))) == sorted(map(sorted, fs)), f'{name} {i}: faces of the unit cell')
    for f in cs.faces:
        P = V[list(f)]
        n = np.cross(P[1] - P[0], P[2] - P[0])
        ctx.check(np.allclose((P - P[0]) @ n, 0, atol=1e-9), f'{name}: face {f} is not plane')
        # consecutive corners are edges of the face: no crossing
        c = P.mean(0)
        turn = [np.dot(np.cross(P[k] - c, P[(k + 1) % len(P)] - c), n) for k in range(len(P))]
        ctx.check(all(t > 0 for t in turn), f'{name}: corners of face {f} are not in order')
    eqv = Quat.sym_eqv(name)
    ctx.check(len(eqv) == len(S) and all(np.allclose(a.rot_matrix(), b) for a, b in zip(eqv, S)), f'{name}: sym_eqv')
    u = Quat.sym_eqv('unknown')
    ctx.check(len(u) == 1 and np.allclose(u[0].quat_coef, [1, 0, 0, 0]), 'unknown structure has only the identity')
    kind = 'fcc' if name == 'cubic' else 'hcp'
    ctx.check(get_phase(kind).crystal_structure is cs, f'structure of a phase of kind {kind}')


def ang(c):
    return 2 * math.acos(min(1., c))


@functools.lru_cache(None)
def grains(name, second):
    """Two grains of the structure, in a map with that structure as first or as second phase."""
    kind = {'cubic': 'fcc', 'hexagonal': 'hcp'}
    other = {'cubic': 'hexagonal', 'hexagonal': 'cubic'}[name]
    e = np.zeros((3, 2, 4))
    e[0, :, 2:] = .5
    e[1, :, 2:] = .3
    m = ebsd_map((2, 4), e, np.full((2, 4), 1 + second, dtype=np.uint8), kinds=(kind[other], kind[name]) if second else (kind[name], kind[other]))
    m.data.generate('grains', min_grain_size=1)
    assert len(m) == 2
    return m


def segment(name, second, a, b):
    m = grains(name, second)
    m[0].ref_ori, m[1].ref_ori = a, b
    return ebsd.BoundarySegment(m, m[0], m[1])


def run_pairs(ctx, case):
    name, i = case['name'], case['i']
    Q = orients()
    S = Quat.sym_eqv(name)
    a = Q[i]
    A = a.rot_matrix()
    ref = oracle.sym(name)
    for j, b in enumerate(Q):
        B = b.rot_matrix()
        want = oracle.misori(A, B, name)
        got = a.mis_ori(b, name)
        ctx.check(0 <= got <= 1, f'{case} {j}: {got}')
        ctx.check(abs(ang(got) - want) < 1e-6, lambda: f'{case} {j}: misorientation {ang(got)}, expected {want}')
        ctx.check(abs(ang(b.mis_ori(a, name)) - want) < 1e-6, lambda: f'{case} {j}: swapped {ang(b.mis_ori(a, name))}, expected {want}')
        eq = a.mis_ori(b, name, return_quat=1)
        c2, eq2 = a.mis_ori(b, name, return_quat=2)
        ctx.check(c2 == got and np.array_equal(eq.quat_coef, eq2.quat_coef), f'{case} {j}: kinds of result')
        E = eq.rot_matrix()
        ctx.check(any(np.allclose(R @ B, E, atol=1e-7) for R in ref), f'{case} {j}: not a symmetric equivalent of the other orientation')
        ctx.check(abs(oracle.angle(E @ A.T) - want) < 1e-6, f'{case} {j}: equivalent is not the closest')
        if 1e-3 < want < math.pi - 1e-3:
            v = a.mis_ori_axis(eq)
            ctx.check(abs(np.linalg.norm(v) - want) < 1e-5 or abs(2 * math.pi - np.linalg.norm(v) - want) < 1e-5, f'{case} {j}: axis of length {np.linalg.norm(v)}')
            ctx.check(np.allclose(oracle.rot_axis(v, np.linalg.norm(v)), E @ A.T, atol=1e-5), f'{case} {j}: misorientation axis')
        if want <= 1e-3:
            v = a.mis_ori_axis(eq)
            ctx.check(abs(np.linalg.norm(v) - want) < 1e-5, lambda: f'{case} {j}: axis {v} for a misorientation of {want}')
            seg = segment(name, (i + j) % 2, a, b)
            ctx.check(abs(seg.misorientation()[0] - want) < 1e-6, lambda: f'{case} {j}: misorientation of a boundary {seg.misorientation()[0]}, expected {want}')
        if 1e-3 < want < math.pi - 1e-3:
            # the same between two grains
            seg = segment(name, (i + j) % 2, a, b)
            m, ax = seg.misorientation()
            ctx.check(abs(m - want) < 1e-6 and abs(np.linalg.norm(ax) - 1) < 1e-9, f'{case} {j}: misorientation of a boundary {m}, {ax}')
            ctx.check(any(np.allclose(oracle.rot_axis(sg * ax, m) @ A, R @ B, atol=1e-5) for R in ref for sg in (1,)),
                      f'{case} {j}: misorientation axis of a boundary')
        ctx.eval(f'{case} {j}' if want > 1e-6 else None)
        if j % case['step'] != i % case['step']:
            continue
        for k, s in enumerate(S):
            sb = s * b
            ctx.step(3)
            g1 = a.mis_ori(sb, name)
            ctx.check(g1 <= 1, f'{case} {j}: {g1}')
            ctx.check(abs(ang(g1) - want) < 1e-6, lambda: f'{case} {j}: equivalent {k} has misorientation {ang(g1)}, expected {want}')
            g2 = (S[(5 * k + j) % len(S)] * a).mis_ori(sb, name)
            ctx.check(abs(ang(g2) - want) < 1e-6, lambda: f'{case} {j}: equivalents {k} have misorientation {ang(g2)}, expected {want}')
            neg = Quat(-sb.quat_coef, allow_southern=True)
            ctx.check(abs(ang(a.mis_ori(neg, name)) - want) < 1e-6, f'{case} {j}: negative of equivalent {k}')
            ctx.eval(f'{case} {j} {k}' if want > 1e-6 else None)
    # a list of orientations to one
    comps = Quat.calc_sym_eqvs(Q, name)
    mo, mq = Quat.calcMisOri(comps, a)
    ctx.check(mo.shape == (len(Q),) and mq.shape == (4, len(Q)), f'{case}: shape of the list')
    for j, b in enumerate(Q):
        want = oracle.misori(A, b.rot_matrix(), name)
        ctx.check(abs(ang(mo[j]) - want) < 1e-6 and mo[j] <= 1, lambda: f'{case} {j}: list has {ang(mo[j])}, expected {want}')
        E = oracle.quat_matrix(mq[:, j])
        ctx.check(any(np.allclose(R @ b.rot_matrix(), E, atol=1e-7) for R in ref) and abs(oracle.angle(E @ A.T) - want) < 1e-6,
                  f'{case} {j}: closest equivalent in the list')


def run_array(ctx, name):
    """Relations between three orientations."""
    Q = orients()[::4]
    mats = [q.rot_matrix() for q in Q]
    M = np.array([[ang(a.mis_ori(b, name)) for b in Q] for a in Q])
    ctx.check(np.allclose(M, M.T, atol=1e-6) and np.all(np.diag(M) < 1e-6), f'{name}: not symmetric')
    ctx.check(M.max() < {'cubic': 62.81, 'hexagonal': 93.85}[name] * D, f'{name}: largest misorientation {M.max()/D}')
    for i, j, k in itertools.product(range(len(Q)), repeat=3):
        ctx.check(M[i, k] <= M[i, j] + M[j, k] + 1e-6, f'{name}: {i} {j} {k} triangle inequality')
        ctx.eval(f'{name} {i} {j} {k}')
    # rotating both in the sample frame leaves the angle
    for r in Q[::3]:
        for i, j in itertools.product(range(0, len(Q), 2), repeat=2):
            ctx.check(abs(ang((Q[i] * r).mis_ori(Q[j] * r, name)) - M[i, j]) < 1e-6, f'{name}: {i} {j} rotated sample')
            ctx.eval(f'{name} {i} {j} {r}')


def run_zone(ctx, n):
    """Rotations about one axis: the misorientation is the known sawtooth."""
    for name, axis, period in (('cubic', (0, 0, 1), 90), ('cubic', (1, 0, 0), 90), ('cubic', (1, 1, 1), 120), ('hexagonal', (0, 0, 1), 60),
                               ('hexagonal', (1, 0, 0), 180), ('hexagonal', (0, 1, 0), 180)):
        for i in range(2 * n + 1):
            t = 360 * i / n
            want = abs((t + period / 2) % period - period / 2)
            for base in (Quat(1, 0, 0, 0), Quat.from_euler_angles(.3, 1.1, 2.2)):
                g = Quat.from_axis_angle(axis, t * D) * base
                got = ang(base.mis_ori(g, name)) / D
                ctx.check(abs(got - want) < 1e-4, f'{name} {axis} by {t}: {got}, expected {want}')
                ctx.eval(f'{name} {axis} {t}' if want else None)


def run(case, ctx):
    k = case['kind']
    if k == 'group':
        run_group(ctx, case['name'])
    elif k == 'pairs':
        run_pairs(ctx, case)
    elif k == 'array':
        run_array(ctx, case['name'])
    else:
        run_zone(ctx, case['n'])


if __name__ == '__main__':
    check.main(globals())
