"""P11: the rotation algebra of Quat against rotation matrices."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from defdap.quat import Quat         # noqa: E402

PROP = 'P11'
LEVEL = 'model_checking'
RULE = ('every orientation of a regular grid of Bunge angles (ends of the ranges and values next to them included) and of a '
        'list of axes and angles and of exact coefficients, converted every way; every pair and triple of a list of rotations; and a search of all '
        'quaternions that can be reached by products and conjugates from sets of generators up to a depth or until no '
        'new one appears, the reference (a rotation matrix) carried along every step. Non-trivial: not the identity')
ASSUMPTIONS = ['reference: rotation matrices built from single axis rotations']
D = math.pi / 180
TOL = 1e-9

AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (1, 1, 1), (-1, 2, 3), (0, -3, .5), (1e-3, 0, 5), (-1, -1, -1)]
ANGLES = [0, 1e-9, 1e-4, 30, 45, 60, 90, 120, 135, 179.999, 180, 180.001, 200, 270, 300, 359.9999, 360, 400, 719, 720,
          -1e-9, -1, -90, -180, -270, -360]
VECS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (-2, 3, .5), (0, 0, 0), (1e-6, 0, 0), (100, -50, 20)]

GENS = {
    'cubic': [((0, 0, 1), 90), ((1, 1, 1), 120)],
    'hexagonal': [((0, 0, 1), 60), ((1, 0, 0), 180)],
    'axes': [((1, 0, 0), 45), ((0, 1, 0), 45), ((0, 0, 1), 45)],
    'mixed': [((0, 0, 1), 60), ((1, 1, 1), 120)],
    'generic': [((1, 2, 3), 37), ((-1, 0, 2), 113)],
    'small': [((1, 0, 0), 1e-3), ((0, 1, 0), 1e-3), ((0, 0, 1), 179.99)],
}
DEPTH = {'cubic': 99, 'hexagonal': 99, 'axes': 5, 'mixed': 6, 'generic': 7, 'small': 7}


def sample(name):
    if name == 'list':
        e = oracle.bunge_grid()
        return [Quat.from_euler_angles(*x) for x in e], [oracle.bunge(x) for x in e]
    q = [Quat.from_axis_angle(a, t * D) for a in AXES for t in (0, 1e-4, 90, 120, 180, 250)]
    return q, [oracle.rot_axis(a, t * D).T for a in AXES for t in (0, 1e-4, 90, 120, 180, 250)]


COEF = (-4, -3, -1, 0, 1, 3, 4)


def cases(tier):
    out = []
    step = 15 if tier == 'quick' else 5
    for p1 in range(0, 361, step):
        out.append(dict(kind='euler', p1=p1, step=step))
    for e in (1e-12, 1e-9, 1e-6, 1e-3):
        out.append(dict(kind='edges', eps=e))
    for i in range(len(AXES)):
        out.append(dict(kind='axis', i=i))
    for g in GENS:
        out.append(dict(kind='words', gens=g, depth=DEPTH[g] + (0 if tier == 'quick' or DEPTH[g] > 50 else 2)))
    for i in range(64):
        out.append(dict(kind='pairs', set='list', i=i))
    for i in range(0, 60, 3):
        out.append(dict(kind='pairs', set='axis', i=i))
    for i in range(0, 64, 4):
        out.append(dict(kind='triples', i=i))
    for s in ('list', 'axis'):
        out.append(dict(kind='many', set=s))
    out.append(dict(kind='object'))
    for a in COEF:
        out.append(dict(kind='exact', a=a))
    return out


def same(ctx, a, b, what, tol=TOL):
    ctx.check(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=tol),
              lambda: f'{what}: {np.array(a).tolist()}, expected {np.array(b).tolist()}')


def valid(ctx, q, what):
    c = q.quat_coef
    ctx.check(abs(np.dot(c, c) - 1) < 1e-9 and c[0] >= 0, lambda: f'{what}: {c.tolist()} is not a unit quaternion of the upper half')


def check_one(ctx, q, M, what, tol=TOL):
    """All representations of q describe the rotation M."""
    valid(ctx, q, what)
    same(ctx, q.rot_matrix(), M, f'{what} rotation matrix', tol)
    same(ctx, oracle.quat_matrix(q.quat_coef), M, f'{what} coefficients', tol)
    e = q.euler_angles()
    ctx.check(np.all(np.isfinite(e)) and 0 <= e[0] <= 2 * np.pi + 1e-12 and 0 <= e[1] <= np.pi + 1e-12 and 0 <= e[2] <= 2 * np.pi + 1e-12,
              lambda: f'{what}: Euler angles {e.tolist()} out of range')
    same(ctx, oracle.bunge(e), M, f'{what} Euler angles', max(tol, 1e-7))
    q2 = Quat.from_euler_angles(*e)
    same(ctx, q2.rot_matrix(), M, f'{what} Euler angles and back', max(tol, 1e-7))
    c = q.conjugate
    valid(ctx, c, f'{what} conjugate')
    same(ctx, c.rot_matrix(), M.T, f'{what} conjugate', tol)
    p = q * c
    same(ctx, p.quat_coef, [1, 0, 0, 0], f'{what} times conjugate', tol)


def run_euler(ctx, eulers):
    for e in eulers:
        q = Quat.from_euler_angles(*e)
        check_one(ctx, q, oracle.bunge(e), f'Euler {e}')
        ctx.eval(f'{e}')
    many = Quat.create_many_quats(np.array(eulers, float).T)
    ctx.check(many.shape == (len(eulers),), 'create_many_quats: shape')
    for e, m in zip(eulers, many):
        same(ctx, m.quat_coef, Quat.from_euler_angles(*e).quat_coef, f'create_many_quats {e}')


def run_axis(ctx, i):
    a = AXES[i]
    for t in ANGLES:
        for arg in (a, list(a), np.array(a), np.array(a, float) * 7):
            keep = np.array(arg)
            q = Quat.from_axis_angle(arg, t * D)
            M = oracle.rot_axis(a, t * D).T
            check_one(ctx, q, M, f'axis {a} angle {t}')
            ctx.check(np.array_equal(keep, arg), 'axis argument changed')
        # the same rotation given the other way round
        q2 = Quat.from_axis_angle(-np.array(a), -t * D)
        same(ctx, q2.rot_matrix(), M, f'axis {a} angle {t} reversed')
        ctx.eval(f'{a} {t}' if t % 360 else None)
        for v in VECS:
            w = q.transform_vector(v)
            same(ctx, w, M @ np.array(v, float), f'axis {a} angle {t} vector {v}', 1e-7)
        # axis of the rotation itself
        same(ctx, q.transform_vector(a), a, f'axis {a} angle {t} of the axis', 1e-7)
    # two rotations about one axis
    for t, u in itertools.product(ANGLES, ANGLES):
        p = Quat.from_axis_angle(a, t * D) * Quat.from_axis_angle(a, u * D)
        same(ctx, p.rot_matrix(), oracle.rot_axis(a, (t + u) * D).T, f'axis {a} angles {t}+{u}')
        ctx.eval(f'{a} {t} {u}')


def key(M):
    return tuple(np.round(M, 6).ravel() + 0.)


def run_words(ctx, case):
    gens = [(Quat.from_axis_angle(a, t * D), oracle.rot_axis(a, t * D).T) for a, t in GENS[case['gens']]]
    gens += [(q.conjugate, M.T) for q, M in gens]
    front = [(Quat(1, 0, 0, 0), np.eye(3))]
    seen = {key(np.eye(3))}
    ctx.state(key(np.eye(3)))
    d = 0
    while front and d < case['depth']:
        new = []
        for q, M in front:
            for g, G in gens:
                p, P = q * g, M @ G
                ctx.step()
                same(ctx, p.rot_matrix(), P, f'{case} depth {d}')
                p2 = g * q
                same(ctx, p2.rot_matrix(), G @ M, f'{case} depth {d} left')
                k = key(P)
                if k in seen:
                    continue
                seen.add(k)
                ctx.state(k)
                check_one(ctx, p, P, f'{case} depth {d}')
                ctx.eval(k)
                new.append((p, P))
        front = new
        d += 1
        if len(seen) > 20000:
            break
    n = {'cubic': 24, 'hexagonal': 12}.get(case['gens'])
    if n:
        ctx.check(len(seen) == n and not front, f'{case}: {len(seen)} rotations')


def run_pairs(ctx, case):
    qs, Ms = sample(case['set'])
    i = case['i']
    q, M = qs[i], Ms[i]
    k1 = q.quat_coef.copy()
    for j, (r, R) in enumerate(zip(qs, Ms)):
        k2 = r.quat_coef.copy()
        p = q * r
        valid(ctx, p, f'{case} {j} product')
        same(ctx, p.rot_matrix(), M @ R, f'{case} {j} product')
        same(ctx, (r.conjugate * q.conjugate).rot_matrix(), (M @ R).T, f'{case} {j} conjugate of a product')
        ang = oracle.angle(R @ M.T)
        d = abs(q.dot(r))
        ctx.check(abs(2 * math.acos(min(1, d)) - ang) < 1e-6, f'{case} {j}: dot product {d} for an angle of {ang}')
        ctx.check(q.dot(r) == r.dot(q), f'{case} {j}: dot is not symmetric')
        if 1e-3 < ang < np.pi - 1e-3:
            v = q.mis_ori_axis(r)
            ctx.check(abs(np.linalg.norm(v) - ang) < 1e-5, lambda: f'{case} {j}: misorientation axis has length {np.linalg.norm(v)}, angle is {ang}')
            same(ctx, oracle.rot_axis(v, ang), R @ M.T, f'{case} {j} misorientation axis', 1e-5)
        elif ang <= 1e-3:
            v = q.mis_ori_axis(r)
            ctx.check(abs(np.linalg.norm(v) - ang) < 1e-5, lambda: f'{case} {j}: misorientation axis {v}, angle is {ang}')
        eq = q == r
        ctx.check(eq == (k1.tolist() == k2.tolist()) and (not eq or hash(q) == hash(r)), f'{case} {j}: equality')
        ctx.check(np.array_equal(q.quat_coef, k1) and np.array_equal(r.quat_coef, k2), f'{case} {j}: operands were changed')
        ctx.eval(f'{case} {j}')
        for v in VECS:
            same(ctx, p.transform_vector(v), M @ (R @ np.array(v, float)), f'{case} {j} vector', 1e-7)


def run_triples(ctx, case):
    qs, Ms = sample('list')
    i = case['i']
    sub = range(0, len(qs), 3)
    for j in sub:
        for k in sub:
            a, b = (qs[i] * qs[j]) * qs[k], qs[i] * (qs[j] * qs[k])
            M = Ms[i] @ Ms[j] @ Ms[k]
            same(ctx, a.rot_matrix(), M, f'{case} {j} {k}')
            same(ctx, b.rot_matrix(), M, f'{case} {j} {k} associated')
            ctx.eval(f'{case} {j} {k}')


def run_many(ctx, case):
    qs, Ms = sample(case['set'])
    arr = np.empty(len(qs), dtype=object)
    arr[:] = qs
    comps = Quat.extract_quat_comps(arr)
    same(ctx, comps, np.array([q.quat_coef for q in qs]).T, 'extract_quat_comps')
    same(ctx, Quat.extract_quat_comps(qs), comps, 'extract_quat_comps of a list')
    n = len(qs)
    for sh in ((2, n // 2), (n // 2, 2), (1, n), (n, 1), (2, 1, n // 2)):
        c = Quat.extract_quat_comps(arr.reshape(sh))
        same(ctx, c, comps.reshape((4,) + sh), f'extract_quat_comps of shape {sh}')
        ctx.eval(f'{case} {sh}')
    ctx.check(Quat.extract_quat_comps(arr[:0]).shape == (4, 0), 'no quaternions')
    e = np.array([q.euler_angles() for q in qs]).T
    for sh in ((n,), (2, n // 2), (n // 2, 2), (1, n), (n, 1), (2, 1, n // 2), (0,), (3, 0)):
        m = min(n, int(np.prod(sh)))
        a = e[:, :m].reshape((3,) + sh)
        keep = a.copy()
        c = Quat.create_many_quats(a)
        ctx.check(c.shape == sh, f'create_many_quats of shape {sh}')
        ctx.check(np.array_equal(a, keep), 'create_many_quats changed the angles')
        for x, M in zip(c.ravel(), Ms):
            same(ctx, x.rot_matrix(), M, f'create_many_quats of shape {sh}', 1e-7)
            ctx.check(x.quat_coef[0] >= 0, 'create_many_quats: upper half')
        ctx.eval(f'{case} many {sh}')
    for r, R in zip(qs[::5], Ms[::5]):
        for src in (qs, arr, qs[:1]):
            out = Quat.multiply_many_quats(src, r)
            ctx.check(len(out) == len(src), 'multiply_many_quats: length')
            for o, q, M in zip(out, src, Ms):
                same(ctx, o.quat_coef if o.quat_coef[0] > 1e-9 else np.abs(o.quat_coef), (q * r).quat_coef if (q * r).quat_coef[0] > 1e-9 else
                     np.abs((q * r).quat_coef), 'multiply_many_quats')
                same(ctx, o.rot_matrix(), M @ R, 'multiply_many_quats')
                valid(ctx, o, 'multiply_many_quats')
            ctx.eval(f'{case} {r}')
    for g in ('cubic', 'hexagonal'):
        syms = Quat.sym_eqv(g)
        eq = Quat.calc_sym_eqvs(qs, g)
        ctx.check(eq.shape == (len(syms), 4, n), 'calc_sym_eqvs: shape')
        for i, s in enumerate(syms):
            S = s.rot_matrix()
            for j in range(n):
                same(ctx, oracle.quat_matrix(eq[i, :, j]), S @ Ms[j], f'calc_sym_eqvs {g} {i} {j}')
                ctx.check(eq[i, 0, j] >= 0, 'calc_sym_eqvs: upper half')
                ctx.eval(f'{case} {g} {i} {j}')
        eq32 = Quat.calc_sym_eqvs(qs, g, dtype=np.float32)
        ctx.check(eq32.dtype == np.float32 and np.allclose(np.abs(np.einsum('ijk,ijk->ik', eq, eq32)), 1, atol=1e-5), 'calc_sym_eqvs in single precision')


def run_object(ctx):
    for c in ((.5, .5, .5, .5), (0, 1, 0, 0), (1, 0, 0, 0), (.6, 0, -.8, 0)):
        for sg in (1, -1):
            v = tuple(sg * x for x in c)
            qs = [Quat(*v), Quat(v), Quat(list(v)), Quat(np.array(v))]
            for q in qs:
                want = np.array(v) if v[0] >= 0 else -np.array(v)
                same(ctx, q.quat_coef, want, f'Quat{v}')
                ctx.check(q == qs[0] and hash(q) == hash(qs[0]), f'Quat{v}: equality')
                ctx.check(all(q[i] == want[i] for i in range(4)), 'components')
                ctx.check(abs(q.norm() - 1) < 1e-12, 'norm')
                ctx.eval(f'{v}')
            s = Quat(*v, allow_southern=True)
            same(ctx, s.quat_coef, v, 'allow_southern')
            a = np.array(v)
            q = Quat(a)
            q[1] = 5
            ctx.check(np.array_equal(a, v) and q[1] == 5, 'setting a component')
            m = Quat(*(3 * x for x in v))
            ctx.check(abs(m.norm() - 3) < 1e-12, 'norm')
            m.normalise()
            same(ctx, m.quat_coef, want, 'normalise')
            t = Quat(*v) + Quat(1, 0, 0, 0)
            same(ctx, t.quat_coef, want + np.array([1, 0, 0, 0]), 'sum')
            u = Quat(*v)
            u += Quat(1, 0, 0, 0)
            same(ctx, u.quat_coef, want + np.array([1, 0, 0, 0]), 'sum in place')
    q = Quat(1, 0, 0, 0)
    for bad in ((1, 2, 3), ((1, 2, 3),), (1, 2), ((1, 2, 3, 4, 5),), ()):
        ctx.raises(TypeError, lambda: Quat(*bad), f'Quat{bad}')
    for f in (lambda: q * 2, lambda: q + 1, lambda: q.dot([1, 0, 0, 0]), lambda: q.transform_vector(3),
              lambda: q.transform_vector((1, 2)), lambda: q.transform_vector([1, 2, 3, 4]), lambda: q.mis_ori(3, 'cubic'),
              lambda: q.mis_ori_axis(1)):
        ctx.raises(TypeError, f, 'wrong operand')
    ctx.check(q != 3 and not (q == 'a'), 'comparison with another type')


def run(case, ctx):
    k = case['kind']
    if k == 'euler':
        s = case['step']
        run_euler(ctx, [(case['p1'] * D, P * D, p2 * D) for P in range(0, 181, s) for p2 in range(0, 361, s)])
    elif k == 'edges':
        e = case['eps']
        a = [0, e, np.pi / 2 - e, np.pi / 2 + e, np.pi - e, np.pi, np.pi + e, 2 * np.pi - e, 2 * np.pi]
        b = [0, e, np.pi / 2 - e, np.pi / 2, np.pi - e, np.pi]
        run_euler(ctx, list(itertools.product(a, b, a)))
        # angles that are out of the usual range
        for x in itertools.product((-e, -1, 7, 20, -np.pi), (-e, -1, np.pi + .5, 4), (-e, -1, 7, 2 * np.pi + e)):
            q = Quat.from_euler_angles(*x)
            check_one(ctx, q, oracle.bunge(x), f'Euler {x}')
            ctx.eval(f'{x}')
    elif k == 'axis':
        run_axis(ctx, case['i'])
    elif k == 'words':
        run_words(ctx, case)
    elif k == 'pairs':
        run_pairs(ctx, case)
    elif k == 'triples':
        run_triples(ctx, case)
    elif k == 'many':
        run_many(ctx, case)
    elif k == 'exact':
        # coefficients that are given, with exact zeros and in both halves
        for c in itertools.product((case['a'],), COEF, COEF, COEF):
            if not any(c):
                continue
            c = np.array(c, float) / math.sqrt(sum(x * x for x in c))
            M = oracle.quat_matrix(c)
            check_one(ctx, Quat(c.copy()), M, f'coefficients {c}')
            check_one(ctx, Quat(*c), M, f'coefficients {c} one by one')
            q = Quat(c.copy(), allow_southern=True)
            same(ctx, q.quat_coef, c, 'kept coefficients')
            same(ctx, oracle.bunge(q.euler_angles()), M, f'kept coefficients {c}: Euler angles', 1e-7)
            same(ctx, q.rot_matrix(), M, f'kept coefficients {c}: rotation matrix')
            ctx.eval(str(c))
    else:
        run_object(ctx)


if __name__ == '__main__':
    check.main(globals())
