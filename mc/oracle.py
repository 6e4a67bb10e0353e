"""Independent reference calculations (rotation matrices, not quaternions)."""
import itertools
import math
from collections import deque
import numpy as np

D = math.pi / 180


def rot_axis(axis, ang):
    """Active rotation matrix about an axis (Rodrigues)."""
    x, y, z = np.asarray(axis, float) / np.linalg.norm(axis)
    c, s = math.cos(ang), math.sin(ang)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) * c + (1 - c) * np.outer([x, y, z], [x, y, z]) + s * K


def bunge(e):
    """Bunge (passive) orientation matrix: sample vector -> crystal vector."""
    p1, P, p2 = e
    Z1 = rot_axis((0, 0, 1), p1).T
    X = rot_axis((1, 0, 0), P).T
    Z2 = rot_axis((0, 0, 1), p2).T
    return Z2 @ X @ Z1


def euler_of(g):
    """Bunge angles of an orientation matrix, in [0, 2pi) x [0, pi] x [0, 2pi)."""
    P = math.atan2(math.hypot(g[2, 0], g[2, 1]), g[2, 2])
    if abs(math.sin(P)) > 1e-9:
        p1 = math.atan2(g[2, 0], -g[2, 1])
        p2 = math.atan2(g[0, 2], g[1, 2])
    else:
        # only phi1 +- phi2 matters
        if g[2, 2] > 0:
            p1, p2 = math.atan2(g[0, 1], g[0, 0]), 0.
        else:
            p1, p2 = math.atan2(g[0, 1], g[0, 0]), 0.
    return (p1 % (2 * math.pi), P, p2 % (2 * math.pi))


def _close(gens):
    els = [np.eye(3)]
    todo = deque(els)
    while todo:
        a = todo.popleft()
        for g in gens:
            b = g @ a
            if not any(np.allclose(b, c, atol=1e-9) for c in els):
                els.append(b)
                todo.append(b)
    return els


_SYM = {}


def sym(name):
    """Proper rotations of the crystal structure."""
    if name not in _SYM:
        if name == 'cubic':
            g = [rot_axis((0, 0, 1), math.pi / 2), rot_axis((1, 1, 1), 2 * math.pi / 3)]
        elif name == 'hexagonal':
            g = [rot_axis((0, 0, 1), math.pi / 3), rot_axis((1, 0, 0), math.pi)]
        else:
            raise ValueError(name)
        _SYM[name] = np.array(_close(g))
    return _SYM[name]


KIND_SYM = {'fcc': 'cubic', 'bcc': 'cubic', 'hcp': 'hexagonal'}


def angle(R):
    """Rotation angle of matrices (..., 3, 3), accurate at both ends."""
    R = np.asarray(R)
    t = (np.trace(R, axis1=-2, axis2=-1) - 1) / 2
    v = np.stack([R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]], -1)
    s = np.linalg.norm(v, axis=-1) / 2
    return np.arctan2(s, t)


def misori(g1, g2, name):
    """Smallest rotation angle between the orientations, over the symmetry (radian)."""
    S = sym(name)
    return float(np.min(angle(S @ (g2 @ g1.T))))


def quat_matrix(q):
    """Orientation (Bunge) matrix of the unit quaternion q (4 coefficients)."""
    w, x, y, z = q
    A = np.array([[1 - 2*(y*y + z*z), 2*(x*y - w*z), 2*(x*z + w*y)],
                  [2*(x*y + w*z), 1 - 2*(x*x + z*z), 2*(y*z - w*x)],
                  [2*(x*z - w*y), 2*(y*z + w*x), 1 - 2*(x*x + y*y)]])
    return A


def components(ok, right, down):
    """4-connected components of the pixels with ok true, not crossing edges where right[y][x]
    (between x and x+1) or down[y][x] (between y and y+1) is true; in raster order of first pixel."""
    h, w = len(ok), len(ok[0])
    seen = [[False] * w for _ in range(h)]
    out = []
    for y0 in range(h):
        for x0 in range(w):
            if seen[y0][x0] or not ok[y0][x0]:
                continue
            comp = []
            todo = [(x0, y0)]
            seen[y0][x0] = True
            while todo:
                x, y = todo.pop()
                comp.append((x, y))
                for nx, ny, wall in ((x + 1, y, x + 1 < w and right[y][x]), (x - 1, y, x > 0 and right[y][x - 1]),
                                     (x, y + 1, y + 1 < h and down[y][x]), (x, y - 1, y > 0 and down[y - 1][x])):
                    if 0 <= nx < w and 0 <= ny < h and not wall and ok[ny][nx] and not seen[ny][nx]:
                        seen[ny][nx] = True
                        todo.append((nx, ny))
            out.append(sorted(comp))
    return out


def bunge_grid():
    """A list of Bunge angles with generic and degenerate members."""
    out = []
    for p1 in (0, 37, 180, 270):
        for P in (0, 25, 90, 180):
            for p2 in (0, 50, 180, 315):
                out.append((p1 * D, P * D, p2 * D))
    return out
