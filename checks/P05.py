"""P05: the neighbour network of every small partition, against the touching pixels."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                          # noqa: E402
from mc.fixtures import ebsd_map            # noqa: E402
from defdap.ebsd import BoundarySegment, BoundarySet     # noqa: E402

PROP = 'P05'
LEVEL = 'exploration'
RULE = ('every assignment of labels to the pixels that interior boundary pixels of a 4x4 map can see, for fixed outer '
        'rings, and every two-label pattern of wider maps; minimum grain sizes 1 and 2. Non-trivial: at least one '
        'pair of neighbours; distinct by grain map')
ASSUMPTIONS = ['a boundary pixel is the left (upper) pixel of the edge; boundary pixels in the outermost rows and '
               'columns of the map are not counted (documented in the code)']
D = math.pi / 180
ANG = {1: (0, 0, 0), 2: (17, 30, 5), 3: (100, 60, 80)}


def cases(tier):
    out = []
    rings = ['a', 'self', 'mix'] if tier == 'quick' else ['a', 'b', 'self', 'mix', 'zero']
    for ring in rings:
        for f in itertools.product(range(3), repeat=4):
            out.append(dict(kind='in', ring=ring, f=f))
    # all two-label patterns of 3 x w maps: only the middle row holds interior boundary pixels
    for h, w in ((3, 4), (4, 3)) + (((3, 5), (5, 3)) if tier == 'thorough' else ()):
        for f in range(2 ** (h * w - 6)):
            out.append(dict(kind='two', shape=(h, w), f=f))
    for h, w in ((1, 5), (5, 1), (2, 5), (5, 2), (2, 2), (3, 3)):
        out.append(dict(kind='thin', shape=(h, w)))
    for f in range(64):
        out.append(dict(kind='walls', f=f))
    for f in range(4):
        out.append(dict(kind='many', f=f))
    return out


def labels(case):
    if case['kind'] == 'in':
        ring = case['ring']
        for tail in itertools.product(range(3), repeat=5):
            v = [1 + a for a in list(case['f']) + list(tail)]
            p = np.ones((4, 4), int)
            p[1:, 1:] = np.array(v).reshape(3, 3)
            if ring == 'b':
                p[0, :] = 2
                p[:, 0] = 2
            elif ring == 'self':
                p[0, 1:] = p[1, 1:]
                p[1:, 0] = p[1:, 1]
                p[0, 0] = p[1, 1]
            elif ring == 'mix':
                p[0] = [1, 2, 3, 1]
                p[1:, 0] = [2, 3, 1]
            elif ring == 'zero':
                p[0] = p[:, 0] = 0
                p[p == 3] = 0
            yield p
    elif case['kind'] == 'two':
        h, w = case['shape']
        for t in range(64):
            bits = case['f'] * 64 + t
            yield np.array([1 + (bits >> i & 1) for i in range(h * w)]).reshape(h, w)
    else:
        h, w = case['shape']
        for lab in itertools.product((1, 2), repeat=h * w):
            yield np.array(lab).reshape(h, w)


def expect(gm, right=None, down=None):
    h, w = gm.shape
    want = {}
    for y in range(1, h - 1):
        for x in range(1, w - 1):
            for k, (nx, ny) in (('x', (x + 1, y)), ('y', (x, y + 1))):
                a, b = int(gm[y, x]), int(gm[ny, nx])
                if a > 0 and b > 0 and a != b:
                    want.setdefault(frozenset((a - 1, b - 1)), []).append((k, (x, y), a - 1))
    return want


def line(k, x, y):
    return frozenset([(x + .5, y - .5), (x + .5, y + .5)]) if k == 'x' else frozenset([(x - .5, y + .5), (x + .5, y + .5)])


def compare(ctx, m, gm, what):
    m.build_neighbour_network()
    net = m.neighbour_network
    want = expect(gm)
    grains = list(m.grains)
    ctx.check(set(net.nodes) == set(grains) and len(net.nodes) == len(grains), f'{what}: nodes are not the grains')
    got = {frozenset((a.grain_id, b.grain_id)) for a, b in net.edges}
    ctx.check(got == set(want), lambda: f'{what}: neighbours {sorted(map(sorted, got))}, expected {sorted(map(sorted, want))}')
    for e, pts in want.items():
        i, j = sorted(e)
        if not net.has_edge(grains[i], grains[j]):
            continue
        ctx.check(net[grains[i]][grains[j]]['boundary'] is net[grains[j]][grains[i]]['boundary'], 'one segment per pair')
        s = net[grains[i]][grains[j]]['boundary']
        ctx.check({s.grain1.grain_id, s.grain2.grain_id} == {i, j}, f'{what}: segment {i}-{j} has other grains')
        ctx.check(len(s) == len(pts), lambda: f'{what}: segment {i}-{j} has {len(s)} points, expected {len(pts)}')
        for k, bp, pairs in (('x', s.boundary_points_x, s.boundary_point_pairs_x), ('y', s.boundary_points_y, s.boundary_point_pairs_y)):
            w_pts = sorted(p for kk, p, _ in pts if kk == k)
            ctx.check(sorted((int(a), int(b)) for a, b in bp) == w_pts,
                      lambda: f'{what}: segment {i}-{j} has {k} points {sorted(bp)}, expected {w_pts}')
            w_pairs = []
            for kk, (x, y), o in pts:
                if kk == k:
                    q = (x + 1, y) if k == 'x' else (x, y + 1)
                    w_pairs.append(((x, y), q) if o == s.grain1.grain_id else (q, (x, y)))
            g_pairs = sorted(((int(a[0]), int(a[1])), (int(b[0]), int(b[1]))) for a, b in pairs)
            ctx.check(g_pairs == sorted(w_pairs), lambda: f'{what}: pairs of segment {i}-{j}: {g_pairs}, expected {sorted(w_pairs)}')
        lines = [frozenset((tuple(map(float, a)), tuple(map(float, b)))) for a, b in s.boundary_lines]
        ctx.check(sorted(map(sorted, lines)) == sorted(sorted(line(k, *p)) for k, p, _ in pts),
                  lambda: f'{what}: lines of segment {i}-{j}')
        rev = BoundarySegment(m, s.grain2, s.grain1)
        ctx.check(rev == s and s == rev, f'{what}: segment differs from the one with swapped grains')
        for k2 in range(len(grains)) if len(grains) < 20 else (0, i // 2, max(i - 1, 0), j - 1, min(j + 1, len(grains) - 1), len(grains) - 1):
            if k2 not in (i, j):
                for a, b in ((s.grain1, grains[k2]), (grains[k2], s.grain1), (s.grain2, grains[k2]), (grains[k2], s.grain2)):
                    other = BoundarySegment(m, a, b)
                    ctx.check(not (other == s) and not (s == other), f'{what}: segment equals one of other grains')
    # all segments together
    segs = [d['boundary'] for _, _, d in net.edges(data=True)]
    if segs:
        bs = BoundarySet.from_boundary_segments(segs)
        ctx.check({(int(a), int(b)) for a, b in bs.points_x} == {p for v in want.values() for k, p, _ in v if k == 'x'} and
                  {(int(a), int(b)) for a, b in bs.points_y} == {p for v in want.values() for k, p, _ in v if k == 'y'},
                  f'{what}: boundary set of all segments')
        s = segs[0]
        if s.grain1.crystal_sym == s.grain2.crystal_sym:
            m.calc_grain_av_oris()
            r1, r2 = (np.array(g.ref_ori.quat_coef) for g in (s.grain1, s.grain2))
            mis = oracle.misori(oracle.quat_matrix(r1), oracle.quat_matrix(r2), s.grain1.crystal_sym)
            got, axis = s.misorientation()
            ctx.check(abs(got - mis) < 1e-4, lambda: f'{what}: misorientation {got}, expected {mis}')
            got2, axis2 = BoundarySegment(m, s.grain2, s.grain1).misorientation()
            ctx.check(abs(got2 - got) < 1e-6, f'{what}: misorientation depends on the order of the grains')
            ctx.check(abs(np.linalg.norm(axis) - 1) < 1e-9 or mis < 1e-4, f'{what}: axis is not a unit vector')
            ctx.note('segment misorientations')
    ctx.eval(gm.tolist() if want else None)


def run(case, ctx):
    if case['kind'] == 'many':
        # more grains and more pixels in a row than a byte can count
        long = 640 if case['f'] > 1 else 301
        p = np.zeros((5, long), int)
        for y in range(5):
            for x in range(long):
                p[y, x] = (1 + (x // 2) % 2) if y < 2 else (3 + ((x + 1) // (2 if x < 200 else 5)) % 2)
        if case['f'] > 1:
            p[1, 40:300] = 1
            p[2, 310:600] = 4
        if case['f'] % 2:
            p = np.ascontiguousarray(p.T)
        m = ebsd_map(p.shape, None, p.astype(np.uint8), kinds=('fcc', 'bcc', 'hcp', 'fcc'))
        for size in (1, 2):
            gm = np.asarray(m.data.generate('grains', return_val=True, min_grain_size=size))
            ctx.check(gm.max() > 255, 'many grains')
            compare(ctx, m, gm, f'many {case["f"]} size {size}')
        return
    if case['kind'] == 'walls':
        # dangling boundaries inside grains, on a 4x4 map with a fixed partition
        p = np.array([[1, 1, 1, 2], [1, 1, 2, 2], [1, 1, 2, 2], [1, 1, 1, 2]])
        for t in range(16):
            bits = case['f'] * 16 + t
            right, down = np.zeros((4, 4), bool), np.zeros((4, 4), bool)
            right[:, :-1] = p[:, 1:] != p[:, :-1]
            down[:-1] = p[1:] != p[:-1]
            for i, (a, x, y) in enumerate([('x', 1, 1), ('x', 0, 1), ('y', 1, 1), ('x', 0, 2), ('y', 0, 1), ('x', 2, 2),
                                           ('y', 2, 1), ('x', 1, 3), ('y', 1, 2), ('x', 0, 0)]):
                if bits >> i & 1:
                    (right if a == 'x' else down)[y, x] = True
            m = ebsd_map((4, 4), None, np.ones((4, 4), dtype=np.uint8))
            m.data.grain_boundaries
            m.data.grain_boundaries = BoundarySet.from_image(m, right, down)
            gm = np.asarray(m.data.generate('grains', return_val=True, min_grain_size=1))
            # neighbours need a boundary between them; here all different grains have one
            compare(ctx, m, gm, f'walls {bits:b}')
        return
    for n, p in enumerate(labels(case)):
        byori = (n % 16 == 0)
        if byori:
            e = np.array([np.vectorize(lambda v: ANG.get(v, (0, 0, 0))[i] * D)(p) for i in range(3)])
            m = ebsd_map(p.shape, e, (p > 0).astype(np.uint8), kinds=('fcc',))
        else:
            m = ebsd_map(p.shape, None, p.astype(np.uint8), kinds=('fcc', 'bcc', 'hcp'))
        for size in (1, 2) if n % 4 == 0 else (1 + n % 2,):
            gm = np.asarray(m.data.generate('grains', return_val=True, min_grain_size=size))
            compare(ctx, m, gm, f'{p.tolist()} size {size}')


def setup(tier):
    m = ebsd_map((2, 2))
    m.data.generate('grains', min_grain_size=1)


if __name__ == '__main__':
    check.main(globals())
