"""P04: grains of every boundary pattern on small maps, against plain connected components."""
import itertools
import math
import os
import sys
import warnings
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
from defdap import defaults            # noqa: E402
import numpy as np                          # noqa: E402
from mc.fixtures import ebsd_map            # noqa: E402
from defdap.ebsd import BoundarySet         # noqa: E402

PROP = 'P04'
LEVEL = 'model_checking'
RULE = ('(walls) every set of boundary edges on small maps, (phases) every assignment of the phases 0, 1, 2 and every '
        'orientation pattern from a non-transitive alphabet, (strips) maps one pixel wide; for each map grains are found '
        'again and again with every minimum size, each result compared with breadth-first connected components')
ASSUMPTIONS = ['unindexed pixels are separated from indexed ones by a boundary (as the phase difference always gives)']
D = math.pi / 180
SIZES = {2: (1, 2), 3: (1, 2, 3)}


def compare(ctx, m, phase, right, down, size, what, phases):
    h, w = phase.shape
    ok = phase > 0
    comps = oracle.components(ok.tolist(), right.tolist(), down.tolist())
    want = np.zeros((h, w), int)
    grains = []
    for c in comps:
        if len(c) < size:
            for x, y in c:
                want[y, x] = -2
        else:
            grains.append(c)
            for x, y in c:
                want[y, x] = len(grains)
    got = np.asarray(m.data.generate('grains', return_val=True, min_grain_size=size))
    ctx.step()
    ctx.check(np.array_equal(got, want), lambda: f'{what} size {size}: grain map {got.tolist()}, expected {want.tolist()}')
    ctx.check(np.array_equal(np.asarray(m.data.grains), want), lambda: f'{what} size {size}: stored grain map differs')
    gl = list(m.grains)
    ctx.check(len(gl) == len(grains) == len(m), lambda: f'{what} size {size}: {len(gl)} grains ({len(m)}), expected {len(grains)}')
    for i, (g, c) in enumerate(zip(gl, grains)):
        pts = [tuple(int(v) for v in p) for p in g.data.point]
        ctx.check(sorted(pts) == c, lambda: f'{what} size {size}: grain {i} has points {sorted(pts)}, expected {c}')
        ctx.check(len(g) == len(c) and g.grain_id == i and m[i] is g, lambda: f'{what} size {size}: id or length of grain {i}')
        x, y = c[0]
        ph = int(phase[y, x])
        if len({int(phase[b, a]) for a, b in c}) == 1:
            ctx.check(g.phase_id == ph - 1 and g.phase is phases[ph - 1], lambda: f'{what}: phase of grain {i} is {g.phase_id}')
        else:
            # only with boundaries of the user
            ctx.check(g.phase_id is None and g.phase is None, lambda: f'{what}: phase of grain {i} of several phases is {g.phase_id}')
    ctx.state((phase.tolist(), right.tolist(), down.tolist(), size))
    return len(grains)


def wall_edges(h, w):
    return [('x', x, y) for y in range(h) for x in range(w - 1)] + [('y', x, y) for y in range(h - 1) for x in range(w)]


def cases(tier):
    out = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 6), (6, 1), (2, 4), (4, 2), (3, 3)]
    if tier == 'thorough':
        shapes += [(3, 4), (1, 10), (10, 1), (2, 5), (5, 2)]
    for h, w in shapes:
        n = len(wall_edges(h, w))
        for lo in range(0, 2 ** n, 64):
            out.append(dict(kind='walls', shape=(h, w), lo=lo, hi=min(2 ** n, lo + 64)))
    for h, w in ((1, 3), (3, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3),) if tier == 'thorough' else ()):
        for f in range(3 ** max(0, h * w - 3)):
            out.append(dict(kind='phases', shape=(h, w), f=f))
    for h, w in ((1, 4), (4, 1), (2, 3), (3, 2)) + (((2, 4), (4, 2)) if tier == 'thorough' else ()):
        for f in range(4 ** max(0, h * w - 3)):
            out.append(dict(kind='oris', shape=(h, w), f=f))
    # larger structured maps: spirals, combs, checkerboards, rings
    for name in ('spiral', 'comb', 'check', 'rings', 'diag', 'snake'):
        for n in (4, 5, 7) if tier == 'quick' else (4, 5, 6, 7, 9, 12, 16):
            for flip in range(8):
                out.append(dict(kind='struct', name=name, n=n, flip=flip))
    # more grains, and grains of more pixels, than small integers can count
    for name in ('check', 'spiral'):
        out.append(dict(kind='struct', name=name, n=192, flip=0))
    return out[::-1]


def structured(name, n):
    p = np.ones((n, n), int)
    if name == 'comb':
        p[1:, ::2] = 2
    elif name == 'check':
        p[::2, ::2] = p[1::2, 1::2] = 2
    elif name == 'rings':
        for k in range((n + 1) // 2):
            p[k:n - k, k:n - k] = 1 + k % 2
    elif name == 'diag':
        for i in range(n):
            p[i, i] = 2
            p[i, n - 1 - i] = 0
    elif name == 'snake':
        for y in range(1, n, 2):
            p[y] = 2
            p[y, -1 if (y // 2) % 2 else 0] = 1
    elif name == 'spiral':
        p[:] = 2
        x = y = 0
        dx, dy = 1, 0
        seen = set()
        for _ in range(n * n):
            p[y, x] = 1
            seen.add((x, y))
            fx, fy = x + 2 * dx, y + 2 * dy
            if not (0 <= x + dx < n and 0 <= y + dy < n) or ((fx, fy) in seen):
                dx, dy = -dy, dx
                if not (0 <= x + dx < n and 0 <= y + dy < n) or (x + 2 * dx, y + 2 * dy) in seen or (x + dx, y + dy) in seen:
                    break
            x, y = x + dx, y + dy
    return p


def flips(p, f):
    if f & 1:
        p = p[::-1]
    if f & 2:
        p = p[:, ::-1]
    if f & 4:
        p = p.T
    return p.copy()


def run(case, ctx):
    # progress is reported after any number of grains
    defaults['find_grain_report_freq'] = 1 + zlib.crc32(str(case).encode()) % 3
    if case['kind'] == 'walls':
        h, w = case['shape']
        ed = wall_edges(h, w)
        ph = np.ones((h, w), dtype=np.uint8)
        m = ebsd_map((h, w), None, ph)
        m.data.grain_boundaries          # generated once, then replaced by the pattern
        ph2 = np.array([[1 + (x // 2 + y) % 2 for x in range(w)] for y in range(h)], dtype=np.uint8)
        m2 = ebsd_map((h, w), None, ph2, kinds=('fcc', 'hcp'))
        for bits in range(case['lo'], case['hi']):
            right, down = np.zeros((h, w), bool), np.zeros((h, w), bool)
            for i, (k, x, y) in enumerate(ed):
                if bits >> i & 1:
                    (right if k == 'x' else down)[y, x] = True
            m.data.grain_boundaries = BoundarySet.from_image(m, right, down)
            for size in (1, 2, 4):
                compare(ctx, m, ph, right, down, size, f'walls {case["shape"]} {bits:b}', m.phases)
            if bits % 3 == 0:
                m2.data.grain_boundaries = BoundarySet.from_image(m2, right, down)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    compare(ctx, m2, ph2, right, down, 1, f'walls {case["shape"]} {bits:b}, two phases', m2.phases)
            ctx.trace()
    else:
        if case['kind'] == 'struct':
            p = flips(structured(case['name'], case['n']), case['flip'])
            todo = [(p, np.zeros(p.shape))]
            sizes = (1, 2, 3, 10) if case['n'] < 100 else (1,)
        else:
            h, w = case['shape']
            n = h * w
            b = 3 if case['kind'] == 'phases' else 4
            todo = []
            f = case['f']
            lead = []
            for _ in range(max(0, n - 3)):
                lead.append(f % b)
                f //= b
            for tail in itertools.product(range(b), repeat=min(3, n)):
                lab = np.array(lead + list(tail)).reshape(h, w)
                if b == 3:
                    todo.append((lab, np.zeros((h, w))))
                else:
                    todo.append((np.ones((h, w), int), lab * 6.0))
            sizes = (1, 2, 3)
        for p, ang in todo:
            e = np.zeros((3,) + p.shape)
            e[0] = ang * D
            m = ebsd_map(p.shape, e, p.astype(np.uint8), kinds=('fcc', 'hcp'))
            right, down = np.zeros(p.shape, bool), np.zeros(p.shape, bool)
            right[:, :-1] = (p[:, 1:] != p[:, :-1]) | (abs(ang[:, 1:] - ang[:, :-1]) > 10)
            down[:-1] = (p[1:] != p[:-1]) | (abs(ang[1:] - ang[:-1]) > 10)
            for size in sizes:
                compare(ctx, m, p, right, down, size, f'{case["kind"]} {p.tolist()} {ang.tolist()}', m.phases)
            # back to a smaller size on the same map
            compare(ctx, m, p, right, down, 1, f'{case["kind"]} again {p.tolist()} {ang.tolist()}', m.phases)
            ctx.trace()


def setup(tier):
    m = ebsd_map((2, 2))
    m.data.generate('grains', min_grain_size=1)


if __name__ == '__main__':
    check.main(globals())
