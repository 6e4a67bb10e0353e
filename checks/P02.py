"""P02: derived data over all small graphs of linked stores, and over histories on real linked maps."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from defdap.utils import Datastore   # noqa: E402

PROP = 'P02'
LEVEL = 'model_checking'
RULE = ('(graphs) every directed graph of links between 3 stores and every acyclic one between 4, each link plain, '
        'with a property filter, or passing the item name; the item held by any one store as data or lazily generated; '
        'every order of reading the stores, with and without one failing transform. '
        '(maps) every order of the operations find grains, link, add data, calculate, relink on a linked EBSD and HRDIC map; '
        'all grain data compared with the map data at the grain points after every operation')
ASSUMPTIONS = ['a graph in which two sources of a cycle both lead to the item is only checked for items that are absent '
               '(which of the paths is taken is not specified)',
               'property filters are on links at most two links away from the item, as in grain - map - linked map']


class Boom(Exception):
    pass


# ------------------------------------------------------------------ abstract graphs
NONE, PLAIN, MAPONLY, REF = range(4)


def paths(adj, owner, itype, s, n):
    """All values the transforms along simple paths from s to the owner give: list of (path edges)."""
    out = []

    def go(node, seen, typ_needed_edges):
        if node == owner:
            out.append(list(typ_needed_edges))
            return
        for t in range(n):
            if adj[node][t] and t not in seen:
                go(t, seen | {t}, typ_needed_edges + [(node, t)])
    go(s, {s}, [])
    good = []
    for p in out:
        # the filter of each link is tested on the item type as seen at the link's source
        typ = itype
        ok = True
        for (a, b) in reversed(p):
            if adj[a][b] == MAPONLY:
                if typ != 'map':
                    ok = False
                    break
                typ = 'list'
        if ok:
            good.append(p)
    return good


def run_graph(case, ctx):
    n, adj, owner, itype, lazy, order = (case[k] for k in ('n', 'adj', 'owner', 'itype', 'lazy', 'order'))
    edges = [(a, b) for a in range(n) for b in range(n) if adj[a][b]]
    cyc = any_cycle(adj, n)
    reach = {s: (paths(adj, owner, itype, s, n) if owner is not None else []) for s in range(n)}
    ambiguous = cyc and owner is not None and any(
        len(p) > 1 for s, p in reach.items() if s != owner)
    # a filter in a cycle is tested on an item that is itself derived: see ASSUMPTIONS
    ambiguous = ambiguous or (cyc and any(adj[a][b] == MAPONLY and b != owner for a, b in edges))

    for fail in [None] + edges:
        for perm in orders(n, fail):
            S = [Datastore() for _ in range(n)]
            calls = {}
            failed = []

            def mk(a, b):
                def f(v):
                    if (a, b) == fail and not failed:
                        failed.append(1)
                        raise Boom()
                    if adj[a][b] == REF:        # v is the item name
                        return ('f', a, b, S[b][v])
                    return ('f', a, b, v)
                return f
            if owner is not None:
                if lazy:
                    S[owner].add_generator('x', lambda: ('src',), type=itype, unit='U', tag='S')
                else:
                    S[owner].add('x', ('src',), type=itype, unit='U')
            for a, b in (edges if order else edges[::-1]):
                kw = dict(in_props={'type': 'map'}, out_props={'type': 'list', 'tag': falsy(a, b)}) if adj[a][b] == MAPONLY else {}
                if adj[a][b] == REF:
                    kw = dict(pass_ref=True)
                S[a].add_derivative(S[b], mk(a, b), **kw)

            for s in perm:
                ctx.step()
                for absent in ('nope',):
                    ctx.check(absent not in S[s], f'store {s} claims to hold an unknown item')
                    ctx.raises(KeyError, lambda: S[s][absent], f'reading an unknown item of store {s}')
                    ctx.check(S[s].get_metadata(absent, 'unit', 'd') == 'd', 'metadata of an unknown item')
                if owner is None:
                    ctx.raises(KeyError, lambda: S[s]['x'], f'reading an item no store holds from {s}')
                    continue
                if ambiguous:
                    ctx.note('ambiguous cyclic graph, only absent items checked')
                    continue
                good = reach[s]
                ctx.check(('x' in S[s]) == bool(good) and ('x' in set(S[s].keys())) == bool(good),
                          lambda: f'store {s}: membership of x is {"x" in S[s]}, expected {bool(good)}')
                listed = {l.strip() for l in str(S[s]).split('\n')[1:]} - {'Derived data:'}
                ctx.check(listed == set(S[s].keys()), lambda: f'store {s} is printed with {sorted(listed)}, holds {sorted(S[s].keys())}')
                if not good:
                    ctx.raises(KeyError, lambda: S[s]['x'], f'reading x from {s}, which no link provides')
                    continue
                try:
                    got = S[s]['x']
                except Boom:
                    ctx.check(fail is not None and any(fail in p for p in good), 'unexpected transform')
                    ctx.note('reads that failed and were repeated')
                    got = S[s]['x']
                want = []
                for p in good:
                    v = ('src',)
                    typ, tag = itype, 'S' if lazy else 'dflt'
                    for e in reversed(p):
                        v = ('f', e[0], e[1], v)
                        if adj[e[0]][e[1]] == MAPONLY:
                            typ, tag = 'list', falsy(*e)
                    want.append((v, typ, tag, 'U'))
                g = (got, S[s].get_metadata('x', 'type'), S[s].get_metadata('x', 'tag', 'dflt'), S[s].get_metadata('x', 'unit'))
                ctx.check(g in want, lambda: f'store {s} gives x as {g}, expected one of {want}')
                ctx.check(S[s]['x', 'unit'] == 'U', 'metadata by item access')
                ctx.state((adj, owner, s, g))
            ctx.trace()


def falsy(a, b):
    """Metadata given to a derivative, which may be nothing but is not missing."""
    return (a, b) if b > 1 else (0, '', None, False)[(a + b) % 4]


def any_cycle(adj, n):
    seen, done = set(), set()

    def go(v):
        if v in done:
            return False
        if v in seen:
            return True
        seen.add(v)
        r = any(adj[v][t] and go(t) for t in range(n))
        done.add(v)
        return r
    return any(go(v) for v in range(n))


def orders(n, fail):
    if n <= 3:
        return [p + p[:1] for p in itertools.permutations(range(n))] if fail is None else [tuple(range(n)), tuple(range(n))[::-1]]
    return [tuple(range(n)), tuple(range(n))[::-1]]


# ------------------------------------------------------------------ real maps
OPS = ['E', 'V', 'G', 'L', 'D', 'W', 'R', 'M', 'K']


def build():
    from mc.fixtures import ebsd_map, dic_map
    eu = np.zeros((3, 4, 5))
    eu[0, :, 3:] = 0.4
    eu[0, 2:, :3] = 0.8
    eu[1] = np.linspace(0, 0.02, 20).reshape(4, 5)
    ph = np.ones((4, 5), dtype=np.uint8)
    ph[3, 4] = 2
    e1 = ebsd_map((4, 5), eu, ph, kinds=('fcc', 'hcp'))
    e2 = ebsd_map((4, 5), eu[:, ::-1, ::-1].copy(), ph[::-1, ::-1].copy(), kinds=('fcc', 'hcp'))
    disp = np.zeros((2, 8, 10))
    disp[0] = np.arange(80).reshape(8, 10) ** 1.5 / 50
    disp[1] = np.arange(80)[::-1].reshape(8, 10) ** 1.3 / 50
    d = dic_map(disp=disp)
    sq = [(0, 0), (4, 0), (0, 3), (4, 3)]
    for e in (e1, e2):
        e.frame.set_homog_points(sq)
    d.frame.set_homog_points([(2 * x + .5, 2 * y + .5) for x, y in sq])
    return e1, e2, d


class World:
    def __init__(self):
        self.e1, self.e2, self.d = build()
        self.linked = None
        self.egrains = False
        self.dgrains = False
        self.n = 0

    def enabled(self, op):
        if op == 'D':
            return self.linked is not None
        if op == 'G':
            return self.egrains and len(self.e1.grains) > 0
        if op == 'W':
            return self.dgrains
        if op == 'R':
            return self.linked == 1
        return True

    def apply(self, op):
        if op == 'E':
            self.e1.data.generate('grains', min_grain_size=1)
            self.egrains = True
        elif op == 'V':
            self.n += 1
            for m in (self.e1, self.d):
                N = int(np.prod(m.shape))
                m.data.add(f's{self.n}', np.arange(N).reshape(m.shape) + 100 * self.n, type='map', order=0, unit='u0', plot_params={'a': self.n})
                m.data.add(f'v{self.n}', np.arange(2 * N).reshape((2,) + m.shape) + 1000 * self.n, type='map', order=1, unit='u1')
                m.data.add(f't{self.n}', np.arange(4 * N).reshape((2, 2) + m.shape), type='map', order=2, unit='u2')
        elif op == 'G':
            self.e1.calc_grain_av_oris()
            self.e1.data['GROD']
        elif op == 'K':
            self.e1.data['KAM']
        elif op == 'M':
            self.d.data['max_shear']
        elif op == 'L':
            self.d.link_ebsd_map(self.e1, transform_type='affine')
            self.linked = 1
        elif op == 'R':
            self.d.link_ebsd_map(self.e2, transform_type='affine')
            self.linked = 2
        elif op == 'D':
            self.d.data.generate('grains', algorithm='warp', min_grain_size=1)
            if self.linked == 1:
                self.egrains = True
            self.dgrains = True
        elif op == 'W':
            for g in self.d.grains:
                g.data.add(f'own{len(list(g.data))}', 1, type='scalar')


def compare(w, ctx, hist):
    for m, has in ((w.e1, w.egrains), (w.d, w.dgrains)):
        if not has:
            continue
        grains = m.grains
        ctx.check(len(grains) >= 1 or 'E' not in hist or m is w.d, f'{hist}: no grains')
        keys = [k for k in m.data if m.data.get_metadata(k, 'type') == 'map'
                and k not in ('GROD', 'GROD_axis', 'e', 'f', 'GND', 'Nye_tensor', 'point', 'mask', 'pattern')]
        for g in grains:
            pt = np.asarray(g.data.point)
            for k in keys:
                if m is w.e1 and k in ('KAM',) and 'K' not in hist:
                    continue
                if m is w.d and k == 'max_shear' and 'M' not in hist:
                    continue
                v = np.asarray(m.data[k])
                got = np.asarray(g.data[k])
                ctx.check(got.shape == v.shape[:-2] + (len(pt),), lambda: f'{hist}: {k} of grain {g.grain_id} has shape {got.shape}')
                want = v[..., pt[:, 1], pt[:, 0]]
                same = np.all(got == want) if v.dtype == object else np.array_equal(got, want, equal_nan=True)
                ctx.check(same, lambda: f'{hist}: {k} of grain {g.grain_id} is not the map data at its points')
                for a in ('unit', 'order', 'plot_params'):
                    ctx.check(g.data.get_metadata(k, a, 'd') == m.data.get_metadata(k, a, 'd'),
                              lambda: f'{hist}: metadata {a} of {k} differs between map and grain')
                ctx.check(g.data.get_metadata(k, 'type') == 'list', lambda: f'{hist}: {k} of a grain is not a list')
            ctx.raises(KeyError, lambda: g.data['nope'], f'{hist}: unknown data of a grain')
        ctx.raises(KeyError, lambda: m.data['nope'], f'{hist}: unknown data of a map')
    # grain lists as map data
    if 'G' in hist and hist[::-1].index('G') < (hist[::-1].index('E') if 'E' in hist else 99):
        im = np.asarray(w.e1.data['GROD'])
        axm = np.asarray(w.e1.data['GROD_axis'])
        ctx.check(im.shape == tuple(w.e1.shape) and axm.shape == (3,) + tuple(w.e1.shape), f'{hist}: GROD shape')
        ctx.check(w.e1.data.get_metadata('GROD', 'type') == 'map' and w.e1.data.get_metadata('GROD', 'unit') == 'rad',
                  f'{hist}: metadata of GROD in the map')
        want, wax = np.zeros(im.shape), np.zeros(axm.shape)
        for g in w.e1.grains:
            for i, (x, y) in enumerate(g.data.point):
                want[y, x] = g.data['GROD'][i]
                wax[:, y, x] = g.data['GROD_axis'][:, i]
        ctx.check(np.allclose(im, want, equal_nan=True, atol=1e-12) and np.allclose(axm, wax, equal_nan=True, atol=1e-12),
                  f'{hist}: the map of GROD is not the data of its grains')
    if w.linked:
        src = (w.e1, w.e2)[w.linked - 1]
        for k in ('phase_boundaries', 'grain_boundaries'):
            ctx.check(k in w.d.data, f'{hist}: {k} of the linked map is not found')
            pts = set(map(tuple, src.data[k].lines and w.d.experiment.warp_lines(src.data[k].lines, src.frame, w.d.frame)))
            got = w.d.data[k]
            ctx.check(set(map(tuple, got.lines)) == pts, lambda: f'{hist}: {k} is not that of the last linked map')
            ctx.check(got.image.shape == tuple(w.d.shape), f'{hist}: shape of {k}')
            ctx.check(w.d.data.get_metadata(k, 'type') == 'boundaries', f'{hist}: type of {k}')
    else:
        ctx.check('grain_boundaries' not in w.d.data, f'{hist}: boundaries before any map is linked')
        ctx.raises(KeyError, lambda: w.d.data['grain_boundaries'], f'{hist}: boundaries before any map is linked')


def run_maps(case, ctx):
    first, depth = case['first'], case['depth']

    def rec(hist):
        w = World()
        for op in hist:
            if not w.enabled(op):
                return
            w.apply(op)
            ctx.step()
        ctx.state((w.linked, w.egrains, w.dgrains, w.n, sorted(hist)))
        compare(w, ctx, hist)
        ctx.trace()
        if len(hist) < depth:
            for op in OPS:
                if hist.count(op) < (2 if op in 'EVD' else 1):
                    rec(hist + [op])
    rec(first)


# ------------------------------------------------------------------
def cases(tier):
    out = []
    n = 3
    e3 = [(a, b) for a in range(3) for b in range(3) if a != b]
    kinds = (NONE, PLAIN, MAPONLY) if tier == 'quick' else (NONE, PLAIN, MAPONLY, REF)
    for combo in itertools.product(kinds, repeat=6):
        adj = [[0] * 3 for _ in range(3)]
        for (a, b), k in zip(e3, combo):
            adj[a][b] = k
        for owner in (None, 0) if tier == 'quick' else (None, 0, 1, 2):
            for itype in ('map', 'list') if owner is not None else ('map',):
                for order in (0, 1):
                    out.append(dict(kind='g', n=3, adj=adj, owner=owner, itype=itype, lazy=sum(combo) % 2, order=order))
    e4 = [(a, b) for a in range(4) for b in range(a + 1, 4)]
    for combo in itertools.product((NONE, PLAIN, MAPONLY, REF), repeat=6):
        adj = [[0] * 4 for _ in range(4)]
        for (a, b), k in zip(e4, combo):
            adj[a][b] = k
        # a filter is tested at most two links away from the item (grain, map, linked map)
        if any(k == MAPONLY and a == 0 for (a, b), k in zip(e4, combo)):
            continue
        if tier == 'quick' and REF in combo and combo.count(NONE) > 3:
            continue
        out.append(dict(kind='g', n=4, adj=adj, owner=3, itype='map', lazy=combo[0] % 2, order=sum(combo) % 2))
    # a chain of five stores with one link back
    for back in itertools.combinations(range(5), 2):
        for k in (PLAIN, MAPONLY):
            adj = [[0] * 5 for _ in range(5)]
            for i in range(4):
                adj[i][i + 1] = MAPONLY if i == 3 else PLAIN
            adj[back[1]][back[0]] = k
            out.append(dict(kind='g', n=5, adj=adj, owner=4, itype='map', lazy=1, order=0))
    depth = 4 if tier == 'quick' else 6
    for a in OPS:
        for b in OPS:
            out.append(dict(kind='m', first=[a, b], depth=depth))
    return out[::-1]


def run(case, ctx):
    if case['kind'] == 'g':
        run_graph(case, ctx)
    else:
        if case['first'][0] == case['first'][1] and case['first'][0] not in 'EVD':
            return
        run_maps(case, ctx)


def setup(tier):
    w = World()
    for op in ('L', 'D', 'E'):
        w.apply(op)
    w.d.data.generate('grains', algorithm='floodfill', min_grain_size=1)


if __name__ == '__main__':
    check.main(globals())
