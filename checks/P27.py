"""P27: experiments keep increments, maps, frames and links apart."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import defdap                        # noqa: E402
from defdap.experiment import Experiment, Frame   # noqa: E402
from mc.fixtures import ebsd_map, dic_map, MemEbsd, MemDic   # noqa: E402

PROP = 'P27'
LEVEL = 'model_checking'
RULE = ('every sequence up to the depth of adding increments, adding EBSD and HRDIC maps to them (in the last or an own increment, under the '
        'usual or another name, with an own or a shared frame, in another or no experiment), setting points of frames, cropping, linking and '
        'finding grains, from an empty experiment and from one with linked maps; after every operation the increments, maps, frames, '
        'transforms, links, derived boundaries and grain data of all maps are compared with a model. Non-trivial: at least two maps')
ASSUMPTIONS = ['frames are related by whole-pixel shifts', 'grains of a map are not judged after that map is cropped, linked again or its frame moved']

OPS = ['inc', 'E', 'En', 'D', 'Dshare', 'Dnew', 'Efr', 'other', 'anon', 'link', 'link2', 'pts', 'grains', 'crop', 'again']
H, W = 6, 7
PTS = [(0, 0), (6, 0), (0, 5), (6, 5)]
PATT = [np.array([[1] * 3 + [2] * 4] * 6), np.array([[1] * 7] * 2 + [[2] * 7] * 4), np.array([[1] * 5 + [2] * 2] * 3 + [[3] * 7] * 3)]


class Model:
    def __init__(self, ctx, start):
        self.ctx = ctx
        self.exp = Experiment()
        self.incs = []           # (increment, metadata, {name: map})
        self.maps = []           # dict(kind, map, frame, inc)
        self.points = {}         # id(frame) -> list of points
        self.frames = []         # frames in order
        self.links = {}          # (id, id) -> True
        self.hist = []
        self.n = 0
        for op in start:
            self.do(op)

    # ------------------------------------------------------------ operations
    def increment(self, **md):
        inc = self.exp.add_increment(**md)
        self.incs.append((inc, md, {}))
        return inc

    def new(self, kind, inc, name=None, frame=None, exp=None):
        kw = dict(experiment=exp or self.exp)
        if inc is not None:
            kw['increment'] = inc
            if self.n % 2:
                kw['experiment'] = None
        if name is not None:
            kw['map_name'] = name
        if frame is not None:
            kw['frame'] = frame
        k = self.n
        self.n += 1
        if kind == 'E':
            lab = PATT[k % 3]
            eu = np.zeros((3, H, W))
            eu[0] = lab * .4 + k * .01
            m = ebsd_map((H, W), euler=eu, **kw)
            rec = dict(kind='E', map=m, lab=lab, frame=m.frame, grains=None)
        else:
            u = np.array([.01 * (k + 1) * np.arange(H * W).reshape(H, W) % .37, .02 * (np.arange(H * W) * (k + 3) % 11).reshape(H, W)])
            m = dic_map(disp=u, **kw)
            rec = dict(kind='D', map=m, frame=m.frame, crop=(0, 0), ebsd=None, grains=None, shear=np.array(m.data.max_shear))
        if inc is None and exp is None:
            self.incs.append((m.increment, {}, {}))
            inc = m.increment
        rec['inc'], rec['exp'] = inc, exp or self.exp
        if frame is not None:
            self.ctx.check(m.frame is frame, f'{self.hist}: the frame given to the map is not used')
        if id(m.frame) not in self.points:
            self.ctx.check(frame is not None or all(m.frame is not f for f in self.frames), f'{self.hist}: a new map shares its frame')
            self.frames.append(m.frame)
            self.points[id(m.frame)] = []
        else:
            self.ctx.check(frame is not None, f'{self.hist}: a new map shares its frame')
        self.maps.append(rec)
        if exp is None:
            for i, _, maps in self.incs:
                if i is inc:
                    maps[name or ('ebsd' if kind == 'E' else 'hrdic')] = m
        return rec

    def last(self):
        return self.incs[-1][0] if self.incs else self.increment()

    def of(self, kind):
        return [r for r in self.maps if r['kind'] == kind and r['exp'] is self.exp]

    def set_points(self, frame, shift):
        p = [(x + shift[0], y + shift[1]) for x, y in PTS]
        frame.set_homog_points(p)
        self.points[id(frame)] = p
        for r in self.maps:
            if r['frame'] is frame:
                r['grains'] = None

    def link(self, d, e):
        if d['frame'] is e['frame'] or (id(e['frame']), id(d['frame'])) in self.links:
            return False
        for r, s in ((e, (0, 0)), (d, (1, 0))):
            if not self.points[id(r['frame'])]:
                self.set_points(r['frame'], s)
        d['map'].link_ebsd_map(e['map'], transform_type='affine')
        d['ebsd'] = e
        d['grains'] = None
        self.links[(id(d['frame']), id(e['frame']))] = True
        return True

    def do(self, op):
        """Returns False when the operation does not apply."""
        E, D = self.of('E'), self.of('D')
        if op == 'inc':
            self.increment(strain=len(self.incs) * .5, k=len(self.incs))
        elif op == 'E':
            self.new('E', self.last())
        elif op == 'En':
            self.new('E', self.last(), name='second')
        elif op == 'D':
            self.new('D', self.last())
        elif op == 'Dshare':
            if not D:
                return False
            self.new('D', self.last(), frame=D[0]['frame'])
        elif op == 'Dnew':
            self.new('D', None)
        elif op == 'Efr':
            f = Frame()
            self.new('E', self.last(), name='framed', frame=f)
        elif op == 'other':
            exp = Experiment()
            r = self.new('E', None, exp=exp)
            self.ctx.check(len(exp.increments) == 1 and exp[0].maps == {'ebsd': r['map']}, f'{self.hist}: increments of the other experiment')
        elif op == 'anon':
            n = len(defdap.anonymous_experiment.increments)
            m = MemDic(np.zeros((2, 3, 3)), experiment=None)
            self.ctx.check(m.experiment is defdap.anonymous_experiment and len(m.experiment.increments) == n + 1
                           and m.experiment[-1] is m.increment and m.increment.maps == {'hrdic': m}, f'{self.hist}: map without an experiment')
            del defdap.anonymous_experiment.increments[n:]
        elif op == 'link':
            if not (E and D) or not self.link(D[-1], E[0]):
                return False
        elif op == 'link2':
            if len(E) < 2 or not D or not self.link(D[0], E[-1]):
                return False
        elif op == 'pts':
            if not D:
                return False
            self.set_points(D[0]['frame'], (2, 1))
        elif op == 'crop':
            if not D or D[0]['crop'] != (0, 0):
                return False
            r = D[0]
            r['map'].set_crop(left=1, top=2, update_homog_points=True)
            r['crop'] = (1, 2)
            p = self.points[id(r['frame'])]
            self.points[id(r['frame'])] = [(x - 1, y - 2) for x, y in p]
            for q in self.maps:
                if q['frame'] is r['frame']:
                    q['grains'] = None
        elif op == 'grains':
            L = [r for r in D if r['ebsd'] is not None]
            if not L:
                return False
            for r in L:
                if r['ebsd']['grains'] is None:
                    r['ebsd']['map'].data.generate('grains', min_grain_size=1)
                    r['ebsd']['grains'] = True
                r['map'].data.generate('grains', algorithm='warp')
                r['grains'] = self.warped(r, r['ebsd'])
        elif op == 'again':
            # an increment can hold a map under a name once, the last one counts
            if not self.incs or 'hrdic' not in self.incs[0][2]:
                return False
            self.new('D', self.incs[0][0])
        return True

    # ------------------------------------------------------------ reference
    def shift(self, d, e):
        """Position in the frame of e minus position in the frame of d."""
        a, b = self.points[id(d['frame'])], self.points[id(e['frame'])]
        return b[0][0] - a[0][0], b[0][1] - a[0][1]

    def warped(self, d, e):
        dx, dy = self.shift(d, e)
        h, w = d['map'].shape
        out = np.zeros((h, w), int)
        for y in range(h):
            for x in range(w):
                if 0 <= x + dx < W and 0 <= y + dy < H:
                    out[y, x] = e['lab'][y + dy, x + dx]
        return out

    def compare(self, full):
        c, h = self.ctx, self.hist
        c.check(len(self.exp.increments) == len(self.incs), lambda: f'{h}: {len(self.exp.increments)} increments, expected {len(self.incs)}')
        names = {'ebsd', 'hrdic', 'second', 'framed', 'no'}
        for i, (inc, md, maps) in enumerate(self.incs):
            c.check(self.exp[i] is inc and inc.experiment is self.exp, lambda: f'{h}: increment {i}')
            c.check(inc.metadata == md, lambda: f'{h}: metadata of increment {i} is {inc.metadata}, expected {md}')
            c.check(list(inc.maps) == list(maps) and all(inc.maps[k] is maps[k] for k in maps), lambda: f'{h}: maps of increment {i} are {list(inc.maps)}, expected {list(maps)}')
        for nm in names:
            got = list(self.exp.iter_over_maps(nm))
            want = [(i, maps[nm]) for i, (_, _, maps) in enumerate(self.incs) if nm in maps]
            c.check(len(got) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got, want)), lambda: f'{h}: iterating over {nm} gives {got}, expected {want}')
        for r in self.maps:
            m = r['map']
            c.check(m.experiment is r['exp'] and m.frame is r['frame'] and (r['inc'] is None or m.increment is r['inc']), lambda: f'{h}: experiment, frame or increment of a map')
        for f in self.frames:
            got = [tuple(float(v) for v in p) for p in f.homog_points]
            c.check(got == [tuple(map(float, p)) for p in self.points[id(f)]], lambda: f'{h}: points of a frame are {got}, expected {self.points[id(f)]}')
        for a, b in itertools.permutations(self.frames, 2):
            linked = (id(a), id(b)) in self.links or (id(b), id(a)) in self.links
            try:
                t = self.exp.get_frame_transform(a, b)
            except ValueError:
                t = None
            c.check((t is not None) == linked, lambda: f'{h}: frames {self.frames.index(a)} and {self.frames.index(b)} linked: {t is not None}, expected {linked}')
            if linked:
                q = np.array([(2., 3.), (-1.5, 4.)])
                s = np.subtract(self.points[id(b)][0], self.points[id(a)][0])
                c.check(np.allclose(t(q), q + s, atol=1e-6), lambda: f'{h}: transform of frame {self.frames.index(a)} to {self.frames.index(b)} gives {t(q)}, expected {q + s}')
        for r in self.maps:
            if r['kind'] == 'D':
                x, y = r['crop']
                w = r['shear'][y:, x:]
                c.check(r['map'].shape == w.shape and np.array_equal(r['map'].data.max_shear, w), lambda: f'{h}: data of an HRDIC map changed')
                if r['grains'] is not None:
                    self.compare_grains(r, w)
                if r['ebsd'] is not None:
                    c.check(r['map'].ebsd_map is r['ebsd']['map'], lambda: f'{h}: linked EBSD map')
                    if full:
                        got = np.asarray(r['map'].warp_to_dic_frame(r['ebsd']['lab'].astype(float), order=0, preserve_range=True))
                        c.check(np.array_equal(got, self.warped(r, r['ebsd'])), lambda: f'{h}: warped data {got.tolist()}, expected {self.warped(r, r["ebsd"]).tolist()}')
                        dx, dy = self.shift(r, r['ebsd'])
                        norm = lambda ls, ax=0, ay=0: sorted(sorted((float(p) - ax, float(q) - ay) for p, q in ln) for ln in ls)   # noqa
                        got = norm(r['map'].data.grain_boundaries.lines)
                        want = norm(edges(r['ebsd']['lab']), dx, dy)
                        c.check(got == want, lambda: f'{h}: boundary lines {got}, expected {want}')
        c.state((h[-1:], [(len(m), sorted(md)) for _, md, m in self.incs], [(r['kind'], r.get('crop'), r.get('grains') is not None) for r in self.maps], len(self.links)))

    def compare_grains(self, r, shear):
        c, h = self.ctx, self.hist
        m = r['map']
        want = r['grains']
        ids = [v for v in np.unique(want) if v > 0]
        c.check(len(m.grains) == len(ids), lambda: f'{h}: {len(m.grains)} grains, expected {len(ids)}')
        gm = np.asarray(m.data.grains)
        for g, v in zip(m.grains, ids):
            pts = [(int(x), int(y)) for x, y in g.data.point]
            c.check(sorted(pts) == sorted((int(x), int(y)) for y, x in np.argwhere(want == v)), lambda: f'{h}: points of grain {g.grain_id}')
            c.check(all(gm[y, x] == g.grain_id + 1 for x, y in pts), lambda: f'{h}: grain map')
            c.check(g.ebsd_grain is r['ebsd']['map'].grains[v - 1], lambda: f'{h}: grain {g.grain_id} is linked to another EBSD grain')
            c.check(np.array_equal(g.data.max_shear, [shear[y, x] for x, y in pts]), lambda: f'{h}: data of grain {g.grain_id} is not that of its map')


def edges(lab):
    out = []
    for y in range(H):
        for x in range(W):
            if x + 1 < W and lab[y, x] != lab[y, x + 1]:
                out.append(((x + .5, y - .5), (x + .5, y + .5)))
            if y + 1 < H and lab[y, x] != lab[y + 1, x]:
                out.append(((x - .5, y + .5), (x + .5, y + .5)))
    return out


STARTS = {'empty': [], 'linked': ['inc', 'E', 'D', 'link'], 'two': ['inc', 'E', 'D', 'link', 'inc', 'Dshare', 'link', 'grains']}


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in STARTS:
        d = (4 if s == 'empty' else 3) + (0 if q else 1)
        for a in OPS:
            for b in OPS:
                out.append(dict(start=s, head=[a, b], depth=d))
    return out


def run(case, ctx):
    k = case['depth'] - len(case['head'])
    for tail in itertools.product(OPS, repeat=k):
        m = Model(ctx, STARTS[case['start']])
        m.hist = [case['start']]
        m.compare(False)
        ok = True
        for n, op in enumerate(case['head'] + list(tail)):
            m.hist.append(op)
            if not m.do(op):
                ok = False
                break
            ctx.step()
            m.compare(n == case['depth'] - 1)
        if ok:
            ctx.trace()
            ctx.eval(tuple(m.hist) if len(m.maps) > 1 else None)
            if ctx.errors:
                return


if __name__ == '__main__':
    check.main(globals())
