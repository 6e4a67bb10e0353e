"""P31: reporting progress does not change a result."""
import contextlib
import inspect
import io
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from defdap import utils, base, ebsd, hrdic  # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402

PROP = 'P31'
LEVEL = 'model_checking'
RULE = ('(seq) every sequence of reported progress values and messages up to the length, with every kind of end (nothing, a value, an '
        'error), compared with the same calculation without reporting; (nest) every pair of a calculation that runs another one in '
        'between its reports; (real) every calculation of the maps that reports progress, on small maps, compared with running '
        'it without reporting. Non-trivial: at least one report')
ASSUMPTIONS = ['reported progress is between 0 and 1; a message replaces the final line when no further progress is reported after it']

VALS = [0, 0., .004, .0101, .02, .3, .305, .99, 1, 1., np.float64(.5), np.float32(.75), 'status']
OBJ = object()
ENDS = [('return', None), ('return', 0), ('return', ''), ('return', OBJ), ('return', (1, 2)), ('raise', ValueError('bad')), ('raise', KeyError('key')), ('raise', StopIteration(5)), ('raise', KeyboardInterrupt())]


def cases(tier):
    q = tier == 'quick'
    out = [dict(kind='seq', head=a, n=4 if q else 5) for a in range(-1, len(VALS))]
    out += [dict(kind='nest', head=a) for a in range(len(VALS))]
    out += [dict(kind='real', k=k) for k in range(6 if q else 24)]
    return out


def plain(gen):
    """A calculation without reporting."""
    try:
        while True:
            next(gen)
    except StopIteration as e:
        return e.value


def outcome(fn):
    try:
        return 'return', fn()
    except BaseException as e:      # noqa
        return 'raise', type(e), str(e)


def same(a, b):
    return a[0] == b[0] and (a[1] is b[1] if a[0] == 'return' else a[1:] == b[1:])


def calc_of(vals, end, log):
    def calc(self, a, b=2):
        """Doc."""
        log.append((self, a, b))
        for k, v in enumerate(vals):
            log.append(k)
            yield v
        log.append('end')
        if end[0] == 'raise':
            raise end[1]
        return end[1]
    return calc


def printed(text, name):
    """(starts, percentages, messages, finishes) in a text."""
    parts = re.split(r'[\r\n]', text)
    st = [p for p in parts if p.startswith(f'Starting {name}..')]
    pc = [float(m.group(1)) for p in st for m in [re.search(r'\.\. *(\d+) *%', p)] if m]
    return len(st), pc, parts.count('status'), sum(p.startswith(f'Finished {name}') for p in parts)


def run_seq(ctx, case):
    if case['head'] < 0:
        seqs = [()]
    else:
        seqs = [(case['head'],) + r for k in range(case['n']) for r in itertools.product(range(len(VALS)), repeat=k)]
    for s in seqs:
        vals = [VALS[i] for i in s]
        for end in ENDS:
            log, log2 = [], []
            f = calc_of(vals, end, log)
            rep = utils.report_progress('the sum')(f)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                got = outcome(lambda: rep('self', 1, b=3))
            want = outcome(lambda: plain(calc_of(vals, end, log2)('self', 1, b=3)))
            what = f'reports {vals}, end {end}'
            ctx.check(same(got, want), lambda: f'{what}: {got}, without reporting {want}')
            ctx.check(log == log2, lambda: f'{what}: steps {log}, without reporting {log2}')
            ctx.check(rep.__name__ == 'calc' and rep.__doc__ == 'Doc.', f'{what}: name and documentation')
            n, pc, msg, fin = printed(out.getvalue(), 'the sum')
            ctx.check(n >= 1 and out.getvalue().startswith('\rStarting the sum..'), f'{what}: start is not reported')
            ctx.check(all(a <= b for a, b in zip(pc, pc[1:])), lambda: f'{what}: progress {pc}')
            nums = [float(v) * 100 for v in vals if not isinstance(v, str)]
            ctx.check(all(any(abs(p - v) <= .5001 for v in nums) for p in pc), lambda: f'{what}: progress {pc} was not reported by the calculation')
            hi = max(nums, default=0)
            ctx.check(max(pc, default=0) >= hi - 1.51, lambda: f'{what}: progress only up to {pc}')
            ctx.check(msg == sum(isinstance(v, str) for v in vals), lambda: f'{what}: {msg} messages')
            done = end[0] == 'return'
            if not done:
                ctx.check(fin == 0, f'{what}: reported as finished')
            elif 'status' not in vals:
                ctx.check(fin == 1, f'{what}: reported as finished {fin} times')
            else:
                ctx.check(fin <= 1, f'{what}: reported as finished {fin} times')
                if vals[-1] == 'status':
                    ctx.check(fin == 0, f'{what}: message is followed by a final line')
            ctx.step()
            ctx.eval(what if vals else None)
        ctx.state(s)
        ctx.trace()


def run_nest(ctx, case):
    vals = [VALS[case['head']], .7]
    for inner in itertools.product(VALS, repeat=2):
        for end in ENDS:
            def outer_plain(rep):
                def fn():
                    yield vals[0]
                    try:
                        r = rep()
                    except ValueError as e:
                        r = str(e)
                    yield vals[1]
                    return r, 7
                return fn
            innerf = calc_of(inner, end, [])
            reported = utils.report_progress('outer')(outer_plain(lambda: utils.report_progress('inner')(innerf)(1, 2)))
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                got = outcome(reported)
                again = outcome(reported)
            want = outcome(lambda: plain(outer_plain(lambda: plain(innerf(1, 2)))()))
            ok = got[0] == want[0] and (got[1] == want[1] if got[0] == 'return' else got[1:] == want[1:])
            ctx.check(ok, lambda: f'outer {vals} inner {inner} end {end}: {got}, without reporting {want}')
            ctx.check(again[0] == got[0] and again[1] == got[1], lambda: f'outer {vals} inner {inner} end {end}: second time {again}, first {got}')
            ctx.step()
            ctx.eval(str((vals, inner, end)))


# ---------------------------------------------------------------- the calculations of the maps
def emap(k, grains=True):
    h, w = [(3, 4), (4, 4), (2, 5), (5, 3)][k % 4]
    lab = (np.arange(h)[:, None] // 2 * 2 + np.arange(w) // 2 + k) % 3
    eu = np.zeros((3, h, w))
    for i, v in enumerate((.5, .2, .6)):
        eu[i] = lab * v + .001 * np.arange(h * w).reshape(h, w) * (i == 0)
    ph = np.where(lab == 2, 2, 1).astype(np.uint8)
    if k % 3 == 2:
        ph[0, 0] = 0
    m = ebsd_map((h, w), euler=eu, phase_im=ph, kinds=[('fcc', 'hcp'), ('hcp', 'bcc')][k % 2])
    if grains:
        m.data.generate('grains', min_grain_size=1)
    return m


def dmap(k):
    e = emap(k)
    h, w = e.shape
    yy, xx = np.mgrid[0:h, 0:w]
    d = dic_map(disp=np.array([.02 * xx * yy, .03 * yy ** 2 - .01 * xx]))
    for m in (e, d):
        m.frame.set_homog_points([(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)])
    d.link_ebsd_map(e, transform_type='affine')
    return d


def prepared(k, what):
    m = emap(k)
    if 'mean' in what:
        m.calc_grain_av_oris()
    return m


def plainify(o, depth=0):
    """Comparable form of any result."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return [plainify(v, depth) for v in o.ravel()]
        return o.tolist()
    if isinstance(o, (list, tuple)):
        return [plainify(v, depth) for v in o]
    if hasattr(o, 'quat_coef'):
        return np.array(o.quat_coef).tolist()
    if hasattr(o, 'image') and hasattr(o, 'lines'):
        return [np.array(o.image).tolist(), sorted(map(str, o.lines))]
    if hasattr(o, 'grain_id'):
        if depth:
            return ('grain', o.grain_id)
        return [o.grain_id, [tuple(map(int, p)) for p in o.data.point]] + [plainify(getattr(o, n, None), 1) for n in ('ref_ori', 'av_mis_ori', 'mis_ori_list', 'mis_ori_axis_list', 'average_schmid_factors', 'slip_trace_angles', 'rdr')]
    if hasattr(o, 'edges') and hasattr(o, 'nodes'):
        return sorted(sorted((a.grain_id, b.grain_id)) for a, b in o.edges)
    if isinstance(o, (np.floating, np.integer)):
        return o.item()
    return o


def snapshot(m):
    out = {}
    for n in ('euler_angle', 'phase', 'band_contrast', 'orientation', 'grains', 'displacement', 'e'):
        if n in m.data:
            try:
                out[n] = plainify(m.data[n])
            except Exception:       # noqa: can not be calculated yet
                pass
    for n in ('neighbour_network', 'mis_ori', 'mis_ori_axis'):
        out[n] = plainify(getattr(m, n, None), 1)
    try:
        out['list'] = [plainify(g) for g in m.grains]
    except Exception:               # noqa: no grains
        pass
    return out


CALLS = [
    ('ebsd', 'rotate_data', {}, ''), ('ebsd', 'calc_kam', {}, ''), ('ebsd', 'calc_nye', {}, ''), ('ebsd', 'calc_quat_array', {}, ''),
    ('ebsd', 'find_boundaries', dict(misori_tol=10), ''), ('ebsd', 'find_grains', dict(min_grain_size=1), ''), ('ebsd', 'find_grains', dict(min_grain_size=3), ''),
    ('ebsd', 'build_neighbour_network', {}, ''), ('ebsd', 'calc_grain_av_oris', {}, ''), ('ebsd', 'calc_grain_mis_ori', dict(calc_axis=True), 'mean'),
    ('ebsd', 'calc_grain_mis_ori', {}, 'mean'), ('ebsd', 'calc_average_grain_schmid_factors', dict(load_vector=np.array([0, 0, 1])), 'mean'),
    ('dic', 'find_grains', dict(algorithm='warp'), ''), ('dic', 'find_grains', dict(algorithm='floodfill', min_grain_size=1), ''), ('dic', 'find_grains', dict(algorithm='nothing'), ''),
    ('ebsd', 'find_grains', dict(min_grain_size='x'), ''), ('ebsd', 'calc_average_grain_schmid_factors', dict(load_vector=np.array([1, 1, 0])), ''),
]


def run_real(ctx, case):
    k = case['k']
    for kind, name, kw, prep in CALLS:
        make = (lambda: prepared(k, prep)) if kind == 'ebsd' else (lambda: dmap(k))
        m, r = make(), make()
        fn = getattr(type(m), name, None)
        inner = getattr(fn, '__wrapped__', None)
        what = f'map {k}: {kind} {name} {({a: str(b) for a, b in kw.items()})}'
        if fn is None or inner is None or not inspect.isgeneratorfunction(inner):
            ctx.note('calculations that do not report')
            continue
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            got = outcome(lambda: getattr(m, name)(**kw))
            want = outcome(lambda: plain(inner(r, **kw)))
        a = plainify(got[1]) if got[0] == 'return' else got
        b = plainify(want[1]) if want[0] == 'return' else want
        ctx.check(got[0] == want[0] and repr(a) == repr(b), lambda: f'{what}: result {repr(a)[:300]}, without reporting {repr(b)[:300]}')
        ctx.check(repr(snapshot(m)) == repr(snapshot(r)), f'{what}: map differs from the one calculated without reporting')
        # progress of every calculation rises
        seen = {}
        for p in re.split(r'[\r\n]', out.getvalue()):
            g = re.match(r'Starting (.*)\.\. (\d+) %', p)
            if g:
                seen.setdefault(g.group(1), []).append(int(g.group(2)))
        for n, pc in seen.items():
            ctx.check(pc == sorted(pc) and pc[-1] <= 100, lambda: f'{what}: progress of {n}: {pc}')
        if got[0] == 'return':
            ctx.check('Finished' in out.getvalue(), f'{what}: not reported as finished')
        ctx.step()
        ctx.eval(what)


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
