"""P25: slip lines of the grain inspector are kept, edited, grouped, measured and reloaded exactly."""
import contextlib
import copy
import io
import itertools
import math
import os
import pathlib
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import matplotlib.pyplot as plt      # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg   # noqa: E402
from matplotlib.backend_bases import KeyEvent, MouseEvent             # noqa: E402
from defdap.hrdic import GrainInspector                        # noqa: E402
from mc.fixtures import ebsd_map, dic_map   # noqa: E402

PROP = 'P25'
LEVEL = 'model_checking'
RULE = ('(gui) every sequence of operations up to the depth (drawing lines with the mouse and saving them, removing, clearing, going '
        'to other and to missing grains, measuring displacement ratios) on three grains, in lockstep with a model, then saved and '
        'loaded into a fresh map; (boxes) every sequence of numbers typed in the text boxes, lines and clicks up to the depth; (group) every sequence of line angles up to a length, then every removal of lines, in lockstep '
        'with a model of the grouping; (rdr) every pair of end points on a grain, for each line length. Non-trivial: at least one line')
ASSUMPTIONS = ['figures are not rendered; mouse events go through the real canvas', 'groups do not wrap around at 180 degrees (as documented by the code)']


def worker_init():
    FigureCanvasAgg.draw = lambda self, *a, **k: None


EUL = [(.3, .5, .2), (1.1, .4, 2.), (2.2, 1.2, .7)]


def maps(kinds=('fcc', 'fcc', 'fcc')):
    gm = np.zeros((12, 24), dtype=int)
    gm[2:10, 2:10] = 1
    gm[2:10, 10:16] = 2
    gm[2:6, 16:21] = 3
    eu = np.zeros((3,) + gm.shape)
    for i, e in enumerate(EUL):
        for k in range(3):
            eu[k][gm == i + 1] = e[k]
    e = ebsd_map(gm.shape, euler=eu, phase_im=np.array([0, 1, 2, 3], dtype=np.uint8)[gm], kinds=kinds)
    e.data.generate('grains', min_grain_size=1)
    e.calc_grain_av_oris()
    e.calc_average_grain_schmid_factors(np.array([1, 0, 0]))
    yy, xx = np.mgrid[0:12, 0:24]
    u = np.array([.013 * xx * yy - .05 * (xx * 3 + yy * 7) % 5 * .1, .021 * xx - .004 * yy ** 2 + ((xx * 5 + yy * 3) % 7) * .06])
    d = dic_map(disp=u)
    d.set_scale(.1)
    for m in (e, d):
        m.frame.set_homog_points([(0, 0), (23, 0), (0, 11), (23, 11)])
    d.link_ebsd_map(e, transform_type='affine')
    d.data.generate('grains', algorithm='warp')
    for g in e:
        assert len(g.slip_traces)
    return e, d


# ---------------------------------------------------------------- model
def r2(x):
    return float('%.2f' % x)


def dev180(a):
    return (a + 90) % 180 - 90


def ref_groups(angles, theo):
    """Line groups: a line joins the group with the closest average, if that is within 10 degrees."""
    groups, ids = [], []
    for a in angles:
        avs = [r2(sum(g) / len(g)) for g in groups]
        if avs and min(abs(v - a) for v in avs) < 10:
            k = min(range(len(avs)), key=lambda i: abs(avs[i] - a))
            groups[k].append(a)
        else:
            k = len(groups)
            groups.append([a])
        ids.append(k)
    out = []
    for k, g in enumerate(groups):
        av = r2(sum(g) / len(g))
        pl = [i for i, t in enumerate(theo) if abs(dev180(av - t)) < 5]
        out.append([k, av, pl, [dev180(av - theo[i]) for i in pl]])
    return ids, out


def theo_of(g):
    return [math.degrees(t) for t in g.ebsd_grain.slip_traces]


def same_lines(ctx, g, want, rdr, what):
    """want: [(points, angle)]; rdr: {group: value}."""
    ids, groups = ref_groups([a for _, a in want], theo_of(g))
    got = g.points_list
    ok = len(got) == len(want)
    ctx.check(ok, lambda: f'{what}: {len(got)} lines, expected {len(want)}')
    if not ok:
        return
    for k, (l, (p, a)) in enumerate(zip(got, want)):
        ctx.check(len(l) == 3 and np.allclose(l[0], p, atol=.0051) and abs(dev180(l[1] - a)) < .0101, lambda: f'{what}: line {k} is {l}, expected {p} {a}')
        ctx.check(l[2] == ids[k], lambda: f'{what}: line {k} in group {l[2]}, expected {ids[k]} (angles {[a for _, a in want]})')
    ctx.check(len(g.groups_list) == len(groups), lambda: f'{what}: groups {g.groups_list}, expected {groups}')
    for k, (x, w) in enumerate(zip(g.groups_list, groups)):
        good = x[0] == w[0] and abs(x[1] - w[1]) < .011 and list(x[2]) == w[2] and len(x[3]) == len(w[3]) and np.allclose(x[3], w[3], atol=.011)
        ctx.check(good, lambda: f'{what}: group {k} is {x}, expected {w}')
        r = rdr.get(k, 0)
        ctx.check(abs(x[4] - r) < 1e-8 * max(1, abs(r)), lambda: f'{what}: displacement ratio of group {k} is {x[4]}, expected {r}')


def ref_line(x0, y0, x1, y1):
    """Pixels along a line, by rounding (only used where no ties can occur)."""
    n = max(abs(x1 - x0), abs(y1 - y0))
    return [(x0 + (x1 - x0) * i / n, y0 + (y1 - y0) * i / n) for i in range(n + 1)] if n else [(x0, y0)]


def ref_rdr(d, g, lines, length):
    """Slope of centred u against centred v on lines across the slip lines."""
    x0, y0 = min(p[0] for p in g.data.point), min(p[1] for p in g.data.point)
    ang = r2(sum(a for _, a in lines) / len(lines))
    k = int(np.round(ang / 45))
    dx, dy = {0: (1, 0), 1: (1, -1), 2: (0, 1), 3: (1, 1), 4: (1, 0)}[k]
    half = range(-((length - 1) // 2), (length - 1) // 2 + 1)
    us, vs = [], []
    D = d.data.displacement
    for p, _ in lines:
        for x, y in ref_line(*[int(round(v)) for v in p]):
            x, y = int(round(x)) + x0, int(round(y)) + y0
            u = [D[0, y + i * dy, x + i * dx] for i in half]
            v = [D[1, y + i * dy, x + i * dx] for i in half]
            us += [a - sum(u) / len(u) for a in u]
            vs += [a - sum(v) / len(v) for a in v]
    us, vs = np.array(us), np.array(vs)
    us, vs = us - us.mean(), vs - vs.mean()
    return float((us * vs).sum() / (vs * vs).sum())


def angle_of(p, corr):
    return (90 - math.degrees(math.atan2(p[3] - p[1], p[2] - p[0])) - corr) % 180


# ---------------------------------------------------------------- events
def mouse(fig, ax, kind, x, y, b=1):
    px, py = ax.transData.transform((x, y))
    fig.canvas.callbacks.process(kind, MouseEvent(kind, fig.canvas, px, py, b))


def drag(insp, p):
    insp.plot.fig.canvas.mouse_grabber = None
    mouse(insp.plot.fig, insp.max_shear_axis, 'button_press_event', p[0], p[1])
    mouse(insp.plot.fig, insp.max_shear_axis, 'button_release_event', p[2], p[3])


def push(insp, label):
    fig = insp.plot.fig
    for a in fig.axes:
        if any(t.get_text() == label for t in a.texts):
            mouse(fig, a, 'button_press_event', .5, .5)
            mouse(fig, a, 'button_release_event', .5, .5)
            return
    raise AssertionError(f'no button {label}')


LINES = {'V': (1, 3, 1, 0), 'v': (1, 0, 1, 3), 'H': (0, 1, 3, 1), 'D': (0, 0, 3, 3), 'd': (3, 2, 0, 0), 'X': (0, 3, 3, 0), 'W': (2, 3, 2, 1)}
OPS = ['V', 'v', 'H', 'D', 'd', 'X', 'again', 'rm0', 'rm-last', 'clear', 'next', 'prev', 'go2', 'go9', 'rdr0', 'stray', 'odd']
GROUP = [.5, 4., 11.7, 19.3, 28.9, 92., 97.5, 103.3, 178.1]


def cases(tier):
    q = tier == 'quick'
    out = []
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            if not effective([OPS[a], OPS[b]]):
                continue
            if OPS[a] not in ('next', 'prev', 'go2', 'go9', 'stray', 'odd', 'again', 'rm0', 'rm-last', 'clear', 'rdr0') or OPS[b] in LINES:
                out.append(dict(kind='gui', head=[a, b], depth=3 if q else 4, corr=[0, 7.5, -20][(a + b) % 3]))
    for k in range(6):
        out.append(dict(kind='long', k=k, corr=[0, 7.5, -20][k % 3]))
    for a in BOX:
        out.append(dict(kind='boxes', first=a, depth=2 if q else 3))
    n = len(GROUP)
    for a in range(n):
        for b in range(n) if not q else (None,):
            out.append(dict(kind='group', head=[a] if b is None else [a, b], length=4 if q else 5, phase=a % 3))
    for length in (3, 5):
        for x0 in range(2, 6):
            out.append(dict(kind='rdr', length=length, x0=x0, full=not q))
    return out


BOX = ['line', 'next', 'prev', 'go0', 'go2', 'leave0', 'leave2', 'rm0', 'rm1', 'leave-rm0', 'click', 'rdr0', 'save']


def box(insp, label):
    return next(b for b in insp.plot.txt_box_store if b.label.get_text() == label)


def type_in(insp, label, text, enter):
    """Click into a text box, type, and press enter or click somewhere else."""
    fig = insp.plot.fig
    b = box(insp, label)
    mouse(fig, b.ax, 'button_press_event', .9, .5)
    mouse(fig, b.ax, 'button_release_event', .9, .5)
    for key in list(text) + (['enter'] if enter else []):
        fig.canvas.callbacks.process('key_press_event', KeyEvent('key_press_event', fig.canvas, key))
    if not enter:
        stray(insp)


def stray(insp):
    mouse(insp.plot.fig, insp.line_info_axis, 'button_press_event', .5, .5)
    mouse(insp.plot.fig, insp.line_info_axis, 'button_release_event', .5, .5)


def run_boxes(ctx, case):
    """Numbers typed in the text boxes act once, on what they are for."""
    e, d = maps()
    tmp = tempfile.mkdtemp(prefix='p25_')
    d.file_name = pathlib.Path(tmp) / 'data'
    go, rm, rdr = 'Go to \ngrain ID:', 'Remove\nID:', 'Run RDR only\non group:'
    try:
        for rest in itertools.product(BOX, repeat=case['depth'] - 1):
            seq = [case['first']] + list(rest)
            for g in d:
                g.points_list, g.groups_list = [], []
            insp = GrainInspector(d, vmax=.1)
            lines, cur, num, ok = {0: [], 1: [], 2: []}, 0, 0, True
            for k in ('V', 'H', 'D'):
                drag(insp, LINES[k])
                push(insp, 'Save\nLine')
                lines[0].append(LINES[k])
            for n, op in enumerate(seq):
                what = f'{seq[:n + 1]} typed'
                if op == 'line':
                    ln = LINES[('v', 'd', 'X', 'W')[num % 4]]
                    num += 1
                    drag(insp, ln)
                    push(insp, 'Save\nLine')
                    lines[cur].append(ln)
                elif op in ('next', 'prev'):
                    if not 0 <= cur + (1, -1)[op == 'prev'] <= 2:
                        ok = False
                        break
                    push(insp, 'Next\nGrain' if op == 'next' else 'Previous\nGrain')
                    cur += (1, -1)[op == 'prev']
                elif op[:2] == 'go' or op in ('leave0', 'leave2'):
                    cur = int(op[-1])
                    type_in(insp, go, op[-1], op[:2] == 'go')
                elif op in ('rm0', 'rm1', 'leave-rm0'):
                    if len(lines[cur]) <= int(op[-1]):
                        ok = False
                        break
                    del lines[cur][int(op[-1])]
                    type_in(insp, rm, op[-1], op[:2] == 'rm')
                elif op == 'click':
                    stray(insp)
                elif op == 'rdr0':
                    if not lines[cur]:
                        ok = False
                        break
                    before = len(plt.get_fignums())
                    type_in(insp, rdr, '0', True)
                    ctx.check(len(plt.get_fignums()) == before + 1, f'{what}: {len(plt.get_fignums()) - before} plots of displacement ratios')
                    for f in plt.get_fignums():
                        if f != insp.plot.fig.number:
                            plt.close(f)
                elif op == 'save':
                    name = f'n{n}.txt'
                    bx = next(b for b in insp.plot.txt_box_store if b.label.get_text() == '')
                    bx.set_val('')
                    type_in(insp, '', name, False)
                    push(insp, 'Save\nFile')
                    path = pathlib.Path(tmp) / name
                    ctx.check(path.is_file() and os.listdir(tmp) == [name], f'{what}: files {os.listdir(tmp)}, expected {name}')
                    for f in os.listdir(tmp):
                        os.remove(os.path.join(tmp, f))
                ctx.check(insp.grain_id == cur and insp.selected_dic_grain is d[cur], lambda: f'{what}: at grain {insp.grain_id}, expected {cur}')
                got = [[tuple(p[0]) for p in g.points_list] for g in d]
                ctx.check(all(len(a) == len(b) and np.allclose(a, b, atol=1e-6) for a, b in zip(got, lines.values())),
                          lambda: f'{what}: lines {got}, expected {lines}')
                ctx.step()
            # nothing happens later
            if ok:
                stray(insp)
                drag(insp, LINES['W'])
                got = [len(g.points_list) for g in d]
                ctx.check(insp.grain_id == cur and got == [len(v) for v in lines.values()], lambda: f'{seq} typed: after another click {got} lines at grain {insp.grain_id}, expected {lines} at {cur}')
                ctx.trace()
                ctx.eval(str(seq))
            plt.close('all')
    finally:
        shutil.rmtree(tmp)


def run_gui(ctx, case):
    e, d = maps()
    tmp = tempfile.mkdtemp(prefix='p25_')
    d.file_name = pathlib.Path(tmp) / 'data'
    try:
        insp = GrainInspector(d, vmax=.1, correction_angle=case['corr'])
        insp.update_filename('lines.txt', insp.plot)
        fresh = [None]
        for rest in itertools.product(range(len(OPS)), repeat=case['depth'] - 2):
            seq = [OPS[i] for i in case['head']] + [OPS[i] for i in rest]
            if not effective(seq):
                continue
            gui_sequence(ctx, case, d, insp, seq, tmp, fresh)
    finally:
        shutil.rmtree(tmp)


def run_long(ctx, case):
    """Many lines on a grain (numbers of two digits), removed and saved again."""
    k = case['k']
    names = list(LINES)
    e, d = maps()
    tmp = tempfile.mkdtemp(prefix='p25_')
    d.file_name = pathlib.Path(tmp) / 'data'
    try:
        insp = GrainInspector(d, vmax=.1, correction_angle=case['corr'])
        insp.update_filename('lines.txt', insp.plot)
        draw = [names[(i * (k + 1) + i // 7) % len(names)] for i in range(26)]
        seq = draw[:14] + ['rdr0', 'rm0', 'rm-last'] + draw[14:] + ['rm0', 'next'] + draw[:11] + ['go2'] + draw[3:9] + ['prev', 'rm-last', 'prev']
        seq += [['clear', 'V'], ['rm0', 'rm0', 'rdr0'], ['again', 'next']][k % 3]
        gui_sequence(ctx, case, d, insp, seq, tmp, [None])
    finally:
        shutil.rmtree(tmp)


def effective(seq):
    """No operation of the sequence is one that can not be done (those are covered by shorter sequences)."""
    n, cur, drawn = {0: 0, 1: 0, 2: 0}, 0, False
    for op in seq:
        if op in LINES or op == 'again':
            if op == 'again' and not drawn:
                return False
            n[cur] += 1
            drawn = True
        elif op in ('rm0', 'rm-last', 'clear', 'rdr0'):
            if not n[cur] or (op == 'rm-last' and n[cur] == 1):
                return False
            if op != 'rdr0':
                n[cur] = 0 if op == 'clear' else n[cur] - 1
                drawn = False
        elif op in ('next', 'prev', 'go2'):
            to = {'next': cur + 1, 'prev': cur - 1, 'go2': 2}[op]
            if to < 0 or (op == 'go2' and cur == 2):
                return False
            if to <= 2:
                cur, drawn = to, False
        elif op == 'odd':
            drawn = True
    return True


def gui_sequence(ctx, case, d, insp, seq, tmp, fresh):
    for g in d:
        g.points_list, g.groups_list = [], []
    insp.goto_grain(0, insp.plot)
    lines = {0: [], 1: [], 2: []}
    rdr = {0: {}, 1: {}, 2: {}}
    cur, drawn = 0, None
    for n, op in enumerate(seq):
        what = f'{seq[:n + 1]} with correction {case["corr"]}'
        if op in LINES:
            drag(insp, LINES[op])
            drawn = LINES[op]
            push(insp, 'Save\nLine')
            lines[cur].append((drawn, angle_of(drawn, case['corr'])))
            rdr[cur] = {}
        elif op == 'again':
            if drawn is None:
                continue
            push(insp, 'Save\nLine')
            lines[cur].append((drawn, angle_of(drawn, case['corr'])))
            rdr[cur] = {}
        elif op in ('rm0', 'rm-last'):
            k = 0 if op == 'rm0' else len(lines[cur]) - 1
            if not lines[cur]:
                continue
            insp.remove_line(str(k), insp.plot)
            del lines[cur][k]
            rdr[cur], drawn = {}, None
        elif op == 'clear':
            push(insp, 'Clear\nAll Lines')
            lines[cur], rdr[cur], drawn = [], {}, None
        elif op in ('next', 'prev', 'go2', 'go9'):
            to = {'next': cur + 1, 'prev': cur - 1, 'go2': 2, 'go9': 9}[op]
            if op == 'prev' and to < 0:
                continue
            try:
                if op[:2] == 'go':
                    insp.goto_grain(str(to), insp.plot)
                else:
                    push(insp, 'Next\nGrain' if op == 'next' else 'Previous\nGrain')
            except IndexError:
                insp.plot.fig.canvas.mouse_grabber = None
                ctx.check(to > 2, f'{what}: grain {to} not found')
            if to <= 2:
                cur, drawn = to, None
        elif op == 'rdr0':
            if not lines[cur]:
                continue
            ids, groups = ref_groups([a for _, a in lines[cur]], theo_of(d[cur]))
            if case['corr']:        # lines across are chosen with the corrected angle
                continue
            insp.run_rdr_group('0', insp.plot)
            for f in plt.get_fignums():
                if f != insp.plot.fig.number:
                    plt.close(f)
            rdr[cur][0] = ref_rdr(d, d[cur], [l for l, k in zip(lines[cur], ids) if k == 0], 3)
        elif op == 'stray':
            # letting go of the mouse over the map, after pressing elsewhere, in an axes that is not the map
            mouse(insp.plot.fig, insp.line_info_axis, 'button_press_event', .5, .5)
            mouse(insp.plot.fig, insp.line_info_axis, 'button_release_event', .5, .5)
            if drawn is None:
                mouse(insp.plot.fig, insp.line_info_axis, 'button_press_event', .5, .5)
                mouse(insp.plot.fig, insp.max_shear_axis, 'button_release_event', 2, 2)
                try:
                    push(insp, 'Save\nLine')
                except IndexError:
                    pass            # there is no line to save
                insp.plot.fig.canvas.mouse_grabber = None
        elif op == 'odd':
            # draw without saving
            drag(insp, LINES['W'])
            drawn = LINES['W']
        ctx.check(insp.grain_id == cur and insp.selected_dic_grain is d[cur] and insp.selected_ebsd_grain is d[cur].ebsd_grain, lambda: f'{what}: at grain {insp.grain_id}, expected {cur}')
        for k in range(3):
            same_lines(ctx, d[k], lines[k], rdr[k], f'{what}: grain {k}')
        txt = '\n'.join(t.get_text() for t in insp.line_info_axis.texts)
        rows = [r.split() for r in txt.split('\n') if r.strip()[:1].isdigit()]
        ctx.check([(int(r[0]), float(r[5]), int(r[6])) for r in rows] == [(k, round_as(l[1]), l[2]) for k, l in enumerate(d[cur].points_list)], lambda: f'{what}: listed lines {rows}, lines of the grain {d[cur].points_list}')
        ctx.step()
    # save, and load into a fresh map
    total = sum(map(len, lines.values()))
    push(insp, 'Save\nFile')
    if fresh[0] is None:
        e2, d2 = maps()
        d2.file_name = d.file_name
        fresh[0] = d2, GrainInspector(d2, vmax=.1)
    d2, i2 = fresh[0]
    for g in d2:
        g.points_list, g.groups_list = [], []
    i2.update_filename('lines.txt', i2.plot)
    i2.goto_grain(cur, i2.plot)
    i2.load_file(None, i2.plot)
    for k in range(3):
        ctx.check(d2[k].points_list == d[k].points_list and d2[k].groups_list == d[k].groups_list, lambda: f'{seq}: loaded {d2[k].points_list} {d2[k].groups_list} for grain {k}, saved {d[k].points_list} {d[k].groups_list}')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        push(i2, 'Run All STA')
    rows = [r.split('\t') for r in out.getvalue().split('\n')[1:] if r]
    want = [(k, g) for k in range(3) for g in d[k].groups_list if d[k].points_list]
    ctx.check(len(rows) == len(want), f'{seq}: {len(rows)} rows of slip trace analysis, expected {len(want)}')
    for r, (k, g) in zip(rows, want):
        eul = np.degrees(d[k].ebsd_grain.ref_ori.euler_angles())
        sf = max(max(s) for s in d[k].ebsd_grain.average_schmid_factors)
        ctx.check(int(r[0]) == k and np.allclose([float(v) for v in r[1:4]], eul, atol=.051) and abs(float(r[4]) - sf) < .00051 and int(r[5]) == g[0]
                  and abs(float(r[6]) - g[1]) < .051 and r[7] == str(g[2]) and abs(float(r[9]) - g[4]) < .0051, lambda: f'{seq}: slip trace row {r}, expected grain {k} group {g}')
    ctx.state((cur, lines))
    ctx.trace()
    ctx.eval(str((seq, case['corr'])) if total else None)


def round_as(a):
    return float('%.1f' % a)


def run_group(ctx, case):
    e, d = maps(kinds=[('fcc', 'fcc', 'fcc'), ('hcp', 'bcc', 'fcc'), ('bcc', 'hcp', 'hcp')][case['phase']])
    insp = GrainInspector(d, vmax=.1)
    m = case['length'] - len(case['head'])
    for k in range(m + 1):
        for rest in itertools.product(range(len(GROUP)), repeat=k):
            angles = [GROUP[i] for i in case['head']] + [GROUP[i] for i in rest]
            g = d[len(angles) % 3]
            g.points_list, g.groups_list = [], []
            lines = []
            for a in angles:
                g.points_list.append([[0., 0., 1., 1.], a, -1])
                lines.append(([0, 0, 1, 1], a))
                insp.group_lines(g)
                ctx.step()
            same_lines(ctx, g, lines, {}, f'{angles}')
            state = copy.deepcopy((g.points_list, g.groups_list))
            for i in range(len(angles)):
                g.points_list, g.groups_list = copy.deepcopy(state)
                del g.points_list[i]
                insp.group_lines(g)
                same_lines(ctx, g, lines[:i] + lines[i + 1:], {}, f'{angles} without line {i}')
                ctx.step()
            ctx.state(angles)
            ctx.trace()
            ctx.eval(str((angles, case['phase'])))


def run_rdr(ctx, case):
    e, d = maps()
    insp = GrainInspector(d, vmax=.1, rdr_line_length=case['length'])
    x0 = case['x0']
    for gi in (0, 1, 2):
        g = d[gi]
        w, h = g.extreme_coords[2] - g.extreme_coords[0], g.extreme_coords[3] - g.extreme_coords[1]
        for y0, x1, y1 in itertools.product(range(0, h + 1), range(0, w + 1), range(0, h + 1)):
            if x0 > w or (x0, y0) == (x1, y1):
                continue
            # lines whose pixels are the same for any way of drawing
            pts = ref_line(x0, y0, x1, y1)
            if any(abs(v % 1 - .5) < 1e-9 for p in pts for v in p):
                continue
            g.points_list, g.groups_list = [], []
            L = [(x0, y0, x1, y1)]
            if (x1 + y1) % 3 == 0:
                L.append((x1, y1, x0, y0) if y0 else (x0, y0 + 1, x1, y1 + 1) if y1 < h else L[0])
            lines = []
            for p in L:
                a = r2(angle_of(p, 0))
                g.points_list.append([[float(v) for v in p], a, -1])
                lines.append((p, a))
            insp.group_lines(g)
            other = (gi + 1) % 3 if (x1 + y0) % 2 else gi
            insp.selected_dic_grain = d[other]
            insp.grain_id = other
            ids, groups = ref_groups([a for _, a in lines], theo_of(g))
            for k in range(len(groups)):
                insp.calc_rdr(g, k, show_plot=False)
                ctx.step()
            rdr = {k: ref_rdr(d, g, [l for l, i in zip(lines, ids) if i == k], case['length']) for k in range(len(groups))}
            same_lines(ctx, g, lines, rdr, f'lines {L} in grain {gi}, length {case["length"]}')
            ctx.eval(str((L, gi, case['length'])))


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
