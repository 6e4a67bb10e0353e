"""P19: saving an EBSD map and loading it again."""
import itertools
import math
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from defdap import ebsd              # noqa: E402
from defdap.crystal import Phase     # noqa: E402
from defdap.experiment import Experiment  # noqa: E402
from defdap.quat import Quat         # noqa: E402
from mc.fixtures import MemEbsd      # noqa: E402

PROP = 'P19'
LEVEL = 'exploration'
RULE = ('(content) every combination of shape, step size, list of phases, phase pattern, orientation pattern and quality pattern: '
        'the file saved is loaded and compared item by item; (history) every sequence of save, load, rotate, filter and '
        'edit operations over two files up to the depth, against a model of the files. Non-trivial: the map has more than one pixel')
ASSUMPTIONS = ['lengths and angles are kept to 0.001 (degree), the step size to 0.0001 as in the format',
               'the map has a band contrast image of 8 bit values; phase names hold no tab or line break']
D = math.pi / 180
A90 = (90 * D,) * 3
PH = [lambda: Phase('Ni', 11, 225, (3.517, 3.517, 3.517) + A90),
      lambda: Phase('Ti-Hex (alpha)', 9, 194, (2.951, 2.951, 4.684, 90 * D, 90 * D, 120 * D)),
      lambda: Phase('Fe; bcc Phases', 11, 229, (2.866, 2.866, 2.866) + A90),
      lambda: Phase('Si XCells', 11, 227, (5.4309, 5.4309, 5.4309) + A90),
      lambda: Phase('No group', 11, None, (10.125, 10.125, 10.125) + A90)]
LISTS = [[0], [1], [3], [4], [0, 1], [1, 2], [2, 1, 0], [0, 0], [4, 3, 2, 1, 0]]
SHAPES = [(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 7), (2, 300), (300, 2)]
STEPS = [1.0, 0.1, 0.0625, 12.5, 0.0001]
EUL = oracle.bunge_grid() + [(.3, .8, 1.1), (4, 2.2, 5), (2 * math.pi - 1e-6, math.pi - 1e-6, 2 * math.pi - 1e-6), (1, 1e-5, 2), (6.2, 3.1, 6.2)]


def cases(tier):
    out = []
    for s in range(len(SHAPES)):
        for l in range(len(LISTS)) if s < 6 else (2, 4):
            out.append(dict(kind='content', shape=s, phases=l, tier=tier))
    depth = 4 if tier == 'quick' else 5
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            out.append(dict(kind='history', head=[a, b], depth=depth))
    return out


def make(shape, plist, step, k):
    h, w = shape
    n = h * w
    e = np.array([[[EUL[(13 * k + 5 * (y * w + x) * (k % 3 + 1)) % len(EUL)][i] for x in range(w)] for y in range(h)] for i in range(3)])
    ph = ((np.arange(n) * (1 + k % 3) + k) % (len(plist) + 1)).astype(np.uint8).reshape(shape)
    bc = ((np.arange(n) * 37 + 101 * k) % 256).astype(np.uint8).reshape(shape)
    m = MemEbsd(e, ph, [PH[i]() for i in plist], step_size=step, bc=bc)
    how = k % 4
    if how == 1:
        m.data.orientation          # calculated before saving
    elif how == 2:
        m.rotate_data()
    elif how == 3:
        ori = m.data.orientation.copy()
        for i, idx in enumerate(np.ndindex(shape)):
            if i % 2:
                ori[idx] = Quat(-ori[idx].quat_coef, allow_southern=True)
        m.data.orientation = ori
    return m


def snap(m):
    return dict(shape=tuple(m.shape), step=m.step_size, phase=np.array(m.data.phase), bc=np.array(m.data.band_contrast),
                ori=np.array([q.quat_coef for q in m.data.orientation.flat]),
                phases=[(p.name, p.laue_group, p.spaceGroup or 0, tuple(p.lattice_params)) for p in m.phases])


def same(ctx, a, b, what):
    """b was loaded from the file a was saved to."""
    for k in ('shape',):
        ctx.check(a[k] == b[k], lambda: f'{what}: {k} {b[k]}, expected {a[k]}')
    ctx.check(abs(a['step'] - b['step']) <= .5001e-4, lambda: f'{what}: step size {b["step"]}, expected {a["step"]}')
    ctx.check(np.array_equal(a['phase'], b['phase']), lambda: f'{what}: phases {b["phase"]}, expected {a["phase"]}')
    ctx.check(np.array_equal(a['bc'], b['bc']), lambda: f'{what}: band contrast {b["bc"]}, expected {a["bc"]}')
    off = 2 * np.minimum(np.linalg.norm(a['ori'] - b['ori'], axis=1), np.linalg.norm(a['ori'] + b['ori'], axis=1)) / D
    # three angles, each off by half a thousandth degree, in single precision
    ctx.check(off.max() < .002, lambda: f'{what}: orientation off by {off.max()} degrees at pixel {off.argmax()}')
    ctx.check(len(a['phases']) == len(b['phases']), f'{what}: number of phases')
    for p, q in zip(a['phases'], b['phases']):
        ctx.check(p[:3] == q[:3], lambda: f'{what}: phase {q[:3]}, expected {p[:3]}')
        ctx.check(np.allclose(p[3], q[3], rtol=0, atol=.501e-3) and np.allclose(p[3][3:], q[3][3:], rtol=0, atol=1e-5), lambda: f'{what}: lattice {q[3]}, expected {p[3]}')


def run_content(ctx, case):
    shape, plist = SHAPES[case['shape']], LISTS[case['phases']]
    tmp = tempfile.mkdtemp(dir=env.SCRATCH)
    try:
        for s, step in enumerate(STEPS):
            for k in range(8 if case['tier'] == 'quick' else 40):
                m = make(shape, plist, step, k)
                a = snap(m)
                name = f'map {s}.{k}'
                how = (s + k) % 4
                if how == 0:
                    m.save(os.path.join(tmp, name))
                elif how == 1:
                    m.save(name, file_dir=tmp)
                elif how == 2:
                    m.save(name, data_type='OxfordText', file_dir=tmp)
                else:
                    m.save(file_dir=tmp, file_name=name)
                b = snap(m)
                ctx.check(all(np.array_equal(a[q], b[q]) for q in a if q != 'phases'), f'{case} {k}: saving changed the map')
                path = os.path.join(tmp, name + '.ctf')
                ctx.check(os.listdir(tmp).count(name + '.ctf') == 1, f'{case}: file {name}.ctf was not written')
                m2 = ebsd.Map(path, experiment=Experiment(), **({'data_type': ('OxfordText', 'oxfordtext')[s % 2]} if k % 2 else {}))
                same(ctx, a, snap(m2), f'{case} step {step} pattern {k}')
                with open(path, 'rb') as f:
                    before = f.read()
                other = make((2, 2), [0], 1., k + 1)
                ctx.raises(FileExistsError, lambda: (other if k % 2 else m).save(name, file_dir=tmp), f'{case}: save to an existing file')
                with open(path, 'rb') as f:
                    ctx.check(f.read() == before, f'{case}: refused save changed the file')
                # a second generation is the same again
                m2.save('again', file_dir=tmp)
                same(ctx, snap(m2), snap(ebsd.Map(os.path.join(tmp, 'again.ctf'), experiment=Experiment())), f'{case} second generation')
                os.remove(os.path.join(tmp, 'again.ctf'))
                ctx.step(3)
                ctx.eval(f'{case} {step} {k}' if shape != (1, 1) else None)
        m = make(shape, plist, 1., 0)
        n = sorted(os.listdir(tmp))
        ctx.raises(ValueError, lambda: m.save('x', data_type='Unknown', file_dir=tmp), f'{case}: unknown format')
        # foreign content is not overwritten either
        for foreign in ('foreign', ''):
            with open(os.path.join(tmp, 'f.ctf'), 'w') as f:
                f.write(foreign)
            ctx.raises(FileExistsError, lambda: m.save('f', file_dir=tmp), f'{case}: save to an existing foreign file')
            with open(os.path.join(tmp, 'f.ctf')) as f:
                ctx.check(f.read() == foreign, f'{case}: foreign file changed')
        os.remove(os.path.join(tmp, 'f.ctf'))
        os.mkdir(os.path.join(tmp, 'd.ctf'))
        ctx.raises(FileExistsError, lambda: m.save('d', file_dir=tmp), f'{case}: save over a folder')
        os.rmdir(os.path.join(tmp, 'd.ctf'))
        ctx.check(sorted(os.listdir(tmp)) == n, f'{case}: refused saves left files behind')
    finally:
        shutil.rmtree(tmp)


OPS = ('save 0 A', 'save 0 B', 'save 1 A', 'load 0 A', 'load 1 B', 'rotate 0', 'edit 0', 'filter 0', 'delete A')


def run_history(ctx, case):
    for rest in itertools.product(range(len(OPS)), repeat=case['depth'] - 2):
        seq = case['head'] + list(rest)
        if not any(OPS[i].startswith('save') for i in seq):
            continue
        if OPS[seq[-1]].split()[0] not in ('save', 'load'):
            continue
        tmp = tempfile.mkdtemp(dir=env.SCRATCH)
        try:
            maps = [make((2, 3), [0, 1], .5, 4), make((3, 1), [2], 2., 5)]
            files = {}
            raw = {}
            for i in seq:
                op = OPS[i].split()
                m = maps[int(op[1])] if op[0] != 'delete' else None
                if op[0] == 'save':
                    if op[2] in files:
                        ctx.raises(FileExistsError, lambda: m.save(op[2], file_dir=tmp), f'{[OPS[j] for j in seq]}: second save')
                    else:
                        files[op[2]] = snap(m)
                        m.save(op[2], file_dir=tmp)
                        with open(os.path.join(tmp, op[2] + '.ctf'), 'rb') as f:
                            raw[op[2]] = f.read()
                elif op[0] == 'load':
                    path = os.path.join(tmp, op[2] + '.ctf')
                    if op[2] in files:
                        maps[int(op[1])] = ebsd.Map(path, experiment=Experiment())
                        same(ctx, files[op[2]], snap(maps[int(op[1])]), [OPS[j] for j in seq])
                    else:
                        ctx.raises(FileNotFoundError, lambda: ebsd.Map(path, experiment=Experiment()), f'{[OPS[j] for j in seq]}: missing file')
                elif op[0] == 'rotate':
                    m.rotate_data()
                elif op[0] == 'filter':
                    m.filter_data()
                elif op[0] == 'edit':
                    m.data.phase[0, 0] = 1 - m.data.phase[0, 0] % 2
                    bc = np.array(m.data.band_contrast)
                    bc[-1, 0] += 1
                    m.data.band_contrast = bc
                elif op[0] == 'delete' and op[1] in files:
                    os.remove(os.path.join(tmp, op[1] + '.ctf'))
                    del files[op[1]], raw[op[1]]
                ctx.step()
                got = {f[:-4]: open(os.path.join(tmp, f), 'rb').read() for f in os.listdir(tmp)}
                ctx.check(got == raw, lambda: f'{[OPS[j] for j in seq]}: files {sorted(got)} or their content, expected {sorted(raw)}')
                ctx.state((sorted(files), [snap(x)['phase'].tolist() for x in maps], [raw[f] for f in sorted(raw)]))
            ctx.trace()
            ctx.eval(str(seq))
        finally:
            shutil.rmtree(tmp)


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
