"""P20: loading EBSD files of every format and layout."""
import itertools
import math
import os
import pathlib
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
from defdap import ebsd              # noqa: E402
from defdap.crystal import Phase     # noqa: E402
from defdap.experiment import Experiment  # noqa: E402
from defdap.file_readers import EBSDDataLoader   # noqa: E402

PROP = 'P20'
LEVEL = 'exploration'
RULE = ('every permutation of the columns (text) or fields (binary) the map is made from, with the other columns and unknown or '
        'EDX fields at every place; every small shape with every list of phases, every order of the header and every way of '
        'giving the name; EDAX files over shapes, symmetries and angles; dictionaries; every file whose number of pixels or phases '
        'is off by up to two, and every missing file, field and key. Non-trivial: more than one pixel')
ASSUMPTIONS = ['EDAX files hold one phase (the numbering of several differs between sources)',
               'unknown fields of binary files are four bytes wide, as the loader states']
D = math.pi / 180
PHASES = [('Ni-superalloy', 11, 225, (3.57, 3.57, 3.57, 90, 90, 90)), ('Ti-Hex (a)', 9, 194, (2.95, 2.95, 4.684, 90, 90, 120)),
          ('Fe bcc', 11, 229, (2.866, 2.866, 2.866, 90, 90, 90)), ('Other', 11, 0, (5.4, 5.41, 5.42, 89.5, 90.25, 91))]
LISTS = [[0], [1, 0], [3, 2, 1, 0], [2, 2]]
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 5)]
WIDE = [(2, 300), (300, 2)]
KEEP = ['Phase', 'Euler1', 'Euler2', 'Euler3', 'BC', 'BS', 'MAD']
REST = ['X', 'Y', 'Bands', 'Error']
FID = {'Euler1': 3, 'Euler2': 4, 'Euler3': 5, 'MAD': 6, 'BC': 7, 'BS': 8}
EXTRA = [(10, 'u1'), (11, 'u1'), (12, 'f4'), (999, 'f4'), (101, 'f4'), (102, 'f4')]


def cases(tier):
    out = []
    for a in range(7):
        for b in range(7):
            if a != b:
                out.append(dict(kind='ctf', head=[a, b], tier=tier))
    for a in range(6):
        for b in range(6):
            if a != b:
                out.append(dict(kind='crc', head=[a, b], tier=tier))
    for s in range(len(SHAPES)):
        for l in range(len(LISTS)):
            out.append(dict(kind='shapes', shape=s, phases=l))
        out.append(dict(kind='ang', shape=s))
        out.append(dict(kind='dict', shape=s))
        out.append(dict(kind='refuse', shape=s))
    for s in range(len(WIDE)):
        for kind in ('wide', 'ang', 'dict'):
            out.append(dict(kind=kind, shape=len(SHAPES) + s))
    out += [dict(kind='edx', n=n) for n in range(4 if tier == 'quick' else 5)]
    return out


def content(shape, nph, k=0):
    """Distinct value for every pixel and column."""
    n = shape[0] * shape[1]
    i = np.arange(n)
    return dict(Phase=((i * (1 + k % 2) + k) % (nph + 1)).astype('u1'), Euler1=(7.5 + 13.25 * i) % 360, Euler2=(3.125 + 11.5 * i) % 180,
                Euler3=(355.75 - 17.5 * i) % 360, BC=((i * 37 + 200) % 256).astype('u1'), BS=((i * 53 + 90) % 256).astype('u1'),
                MAD=(.125 + i * .0625) % 2, X=i % shape[1], Y=i // shape[1], Bands=(i % 12).astype('u1'), Error=(i % 7).astype('u1'))


def write_ctf(path, shape, plist, cols, order, step='0.1250', acq=(10.5, 20.25, 30.0), head=0, rows=None, nph=None, dims=None, eol='\n'):
    lines = ['Channel Text File', f'Prj\t{("", "XCells YCells Phases AcqE1.cpr", "XStep 5")[head % 3]}', 'Author\t[Unknown]', 'JobMode\tGrid']
    h, w = dims or shape
    body = [f'XCells\t{w}', f'YCells\t{h}', f'XStep\t{step}', f'YStep\t{step}']
    if acq is not None:
        body += [f'AcqE{i + 1}\t{a}' for i, a in enumerate(acq)]
    k = head % len(body)
    lines += body[k:] + body[:k]
    lines.append('Euler angles refer to Sample Coordinate system (CS0)!\tMag\t100.0\tCoverage\t100\tDevice\t0\tKV\t20.0')
    lines.append(f'Phases\t{len(plist) if nph is None else nph}')
    for p in plist:
        nm, lg, sg, lat = PHASES[p]
        lines.append('{};{};{}\t{};{};{}'.format(*lat) + f'\t{nm}\t{lg}\t{sg}\t\t\tcomment')
    lines.append('\t'.join(order))
    n = len(cols['Phase'])
    for i in range(n) if rows is None else rows:
        lines.append('\t'.join(f'{cols[c][i]}' for c in order))
    with open(path, 'w', newline='') as f:
        f.write(eol.join(lines) + eol)


def write_crc(path, shape, plist, cols, order, step='0.1250', acq=(10.5, 20.25, 30.0), head=0, rows=None, nph=None, dims=None, ext=True, skip=(), windows=('Ni', 'Al K')):
    """order: names of FID or (field number, type) pairs."""
    h, w = dims or shape
    groups = [['[General]', 'Version=5.0', 'Description=a=b', 'Notes=', ''], ['[Job]', 'kV=20', f'GridDistX={step}', f'GridDistY={step}', '; a comment', f'xCells={w}', f'yCells={h}'],
              ['[Acquisition Surface]'] + [f'Euler{i + 1}={a}' for i, a in enumerate(acq)],
              ['[Fields]', f'Count={len(order)}'] + [f'Field{i + 1}={FID[c] if isinstance(c, str) else c[0]}' for i, c in enumerate(order)],
              ['[Phases]', f'Count={len(plist) if nph is None else nph}']]
    for i, p in enumerate(plist):
        nm, lg, sg, lat = PHASES[p]
        groups.append([f'[Phase{i + 1}]', f'StructureName={nm}', 'Reference=ref'] + [f'{k}={v}' for k, v in zip(('a', 'b', 'c', 'alpha', 'beta', 'gamma'), lat)]
                      + [f'LaueGroup={lg}'] + ([f'SpaceGroup={sg}'] if sg else []))
    if windows != ('Ni', 'Al K') or any(not isinstance(c, str) and c[0] > 100 and c[0] < 200 for c in order):
        groups.append(['[EDX Windows]', f'Count={len(windows)}'] + [f'Window{i + 1}={w}' for i, w in enumerate(windows)])
    k = head % len(groups)
    groups = groups[k:] + groups[:k]
    with open(str(path) + '.cpr', 'w') as f:
        # comments and empty lines before the first group
        f.write(('', '; made by a check\n\n', '\n')[head % 3])
        f.write('\n'.join('\n'.join(g) for g in groups if g[0] not in skip) + '\n')
    dt = [('Phase', 'u1')] + [(c, 'u1' if c in ('BC', 'BS') else '<f4') if isinstance(c, str) else (f'x{i}', c[1]) for i, c in enumerate(order)]
    n = len(cols['Phase'])
    a = np.zeros(n, dtype=dt)
    for i, (nm, _) in enumerate(dt):
        if nm in cols:
            a[nm] = cols[nm] * (D if nm.startswith('Euler') else 1)
        else:
            a[nm] = (np.arange(n) * (i + 3) + i) % 200
    if rows is not None:
        a = a[list(rows)]
    if ext:
        a.tofile(str(path) + '.crc')
    return a


def verify(ctx, m, shape, plist, cols, what, step=.125, extra=True):
    ctx.check(tuple(m.shape) == shape and m.x_dim == shape[1] and m.y_dim == shape[0], lambda: f'{what}: shape {m.shape}, expected {shape}')
    ctx.check(abs(m.step_size - step) < 1e-9 and m.scale == m.step_size, lambda: f'{what}: step size {m.step_size}')
    for k, c in (('phase', 'Phase'), ('band_contrast', 'BC')) + ((('band_slope', 'BS'), ('mean_angular_deviation', 'MAD')) if extra else ()):
        v = np.array(m.data[k])
        ctx.check(v.shape == shape and np.allclose(v, np.asarray(cols[c], float).reshape(shape), atol=1e-6), lambda: f'{what}: {k} is {v}, expected {np.asarray(cols[c]).reshape(shape)}')
    e = np.array(m.data.euler_angle)
    ctx.check(e.shape == (3,) + shape, lambda: f'{what}: shape of the angles {e.shape}')
    for i in range(3):
        w = np.asarray(cols[f'Euler{i + 1}'], float).reshape(shape) * D
        ctx.check(np.allclose(e[i], w, atol=1e-6), lambda: f'{what}: angle {i} is {e[i]}, expected {w}')
    phases(ctx, m.phases, plist, what)


def phases(ctx, got, plist, what):
    ctx.check(len(got) == len(plist), lambda: f'{what}: {len(got)} phases, expected {len(plist)}')
    for p, i in zip(got, plist):
        nm, lg, sg, lat = PHASES[i]
        ctx.check((p.name, p.laue_group, p.spaceGroup or 0) == (nm, lg, sg), lambda: f'{what}: phase {p.name, p.laue_group, p.spaceGroup}, expected {nm, lg, sg}')
        ctx.check(np.allclose(p.lattice_params, [round(v, 3) * (D if j > 2 else 1) for j, v in enumerate(lat)]), lambda: f'{what}: lattice {p.lattice_params}')
        ctx.check(p.crystal_structure.name == {11: 'cubic', 9: 'hexagonal'}[lg], f'{what}: crystal structure')


def load(path, **kw):
    return ebsd.Map(path, experiment=Experiment(), **kw)


def acq_check(ctx, path, dtype, acq, what):
    p = pathlib.Path(path)
    ld = EBSDDataLoader.get_loader(dtype, p)
    ld.load(p)
    R = oracle.quat_matrix(ld.loaded_metadata['acquisition_rotation'].quat_coef)
    ctx.check(np.allclose(R, oracle.bunge([a * D for a in acq]), atol=1e-6), lambda: f'{what}: acquisition rotation {ld.loaded_metadata["acquisition_rotation"]}')


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=env.SCRATCH)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def run_ctf(ctx, case):
    head = [KEEP[i] for i in case['head']]
    shape, plist = (2, 3), [1, 0]
    cols = content(shape, 2)
    with Tmp() as d:
        path = os.path.join(d, 'm.ctf')
        for n, perm in enumerate(itertools.permutations([k for k in KEEP if k not in head])):
            base = head + list(perm)
            for j in range(2 if case['tier'] == 'quick' else 12):
                order = list(base)
                for r, c in enumerate(REST):
                    if (n + j) % 5 != r:    # one of the others is missing in most files
                        order.insert((n * 3 + r * 4 + j * 5 + 7 * r * j) % (len(order) + 1), c)
                write_ctf(path, shape, plist, cols, order, head=n)
                m = load(path)
                verify(ctx, m, shape, plist, cols, f'columns {order}')
                ctx.step()
                ctx.eval(str(order))


def run_crc(ctx, case):
    names = list(FID)
    head = [names[i] for i in case['head']]
    shape, plist = (2, 3), [1, 0]
    cols = content(shape, 2)
    with Tmp() as d:
        path = os.path.join(d, 'm')
        for n, perm in enumerate(itertools.permutations([k for k in names if k not in head])):
            base = head + list(perm)
            for j in range(len(EXTRA)):
                for at in range(7) if case['tier'] != 'quick' else ((n + j) % 7, (n + 3 * j + 3) % 7):
                    order = list(base)
                    order.insert(at, EXTRA[j])
                    if EXTRA[j][0] > 100 and EXTRA[j][0] < 200:
                        order.insert((at + 3) % 8, EXTRA[4 + (j + 1) % 2])
                    elif n % 2:
                        order.insert((at + 5) % 8, EXTRA[(j + 1) % 4])
                    a = write_crc(path, shape, plist, cols, order, head=n + j)
                    m = load(path + ('', '.cpr', '.crc')[n % 3])
                    what = f'fields {order}'
                    verify(ctx, m, shape, plist, cols, what)
                    for i, c in enumerate(order):
                        if not isinstance(c, str) and c[0] in (101, 102):
                            k = f"EDX {('Ni', 'Al K')[c[0] - 101]}"
                            ctx.check(k in m.data and np.array_equal(m.data[k], a[f'x{i}'].reshape(shape)), f'{what}: data {k}')
                    if not any(not isinstance(c, str) and 100 < c[0] < 200 for c in order):
                        ctx.check(not any(k.startswith('EDX') for k in m.data), f'{what}: EDX data without windows')
                    ctx.step()
                    ctx.eval(what)


def run_edx(ctx, case):
    names, n = list(FID), case['n']
    win = ('Fe', 'Al K', 'O', 'C K')[:n]
    shape, plist = (2, 3), [1, 0]
    cols = content(shape, 2)
    with Tmp() as d:
        path = os.path.join(d, 'm')
        for perm in itertools.permutations(range(n)):
            for at in itertools.product(range(0, 7, 1 if n < 3 else 3), repeat=n):
                order = list(names)
                for p, i in zip(at, perm):
                    order.insert(p, (101 + i, 'f4'))
                a = write_crc(path, shape, plist, cols, order, head=sum(at), windows=win)
                m = load(path)
                what = f'EDX windows {win}, fields {order}'
                verify(ctx, m, shape, plist, cols, what)
                for i, c in enumerate(order):
                    if not isinstance(c, str):
                        k = f'EDX {win[c[0] - 101]}'
                        ctx.check(k in m.data and np.array_equal(m.data[k], a[f'x{i}'].reshape(shape)), lambda: f'{what}: data {k}')
                ctx.check(sorted(k for k in m.data if k.startswith('EDX')) == sorted(f'EDX {w}' for w in win), lambda: f'{what}: data {list(m.data)}')
                ctx.step()
                ctx.eval(what)


def run_shapes(ctx, case):
    shape, plist = SHAPES[case['shape']], LISTS[case['phases']]
    order = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']
    for k in range(2):
        cols = content(shape, len(plist), k)
        for step in ('0.1250', '1', '12.5', '1e-2'):
            for acq in ((0, 0, 0), (10.5, 20.25, 30.0), (0., 180., 270.), (359, 1, 2)):
                for head in range(8):
                    with Tmp() as d:
                        what = f'{case} {k} {step} {acq} {head}'
                        path = os.path.join(d, ('m', 'a b', 'm.v2', '1.5 %')[head % 4] + '.ctf')
                        write_ctf(path, shape, plist, cols, order, step, acq, head, eol=('\n', '\r\n')[head % 2])
                        verify(ctx, load(path, **({}, {'data_type': 'OxfordText'}, {'data_type': 'oxfordtext'})[head % 3]), shape, plist, cols, what, float(step))
                        acq_check(ctx, path, None, acq, what)
                        if acq == (0, 0, 0):
                            write_ctf(path, shape, plist, cols, order, step, None, head)
                            acq_check(ctx, path, 'OxfordText', acq, what)
                        path = os.path.join(d, ('m', 'a b', 'm.v2', '1.5 %')[head % 4])
                        write_crc(path, shape, plist, cols, list(FID), step, acq, head)
                        name = path + ('', '.cpr', '.crc')[head % 3]
                        verify(ctx, load(pathlib.Path(name) if k else name, **({}, {'data_type': 'OxfordBinary'})[head // 3 % 2]), shape, plist, cols, what, float(step))
                        acq_check(ctx, name, 'OxfordBinary', acq, what)
                        ctx.step(2)
                        ctx.eval(what if shape != (1, 1) else None, 2)


def run_wide(ctx, case):
    """Rows and columns of more pixels than a byte can count."""
    shape = (SHAPES + WIDE)[case['shape']]
    order = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']
    for plist in LISTS:
        for k in range(2):
            cols = content(shape, len(plist), k)
            with Tmp() as d:
                what = f'{case} {plist} {k}'
                path = os.path.join(d, 'm.ctf')
                write_ctf(path, shape, plist, cols, order, '0.1250', (10.5, 20.25, 30.0), k)
                verify(ctx, load(path), shape, plist, cols, what)
                path = os.path.join(d, 'm')
                write_crc(path, shape, plist, cols, list(FID), '0.1250', (10.5, 20.25, 30.0), k)
                verify(ctx, load(path + '.cpr'), shape, plist, cols, what)
            ctx.step(2)
            ctx.eval(what, 2)


ANG_SYM = [('43', 11), ('m3m', 11), ('6/mmm', 9)]


def write_ang(path, shape, cols, sym, name, step, lat, dims=None, rows=None, grid='SqrGrid', phase_no=1):
    h, w = dims or shape
    L = ['# TEM_PIXperUM          1.000000', '# x-star                0.413900', '#', f'# Phase {phase_no}', f'# MaterialName  \t{name}', '# Formula     \tNi', '# Info \t\t',
         f'# Symmetry              {sym}', '# LatticeConstants      ' + ' '.join(f'{v:.3f}' for v in lat), '# NumberFamilies        1',
         '# hklFamilies   \t 1  1  1 1 0.000000 1', '# Categories0 0 0 0 0 ', '#', f'# GRID: {grid}', f'# XSTEP: {step}', f'# YSTEP: {step}', f'# NCOLS_ODD: {w}', f'# NCOLS_EVEN: {w}', f'# NROWS: {h}', '#', '# OPERATOR: \tme', '#']
    n = shape[0] * shape[1]
    for i in range(n) if rows is None else rows:
        L.append(f"  {cols['e'][0][i]:.5f}   {cols['e'][1][i]:.5f}   {cols['e'][2][i]:.5f}      {i % shape[1] * float(step):.5f}      {i // shape[1] * float(step):.5f} {cols['IQ'][i]:.1f}  {cols['CI'][i]:.3f}  0      1  {cols['FF'][i]:.3f}")
    with open(path, 'w') as f:
        f.write('\n'.join(L) + '\n')


def run_ang(ctx, case):
    shape = (SHAPES + WIDE)[case['shape']]
    n = shape[0] * shape[1]
    i = np.arange(n)
    for (sym, lg), name, step, off in itertools.product(ANG_SYM, ('Nickel', 'Titanium (Alpha) 2'), ('0.125000', '2'), range(6)):
        cols = dict(e=[(off * math.pi / 3 + .37 * i) % (2 * math.pi), (.2 + .41 * i) % math.pi, (1 + .53 * i) % (2 * math.pi)],
                    IQ=1000.5 + i, CI=i / 16, FF=1 + i / 8)
        lat = (3.57, 3.57, 3.57, 90, 90, 90) if lg == 11 else (2.95, 2.95, 4.684, 90, 90, 120)
        with Tmp() as d:
            path = os.path.join(d, 'm.ang')
            write_ang(path, shape, cols, sym, name, step, lat)
            m = load(path, **({}, {'data_type': 'EdaxAng'}, {'data_type': 'edaxang'})[off % 3])
            what = f'{case} {sym} {name} {step} {off}'
            ctx.check(tuple(m.shape) == shape and abs(m.step_size - float(step)) < 1e-9, f'{what}: shape {m.shape} or step {m.step_size}')
            ctx.check(np.array_equal(m.data.phase, np.ones(shape)), f'{what}: phase {m.data.phase}')
            for k, c in (('image_quality', 'IQ'), ('confidence_index', 'CI'), ('fit_factor', 'FF')):
                ctx.check(np.allclose(m.data[k], np.round(cols[c], 3).reshape(shape), atol=1e-3), lambda: f'{what}: {k} {m.data[k]}')
            e = np.array(m.data.euler_angle)
            ctx.check(e.shape == (3,) + shape and e.min() >= 0 and e.max() < 2 * math.pi + 1e-6, lambda: f'{what}: angles {e}')
            # the sample axes of the format are a quarter turn off
            for y, x in np.ndindex(shape):
                j = y * shape[1] + x
                want = oracle.bunge((cols['e'][0][j] - math.pi / 2, cols['e'][1][j], cols['e'][2][j]))
                ctx.check(np.allclose(oracle.bunge(e[:, y, x]), want, atol=5e-5), lambda: f'{what}: angles {e[:, y, x]} at {x, y}')
            p = m.phases
            ctx.check(len(p) == 1 and (p[0].name, p[0].laue_group) == (name, lg) and np.allclose(p[0].lattice_params, [v * (D if j > 2 else 1) for j, v in enumerate(lat)]), lambda: f'{what}: phase {p[0]}')
            ctx.step()
            ctx.eval(what if n > 1 else None)
            if off == 0:
                for dims in ((shape[0] + 1, shape[1]), (shape[0], shape[1] + 2)):
                    write_ang(path, shape, cols, sym, name, step, lat, dims=dims)
                    ctx.raises((ValueError, AssertionError), lambda: load(path), f'{what}: {n} pixels for {dims}')
                write_ang(path, shape, cols, sym, name, step, lat, rows=range(n - 1))
                ctx.raises((ValueError, AssertionError, IndexError), lambda: load(path), f'{what}: one pixel missing')
                write_ang(path, shape, cols, sym, name, step, lat, grid='HexGrid')
                ctx.raises(ValueError, lambda: load(path), f'{what}: hexagonal grid')
                write_ang(path, shape, cols, '4/mmm', name, step, lat)
                ctx.raises(ValueError, lambda: load(path), f'{what}: unknown symmetry')
                ctx.raises(FileNotFoundError, lambda: load(path[:-4] + 'x.ang'), f'{what}: missing file')


def run_dict(ctx, case):
    shape = (SHAPES + WIDE)[case['shape']]
    for plist in LISTS:
        for k in range(2):
            cols = content(shape, len(plist), k)
            ph = [Phase(nm, lg, sg, tuple(v * (D if j > 2 else 1) for j, v in enumerate(lat))) for nm, lg, sg, lat in (PHASES[p] for p in plist)]
            dd = dict(step_size=.125, phases=ph, phase=cols['Phase'].reshape(shape), band_contrast=cols['BC'].reshape(shape),
                      euler_angle=np.array([cols[f'Euler{i + 1}'] * D for i in range(3)]).reshape((3,) + shape))
            keep = {a: (np.array(b) if isinstance(b, np.ndarray) else b) for a, b in dd.items()}
            for dt in ('PythonDict', 'pythondict'):
                m = load(dd, data_type=dt)
                verify(ctx, m, shape, plist, cols, f'{case} {plist}', extra=False)
            ctx.check(all(np.array_equal(keep[a], dd[a]) for a in keep if a != 'phases'), f'{case}: dictionary changed')
            for a in dd:
                part = {b: c for b, c in dd.items() if b != a}
                ctx.raises(KeyError, lambda: load(part, data_type='PythonDict'), f'{case}: dictionary without {a}')
            bad = [('euler_angle', dd['euler_angle'][:2]), ('euler_angle', dd['euler_angle'][:, :-1]), ('euler_angle', np.moveaxis(dd['euler_angle'], 0, -1)),
                   ('phase', np.ones((shape[0] + 1, shape[1]))), ('phase', np.ones(shape[0] * shape[1])), ('phases', ['Ni']), ('phases', tuple(ph)), ('phases', ph + [None])]
            for a, v in bad:
                ctx.raises((AssertionError, ValueError, TypeError), lambda: load({**dd, a: v}, data_type='PythonDict'), f'{case}: bad {a}')
            ctx.step()
            ctx.eval(f'{case} {plist} {k}' if shape != (1, 1) else None)


def run_refuse(ctx, case):
    shape = (SHAPES + WIDE)[case['shape']]
    n = shape[0] * shape[1]
    plist = [1, 0]
    cols = content((shape[0] + 2, shape[1]), 2)
    order = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2', 'Euler3', 'MAD', 'BC', 'BS']
    errs = (ValueError, AssertionError, IndexError, TypeError, KeyError, StopIteration)
    for k in list(range(max(0, n - 3), n)) + list(range(n + 1, n + 3)):
        with Tmp() as d:
            path = os.path.join(d, 'm.ctf')
            write_ctf(path, shape, plist, cols, order, rows=range(k))
            ctx.raises(errs, lambda: load(path), f'{case}: text file with {k} pixels')
            path = os.path.join(d, 'm')
            write_crc(path, shape, plist, cols, list(FID), rows=range(k))
            ctx.raises(errs, lambda: load(path), f'{case}: binary file with {k} pixels')
            ctx.step(2)
            ctx.eval(f'{case} {k}')
    for dh, dw in itertools.product((-1, 0, 1, 2), repeat=2):
        dims = (shape[0] + dh, shape[1] + dw)
        if dims[0] * dims[1] == n or min(dims) < 1:
            continue
        with Tmp() as d:
            path = os.path.join(d, 'm.ctf')
            write_ctf(path, shape, plist, cols, order, rows=range(n), dims=dims)
            ctx.raises(errs, lambda: load(path), f'{case}: text file of {dims}')
            path = os.path.join(d, 'm')
            write_crc(path, shape, plist, cols, list(FID), rows=range(n), dims=dims)
            ctx.raises(errs, lambda: load(path), f'{case}: binary file of {dims}')
            ctx.eval(f'{case} {dims}')
    with Tmp() as d:
        path = os.path.join(d, 'm.ctf')
        b = os.path.join(d, 'm')
        for nph in (1, 3):
            write_ctf(path, shape, plist, cols, order, rows=range(n), nph=nph)
            ctx.raises(errs, lambda: load(path), f'{case}: text file with {nph} phases in the header')
        write_crc(b, shape, plist, cols, list(FID), rows=range(n), nph=3)
        ctx.raises(errs, lambda: load(b), f'{case}: binary file with 3 phases in the header')
        for c in KEEP:
            write_ctf(path, shape, plist, cols, [o for o in order if o != c], rows=range(n))
            ctx.raises(errs, lambda: load(path), f'{case}: text file without {c}')
            if c != 'Phase':
                write_crc(b, shape, plist, cols, [o for o in FID if o != c], rows=range(n))
                ctx.raises(errs, lambda: load(b), f'{case}: binary file without {c}')
        cols2 = dict(cols, Strange=cols['X'])
        write_ctf(path, shape, plist, cols2, order + ['Strange'], rows=range(n))
        ctx.raises(TypeError, lambda: load(path), f'{case}: text file with an unknown column')
        for g in ('[Job]', '[Fields]', '[Phases]', '[Phase1]', '[Acquisition Surface]'):
            write_crc(b, shape, plist, cols, list(FID), rows=range(n), skip=(g,))
            ctx.raises(errs, lambda: load(b), f'{case}: binary file without {g}')
        write_crc(b, shape, plist, cols, list(FID), rows=range(n))
        load(b)
        os.remove(b + '.crc')
        ctx.raises(FileNotFoundError, lambda: load(b), f'{case}: no crc file')
        write_crc(b, shape, plist, cols, list(FID), rows=range(n))
        os.remove(b + '.cpr')
        ctx.raises(FileNotFoundError, lambda: load(b), f'{case}: no cpr file')
        os.remove(path)
        ctx.raises(FileNotFoundError, lambda: load(path), f'{case}: no ctf file')
        ctx.raises(ValueError, lambda: load(b, data_type='Unknown'), f'{case}: unknown format')


def run(case, ctx):
    globals()['run_' + case['kind']](ctx, case)


if __name__ == '__main__':
    check.main(globals())
