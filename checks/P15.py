"""P15: slip systems, their files, groups and families."""
import glob
import itertools
import math
import re
import io
import contextlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import defdap                        # noqa: E402
from types import SimpleNamespace    # noqa: E402
from defdap.crystal import SlipSystem, crystalStructures, Phase     # noqa: E402

PROP = 'P15'
LEVEL = 'model_checking'
RULE = ('every slip system with indices within a bound (plane and direction at right angles), its family compared with the '
        'orbit under the symmetry, searched from the system until no new one appears; every slip system file that comes '
        'with the package; and every file of a few rows from a list in every order. Non-trivial: more than one member')
ASSUMPTIONS = ['indices of a plane and a direction have no common factor']
D = math.pi / 180
H = math.sqrt(3) / 2
A1, A2 = np.array([H, -.5, 0]), np.array([0, 1., 0])        # default convention of the package


def frame(name, ca):
    if name == 'cubic':
        return np.eye(3), np.eye(3)
    A = np.array([A1, A2, np.array([0, 0, ca])]).T
    return A, np.linalg.inv(A).T


def cart(name, ca, plane, dir):
    A, R = frame(name, ca)
    if name == 'cubic':
        p, d = np.array(plane, float), np.array(dir, float)
    else:
        p = R @ np.array([plane[0], plane[1], plane[3]], float)
        d = A @ np.array([dir[0] - dir[2], dir[1] - dir[2], dir[3]], float)
    return p / np.linalg.norm(p), d / np.linalg.norm(d)


def line(v):
    v = np.round(v, 5) + 0.
    nz = v[np.abs(v) > 1e-4]
    return tuple((v if nz[0] > 0 else -v) + 0.)


def key(p, d):
    return line(p), line(d)


def orbit(name, p, d):
    """All systems that can be reached from one by the symmetry operations (search to the fixed point)."""
    gens = oracle.sym(name)
    seen = {key(p, d): (p, d)}
    todo = [(p, d)]
    steps = 0
    while todo:
        a, b = todo.pop()
        for S in gens:
            steps += 1
            x = (S @ a, S @ b)
            k = key(*x)
            if k not in seen:
                seen[k] = x
                todo.append(x)
    return seen, steps


def idcs(name, n):
    if name == 'cubic':
        return [v for v in itertools.product(range(-n, n + 1), repeat=3) if any(v) and math.gcd(*v) == 1]
    return [(h, k, -h - k, l) for h, k, l in itertools.product(range(-n, n + 1), repeat=3) if (h or k or l) and math.gcd(h, k, l) == 1]


def files():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(env.REPO, 'defdap', 'slip_systems', '*.txt')))


ROWS = {'cubic': ['1 1 1 0 1 -1', '-1 -1 -1 1 0 -1', '1 1 1 1 -1 0', '1 -1 1 1 1 0', '0 1 1 1 1 -1', '0 -1 -1 1 -1 1', '1 1 2 1 1 -1'],
        'hexagonal': ['0 0 0 1 2 -1 -1 0', '0 0 0 -1 -1 2 -1 0', '1 0 -1 0 -1 2 -1 0', '-1 0 1 0 1 -2 1 0', '1 0 -1 1 -1 2 -1 0', '1 0 -1 1 -1 -1 2 3',
                      '0 1 -1 0 2 -1 -1 0', '0 0 0 2 1 1 -2 0', '0 0 0 2 -2 4 -2 0']}


def cases(tier):
    out = []
    n = 2 if tier == 'quick' else 3
    for v in idcs('cubic', n):
        out.append(dict(kind='family', name='cubic', plane=v, n=n, ca=0))
    for ca in (1.5873, 1.633, 2.5):
        for v in idcs('hexagonal', 1 if tier == 'quick' else 2):
            out.append(dict(kind='family', name='hexagonal', plane=v, n=1 if tier == 'quick' else 2, ca=ca))
    for f in files():
        for ca in (None,) if f.startswith('cubic') else (1.5, 1.5873, 1.7):
            for g in ('plane', 'family', None, 'PLANE'):
                out.append(dict(kind='file', file=f, ca=ca, group=g))
    for name in ROWS:
        for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for first in range(len(ROWS[name])):
                out.append(dict(kind='rows', name=name, k=k, first=first))
    out.append(dict(kind='phase'))
    out.append(dict(kind='errors'))
    return out


def check_ss(ctx, s, name, ca, what, plane=None, dir=None):
    plane = tuple(s.plane_idc) if plane is None else plane
    dir = tuple(s.dir_idc) if dir is None else dir
    ctx.check(tuple(s.plane_idc) == tuple(plane) and tuple(s.dir_idc) == tuple(dir), f'{what}: indices {s.plane_idc} {s.dir_idc}')
    p, d = cart(name, ca, plane, dir)
    ctx.check(np.allclose(s.slip_plane, p, atol=1e-9) and np.allclose(s.slip_dir, d, atol=1e-9),
              lambda: f'{what}: vectors {s.slip_plane} {s.slip_dir} do not agree with the indices {plane} {dir}')
    ctx.check(s.crystal_structure is crystalStructures[name], f'{what}: structure')
    ctx.check((s.c_over_a is None) if name == 'cubic' else s.c_over_a == ca, f'{what}: c over a')
    return p, d


def label(v, b):
    return b[0] + ''.join(str(x) if x >= 0 else str(-x) + '̅' for x in v) + b[1]


def run_family(ctx, case):
    name, plane, ca = case['name'], tuple(case['plane']), case['ca'] or None
    cs = crystalStructures[name]
    A, R = frame(name, ca)
    for dir in idcs(name, case['n']):
        p, d = cart(name, ca, plane, dir)
        if name == 'cubic' and np.dot(plane, dir) != 0:
            continue
        if name == 'hexagonal' and abs(np.dot(p, d)) > 1e-9:
            continue
        if name == 'hexagonal' and math.gcd(*(int(x) for x in dir)) != 1:
            continue
        variants = [s for a, b in itertools.product((1, -1), repeat=2)
                    for s in [SlipSystem(np.array(plane) * a, np.array(dir) * b, cs, c_over_a=ca)]]
        s = SlipSystem(plane, dir, cs, c_over_a=ca)
        check_ss(ctx, s, name, ca, f'{case} {dir}', plane, dir)
        ctx.check(abs(np.dot(s.slip_plane, s.slip_dir)) < 1e-9, f'{case} {dir}: direction is not in the plane')
        for v in variants:
            ctx.check(v == s and hash(v) == hash(s), f'{case} {dir}: opposite normal or direction is another system')
        ctx.check(s.slip_plane_label == label(plane, '()') and s.slip_dir_label == label(dir, '[]') and str(s) == label(plane, '()') + label(dir, '[]'),
                  f'{case} {dir}: labels {s.slip_plane_label} {s.slip_dir_label}')
        want, steps = orbit(name, p, d)
        ctx.step(steps)
        for k in want:
            ctx.state((name, k))
        fam = list(s.generate_family())
        got = {}
        for f in fam:
            a, b = check_ss(ctx, f, name, ca, f'{case} {dir} family')
            ctx.check(abs(np.dot(a, b)) < 1e-9, f'{case} {dir}: {f} of the family does not lie in its plane')
            ctx.check(math.gcd(*map(int, f.plane_idc)) == 1 and math.gcd(*map(int, f.dir_idc)) == 1, f'{case} {dir}: indices of {f}')
            got.setdefault(key(a, b), []).append(f)
        ctx.check(all(len(x) == 1 for x in got.values()), lambda: f'{case} {dir}: listed twice {[x for x in got.values() if len(x) > 1]}')
        ctx.check(set(got) == set(want), lambda: f'{case} {dir}: family of {len(got)} {fam}, expected {len(want)}')
        ctx.check(s in fam or s in set(fam), f'{case} {dir}: is not in its own family')
        ctx.eval(f'{case} {dir}' if len(want) > 1 else None)
        # so does a system with a common factor in its indices
        for x, y in ((2, 1), (1, 3), (2, 2), (-2, 3)) if max(map(abs, dir)) < 3 else ():
            m = SlipSystem(tuple(x * i for i in plane), tuple(y * i for i in dir), cs, c_over_a=ca)
            mult = m.generate_family()
            ctx.check(m in mult and {(pos(f.plane_idc), pos(f.dir_idc)) for f in mult} == {(pos([x * i for i in f.plane_idc]), pos([y * i for i in f.dir_idc])) for f in fam},
                      lambda: f'{case} {dir}: family of {m}: {mult}')
        # any other member generates the same family
        for f in fam[:2] + fam[-1:]:
            ctx.check(set(f.generate_family()) == set(fam), f'{case} {dir}: family of {f}')


def pos(v):
    s = next((x for x in v if x), 1)
    return tuple(x if s > 0 else -x for x in v)


def check_groups(ctx, groups, rows, name, ca, how, what):
    """groups hold exactly the rows, grouped as asked and in the order of the file."""
    rows = [tuple(map(int, r)) for r in rows]
    n = len(rows[0]) // 2
    flat = [tuple(int(x) for x in tuple(s.plane_idc) + tuple(s.dir_idc)) for g in groups for s in g]
    ctx.check(sorted(flat) == sorted(rows), lambda: f'{what}: systems {flat}, expected {rows}')
    for g in groups:
        for s in g:
            check_ss(ctx, s, name, ca, what)
    if how == 'plane':
        kf = lambda r: pos(r[:n])       # noqa
    else:
        cache = {}

        def kf(r):
            if r not in cache:
                cache[r] = (math.gcd(*r[:n]), math.gcd(*r[n:]), frozenset(orbit(name, *cart(name, ca, r[:n], r[n:]))[0]))
            return cache[r]
    want = []
    for r in rows:
        for g in want:
            if kf(g[0]) == kf(r):
                g.append(r)
                break
        else:
            want.append([r])
    got = [[tuple(int(x) for x in tuple(s.plane_idc) + tuple(s.dir_idc)) for s in g] for g in groups]
    ctx.check(got == want, lambda: f'{what}: grouped {got}, expected {want}')


def run_file(ctx, case):
    name = 'hexagonal' if case['file'].startswith('hex') else 'cubic'
    cs, ca = crystalStructures[name], case['ca']
    path = os.path.join(env.REPO, 'defdap', 'slip_systems', case['file'] + '.txt')
    lines = open(path).read().split('\n')
    rows = [tuple(int(x) for x in l.split()) for l in lines[2:] if l.strip()]
    for f in (case['file'], path):
        out, colours = SlipSystem.load(f, cs, c_over_a=ca, group_by=case['group'])
        ctx.check(colours == lines[1].strip().split(','), f'{case}: colours {colours}')
        if case['group'] is None:
            ctx.check([tuple(int(x) for x in tuple(s.plane_idc) + tuple(s.dir_idc)) for s in out] == rows, f'{case}: systems')
            out = [[s] for s in out]
        else:
            check_groups(ctx, out, rows, name, ca, case['group'].lower(), f'{case}')
            if case['group'] == 'plane':
                ctx.check(len(colours) == len(out), f'{case}: {len(colours)} colours for {len(out)} planes')
        flat = [s for g in out for s in g]
        for s in flat:
            check_ss(ctx, s, name, ca, f'{case}')
            ctx.check(abs(np.dot(s.slip_plane, s.slip_dir)) < 1e-9, f'{case}: {s} does not lie in its plane')
            ctx.eval(f'{case} {s}')
        keys = [key(s.slip_plane, s.slip_dir) for s in flat]
        ctx.check(len(set(keys)) == len(keys), f'{case}: a system is listed twice')
        # each file holds complete families
        for s in flat:
            want, steps = orbit(name, s.slip_plane, s.slip_dir)
            ctx.step(steps)
            for k in want:
                ctx.state((name, k))
            ctx.check(set(want) <= set(keys), lambda: f'{case}: family of {s} is incomplete')


def run_rows(ctx, case):
    name, k = case['name'], case['k']
    cs = crystalStructures[name]
    ca = 1.6 if name == 'hexagonal' else None
    d = os.path.join(env.SCRATCH, f'p15_{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'ss.txt')
    R = ROWS[name]
    for rest in itertools.permutations([i for i in range(len(R)) if i != case['first']], k - 1):
        rows = [tuple(int(x) for x in R[i].split()) for i in (case['first'],) + rest]
        for end in ('\n', ''):
            with open(path, 'w') as f:
                f.write('# comment\nred,blue\n' + '\n'.join('\t'.join(map(str, r)) for r in rows) + end)
            for how in ('plane', 'family', None):
                out, colours = SlipSystem.load(path, cs, c_over_a=ca, group_by=how)
                ctx.check(colours == ['red', 'blue'], 'colours')
                if how is None:
                    ctx.check([tuple(int(x) for x in tuple(s.plane_idc) + tuple(s.dir_idc)) for s in out] == rows, f'{case} {rest}: systems {out}')
                else:
                    check_groups(ctx, out, rows, name, ca, how, f'{case} {rest} {how}')
                ctx.eval(f'{case} {rest} {how}' if k > 1 else None)
        ss = [SlipSystem(r[:len(r) // 2], r[len(r) // 2:], cs, c_over_a=ca) for r in rows]
        keep = list(ss)
        for how in ('plane', 'family'):
            g = SlipSystem.group(ss, how)
            ctx.check(ss == keep and sum(g, []) is not ss, 'argument changed')
            ctx.check({id(x) for y in g for x in y} == {id(x) for x in ss}, f'{case} {rest}: grouped systems are the systems')
    os.unlink(path)
    os.rmdir(d)


def run_phase(ctx):
    a = 90 * D
    for lg, sg, lp, f in ((11, 225, (3.5, 3.5, 3.5, a, a, a), 'FCC'), (11, 229, (2.9, 2.9, 2.9, a, a, a), 'BCC'), (11, 1, (3, 3, 3, a, a, a), None),
                          (9, 194, (3., 3., 4.8, a, a, 120 * D), 'HCP'), (9, 0, (3., 3., 4.6, a, a, 120 * D), 'HCP')):
        p = Phase('n', lg, sg, lp)
        name = 'hexagonal' if lg == 9 else 'cubic'
        ctx.check(p.crystal_structure is crystalStructures[name], f'{lg} {sg}: structure')
        ctx.check(p.c_over_a == (lp[2] / lp[0] if lg == 9 else None), f'{lg} {sg}: c over a')
        if f is None:
            ctx.check(p.slip_systems is None and p.ss_file is None and p.slip_trace_colours is None, f'{lg} {sg}: no slip systems')
        else:
            ctx.check(p.ss_file == defdap.defaults['slip_system_file'][f], f'{lg} {sg}: file')
            path = os.path.join(env.REPO, 'defdap', 'slip_systems', p.ss_file + '.txt')
            lines = open(path).read().split('\n')
            rows = [tuple(int(x) for x in l.split()) for l in lines[2:] if l.strip()]
            check_groups(ctx, p.slip_systems, rows, name, p.c_over_a, 'plane', f'phase {lg} {sg}')
            ctx.check(p.slip_trace_colours == lines[1].strip().split(','), f'{lg} {sg}: colours')
        # what is printed for the user
        txt = str(p)
        nums = [float(x) for x in re.findall(r'-?\d+\.?\d*', txt.split('params')[1].split('\n')[0])]
        ctx.check(txt.startswith('Phase: n\n') and name in txt and np.allclose(nums, list(lp[:3]) + [v / D for v in lp[3:]]), f'{lg} {sg}: printed {txt!r}')
        if f is not None:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                p.print_slip_systems()
            got = [l.split() for l in buf.getvalue().strip().split('\n')]
            want = []
            for i, (grp, c) in enumerate(zip(p.slip_systems, p.slip_trace_colours)):
                want.append(['Plane', f'{i}:', grp[0].slip_plane_label, 'Colour:', c])
                want += [['Direction', f'{j}:', x.slip_dir_label] for j, x in enumerate(grp)]
            ctx.check(got == want, lambda: f'{lg} {sg}: printed slip systems {got}, expected {want}')
        ctx.eval(f'{lg} {sg}')
    for lg in (0, 1, 2, 10, 12, None, '11'):
        ctx.raises(ValueError, lambda: Phase('n', lg, 225, (3, 3, 3, a, a, a)), f'Laue group {lg}')


def run_errors(ctx):
    cub, hexa = crystalStructures['cubic'], crystalStructures['hexagonal']
    ctx.raises(FileNotFoundError, lambda: SlipSystem.load('no_such_file', cub), 'missing file')
    ctx.raises(IOError, lambda: SlipSystem.load('cubic_fcc', hexa, c_over_a=1.6), 'cubic file for hexagonal')
    ctx.raises(IOError, lambda: SlipSystem.load('hexagonal_withca', cub), 'hexagonal file for cubic')
    ctx.raises(Exception, lambda: SlipSystem.load('hexagonal_withca', hexa), 'no c over a')
    ctx.raises(ValueError, lambda: SlipSystem.load('cubic_fcc', cub, group_by='x'), 'unknown way of grouping')
    ctx.raises(Exception, lambda: SlipSystem((1, 1, 1), (1, -1, 0), SimpleNamespace(name='other')), 'unknown structure')
    ctx.eval()


def run(case, ctx):
    k = case['kind']
    f = globals()['run_' + k]
    if k in ('phase', 'errors'):
        f(ctx)
    else:
        f(ctx, case)


if __name__ == '__main__':
    check.main(globals())
