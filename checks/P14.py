"""P14: conversions of Miller and Miller-Bravais indices."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check, oracle          # noqa: E402
env.import_defdap()
import numpy as np                  # noqa: E402
import defdap                        # noqa: E402
from defdap import crystal, crystal_utils as cu     # noqa: E402

PROP = 'P14'
LEVEL = 'exploration'
RULE = ('every set of three or four integer indices within a bound, as every kind of sequence, through every conversion and '
        'back; every lattice of a list and both conventions against basis vectors written down independently; all symmetry '
        'operations for the equivalents. Non-trivial: more than one index is not zero')
ASSUMPTIONS = ['the indices are not all zero']
D = math.pi / 180
H = math.sqrt(3) / 2


def cases(tier):
    n = 6 if tier == 'quick' else 9
    out = []
    for h in range(-n, n + 1):
        out.append(dict(kind='convert', h=h, n=n))
        out.append(dict(kind='reduce', h=h, n=n))
        out.append(dict(kind='string', h=h, n=2))
    for ca in (1.2, 1.5873, 1.633, 3):
        for conv in ('hkl', 'tsl', 'OI', None):
            out.append(dict(kind='cart', ca=ca, conv=conv, n=2 if tier == 'quick' else 4))
    out.append(dict(kind='lattice'))
    m = 3 if tier == 'quick' else 4
    for h in range(-m, m + 1):
        for name in ('cubic', 'hexagonal'):
            out.append(dict(kind='equiv', name=name, h=h, n=m))
    out.append(dict(kind='cast'))
    out.append(dict(kind='errors'))
    return out


KINDS = [tuple, list, np.array, lambda v: np.array(v, dtype=np.int8), lambda v: np.array(v, dtype=float)]


def nt(v):
    return str(tuple(v)) if sum(x != 0 for x in v) > 1 else None


def is_int(v):
    return all(isinstance(x, (int, np.integer)) for x in v)


def run_convert(ctx, case):
    n, h = case['n'], case['h']
    for k, l in itertools.product(range(-n, n + 1), repeat=2):
        v = (h, k, l)
        if not any(v):
            continue
        for i, T in enumerate(KINDS):
            arg = T(v)
            keep = np.array(arg).copy()
            p = cu.convert_idc('m', plane=arg)
            ctx.check(tuple(p) == (h, k, -h - k, l) and len(p) == 4, lambda: f'plane {v} became {p}')
            ctx.check(i == 4 or is_int(p), f'plane {v}: not integers')
            back = cu.convert_idc('mb', plane=p)
            ctx.check(tuple(back) == v and isinstance(back, tuple), lambda: f'plane {v} became {p} and then {back}')
            d = cu.convert_idc('m', dir=arg)
            want = ((2 * h - k) / 3, (2 * k - h) / 3, -(h + k) / 3, l)
            ctx.check(len(d) == 4 and np.allclose(d, want, atol=1e-12), lambda: f'direction {v} became {d}')
            if (2 * h - k) % 3 == 0:
                ctx.check(is_int(d), lambda: f'direction {v}: {d} are not integers')
            back = cu.convert_idc('mb', dir=d)
            ctx.check(np.allclose(back, v, atol=1e-9), lambda: f'direction {v} became {d} and then {back}')
            ctx.check(np.array_equal(keep, arg), f'{v}: argument changed')
            # the other way round
            q = T((h, k, -h - k, l))
            m = cu.convert_idc('mb', plane=q)
            ctx.check(tuple(m) == v and tuple(cu.convert_idc('m', plane=m)) == (h, k, -h - k, l), f'plane {q} and back')
            m = cu.convert_idc('mb', dir=q)
            ctx.check(tuple(m) == (2 * h + k, 2 * k + h, l), lambda: f'direction {q} became {m}')
            b = cu.convert_idc('m', dir=m)
            ctx.check(np.allclose(b, q) and is_int(b), lambda: f'direction {q} became {m} and then {b}')
            for mode in ('M', 'm'):
                ctx.check(cu.convert_idc(mode, plane=arg) == p, 'upper case')
            ctx.eval(nt(v))


def run_reduce(ctx, case):
    n, h = case['n'], case['h']
    for rest in itertools.chain(itertools.product(range(-n, n + 1), repeat=2), itertools.product(range(-n, n + 1, 2), repeat=3)):
        v = (h,) + rest
        if not any(v):
            continue
        g = math.gcd(*v)
        for f in (1, 2, 7, 1000):
            for i, T in enumerate(KINDS[:4]):
                w = tuple(f * x for x in v)
                if i == 3 and max(map(abs, w)) > 127:
                    continue
                arg = T(w)
                keep = np.array(arg).copy()
                r = cu.reduce_idc(arg)
                ctx.check(tuple(r) == tuple(x // g for x in v) and is_int(r) and isinstance(r, tuple), lambda: f'{w} reduced to {r}')
                p = cu.pos_idc(arg)
                s = next(x for x in w if x)
                s = 1 if s > 0 else -1
                ctx.check(tuple(p) == tuple(s * x for x in w) and isinstance(p, tuple), lambda: f'{w} positive: {p}')
                ctx.check(tuple(cu.pos_idc(p)) == tuple(p), f'{w}: positive twice')
                ctx.check(tuple(cu.pos_idc(tuple(-x for x in w))) == tuple(p), f'{w}: opposite indices')
                ctx.check(np.array_equal(keep, arg), f'{w}: argument changed')
        ctx.eval(nt(v))


def parse(s):
    out, i = [], 0
    while i < len(s):
        neg = i + 1 < len(s) and s[i + 1] == '̅'
        out.append(-int(s[i]) if neg else int(s[i]))
        i += 2 if neg else 1
    return tuple(out)


def run_string(ctx, case):
    n, h = case['n'], case['h']
    seen = {}
    for rest in itertools.chain(itertools.product(range(-n, n + 1), repeat=2), itertools.product(range(-n, n + 1), repeat=3)):
        v = (h,) + rest
        for T in KINDS[:4]:
            s = cu.idc_to_string(T(v))
            ctx.check(parse(s) == v, lambda: f'{v} printed as {s!r}')
            for b in ('()', '[]', '{}', '<>'):
                ctx.check(cu.idc_to_string(T(v), b) == b[0] + s + b[1], f'{v} with brackets')
            t = cu.idc_to_string(T(v), str_type='tex')
            ctx.check(t == ''.join(str(x) if x >= 0 else r'$\bar{%d}$' % -x for x in v), lambda: f'{v} printed as {t!r}')
        ctx.check(s not in seen, f'{v} and {seen.get(s)} are printed alike')
        seen[s] = v
        ctx.eval(nt(v))
    for x in (-12, -10, 10, 127):
        ctx.check(cu.str_idx(x, 'tex') == (str(x) if x >= 0 else r'$\bar{%d}$' % -x), f'index {x}')


def basis(ca, conv):
    """Basis vectors (columns) of a hexagonal lattice with a=1."""
    if (conv or defdap.defaults['crystal_ortho_conv']).lower() in ('hkl', 'oi'):
        a1, a2 = np.array([H, -.5, 0]), np.array([0, 1., 0])
    else:
        a1, a2 = np.array([1., 0, 0]), np.array([-.5, H, 0])
    return a1, a2, np.array([0, 0, ca])


def run_cart(ctx, case):
    ca, conv, n = case['ca'], case['conv'], case['n']
    old = defdap.defaults['crystal_ortho_conv']
    try:
        a1, a2, c = basis(ca, conv)
        L = cu.create_l_matrix(1, 1, ca, np.pi / 2, np.pi / 2, np.pi * 2 / 3, convention=conv)
        ctx.check(np.allclose(L, np.array([a1, a2, c]).T, atol=1e-12), lambda: f'{case}: basis {L.tolist()}')
        Q = cu.create_q_matrix(L)
        ctx.check(np.allclose(Q.T @ L, np.eye(3), atol=1e-12), f'{case}: reciprocal basis')
        if conv is not None:
            defdap.defaults['crystal_ortho_conv'] = conv
        a3 = -a1 - a2
        R = np.linalg.inv(np.array([a1, a2, c]).T).T        # reciprocal
        for h, k, l in itertools.product(range(-n, n + 1), repeat=3):
            if not (h or k or l):
                continue
            v = (h, k, l)
            d = np.array(cu.project_to_orth(ca, dir=v, in_type='m'))
            ctx.check(np.allclose(d, h * a1 + k * a2 + l * c, atol=1e-9), f'{case}: direction {v} is {d}')
            d4 = cu.convert_idc('m', dir=v)
            e = np.array(cu.project_to_orth(ca, dir=d4))
            ctx.check(np.allclose(e, d, atol=1e-9), f'{case}: direction {v} is {d}, {d4} is {e}')
            i = -h - k
            f = np.array(cu.project_to_orth(ca, dir=(h, k, i, l), in_type='mb'))
            ctx.check(np.allclose(f, h * a1 + k * a2 + i * a3 + l * c, atol=1e-9), f'{case}: direction {(h, k, i, l)} is {f}')
            p = np.array(cu.project_to_orth(ca, plane=v, in_type='m'))
            ctx.check(np.allclose(p, R @ v, atol=1e-9), f'{case}: plane {v} is {p}')
            p4 = np.array(cu.project_to_orth(ca, plane=(h, k, i, l)))
            ctx.check(np.allclose(p4, p, atol=1e-9), f'{case}: plane {v} is {p}, {(h, k, i, l)} is {p4}')
            # the plane cuts the axes at 1/h, 1/k, 1/i, 1/l
            for idx, ax in ((h, a1), (k, a2), (i, a3), (l, c)):
                ctx.check(abs(np.dot(p, ax) - idx) < 1e-9, f'{case}: plane {v} and axis')
            ctx.eval(f'{case} {v}')
    finally:
        defdap.defaults['crystal_ortho_conv'] = old


def run_lattice(ctx):
    """General lattices: lengths and angles are those that were given."""
    for a, b, c in ((1, 1, 1), (1, 2, 3), (2.5, 2.5, 4)):
        for al, be, ga in itertools.product((80, 90, 100), (85, 90, 110), (70, 90, 120)):
            for conv in ('tsl', 'hkl'):
                if conv == 'hkl' and (al != 90 or be != 90 or a != b):
                    continue
                L = cu.create_l_matrix(a, b, c, al * D, be * D, ga * D, convention=conv)
                x, y, z = L.T
                ctx.check(np.allclose([np.linalg.norm(u) for u in (x, y, z)], (a, b, c)), f'{a, b, c, al, be, ga} {conv}: lengths')
                cs = [np.dot(y, z) / b / c, np.dot(x, z) / a / c, np.dot(x, y) / a / b]
                ctx.check(np.allclose(cs, np.cos(np.array([al, be, ga]) * D), atol=1e-9), f'{a, b, c, al, be, ga} {conv}: angles')
                Q = cu.create_q_matrix(L)
                ctx.check(np.allclose(Q.T @ L, np.eye(3), atol=1e-9), f'{a, b, c, al, be, ga} {conv}: reciprocal basis')
                ctx.check(np.linalg.det(L) > 0, 'right handed')
                ctx.eval(f'{a, b, c, al, be, ga} {conv}')


def up_to_sign(v):
    v = np.round(np.asarray(v, float), 6) + 0.
    nz = v[np.abs(v) > 1e-6]
    return tuple((v if nz[0] > 0 else -v) + 0.)


def unit_key(v):
    v = np.asarray(v, float)
    return up_to_sign(np.round(v / np.linalg.norm(v), 5))


def run_equiv(ctx, case):
    name, h, n = case['name'], case['h'], case['n']
    ref = oracle.sym(name)
    syms = crystal.crystalStructures[name].symmetries
    ca = 1.6 if name == 'hexagonal' else None
    a1, a2, c = basis(1.6, None) if name == 'hexagonal' else np.eye(3)
    A = np.array([a1, a2, c]).T
    R = np.linalg.inv(A).T
    for k, l in itertools.product(range(-n, n + 1), repeat=2):
        v = (h, k, l)
        if not any(v) or math.gcd(*v) != 1:
            continue
        for what, B in (('dir', A), ('plane', R)):
            w = v
            if name == 'hexagonal':
                w = (h, k, -h - k, l)
                if what == 'dir':
                    cart = h * a1 + k * a2 + (-h - k) * (-a1 - a2) + l * c
                else:
                    cart = R @ v
            else:
                cart = np.array(v, float)
            orbit = {unit_key(S @ cart) for S in ref}
            inputs = [(w, 'mb' if name == 'hexagonal' else 'm'), (w, None)]
            if name == 'hexagonal':
                inputs.append((tuple(int(x) for x in cu.convert_idc('mb', **{what: w})), 'm'))
                if what == 'dir':
                    # three indices of a direction that needs fractions in four
                    inputs.append((v, 'm'))
            for arg, it in inputs:
                if what == 'dir' and name == 'hexagonal':
                    x = h * a1 + k * a2 + l * c if arg is v else cart
                    orbit = {unit_key(S @ x) for S in ref}
                for T in (tuple, np.array):
                    got = cu.equavlent_indicies(name, syms, c_over_a=ca, in_type=it, **{what: T(arg)})
                    ctx.check(len(got) == len(syms), f'{name} {what} {arg}: {len(got)} equivalents')
                    keys = set()
                    for g in got:
                        ctx.check(len(g) == (4 if name == 'hexagonal' else 3) and is_int(g), f'{name} {what} {arg}: equivalent {g}')
                        if name == 'hexagonal':
                            ctx.check(g[0] + g[1] + g[2] == 0 and math.gcd(*map(int, g)) == 1, f'{name} {what} {arg}: equivalent {g}')
                            x = (g[0] * a1 + g[1] * a2 + g[2] * (-a1 - a2) + g[3] * c) if what == 'dir' else R @ np.array(g)[[0, 1, 3]]
                        else:
                            x = np.array(g, float)
                            ctx.check(sorted(map(abs, g)) == sorted(map(abs, v)), f'{name} {what} {arg}: equivalent {g}')
                        ctx.check(g[-1] >= 0, f'{name} {what} {arg}: equivalent {g} points down')
                        keys.add(unit_key(x))
                    ctx.check(keys == orbit, lambda: f'{name} {what} {arg}: {len(keys)} equivalents {sorted(keys)[:3]}, expected {len(orbit)} {sorted(orbit)[:3]}')
                    ctx.eval(f'{name} {what} {arg} {it}')
                    ctx.check(arg is v or tuple(got[0]) in (tuple(w), tuple(-x for x in w)), f'{name} {what} {arg}: first equivalent {got[0]}')


def run_cast(ctx):
    base = [(0, 0, 0), (1, -2, 3), (5, 0, -7, 2), (1000, -1)]
    for b in base:
        for pos in range(len(b)):
            for e, ok in ((0, 1), (1e-9, 1), (-9e-4, 1), (9e-4, 1), (1.1e-3, 0), (-2e-3, 0), (.3, 0), (.5, 0), (-.5, 0), (.99, 0), (.9995, 1)):
                for T in (tuple, list, np.array):
                    v = list(map(float, b))
                    v[pos] += e
                    if ok:
                        got = cu.safe_int_cast(T(v))
                        want = list(b)
                        want[pos] += 1 if e > .9 else 0
                        ctx.check(tuple(got) == tuple(want) and is_int(got), lambda: f'{v} cast to {got}')
                    else:
                        ctx.raises(ValueError, lambda: cu.safe_int_cast(T(v)), f'cast of {v}')
                    ctx.eval(f'{b} {pos} {e}')
                for tol, e2, ok2 in ((.1, .05, 1), (.1, .2, 0), (1e-9, 1e-6, 0)):
                    v = list(map(float, b))
                    v[pos] -= e2
                    if ok2:
                        ctx.check(tuple(cu.safe_int_cast(v, tol=tol)) == b, 'tolerance')
                    else:
                        ctx.raises(ValueError, lambda: cu.safe_int_cast(v, tol=tol), f'cast of {v} to {tol}')


def run_errors(ctx):
    c = cu.convert_idc
    syms = crystal.crystalStructures['cubic'].symmetries
    for what, f in (
            ('nothing to convert', lambda: c('m')), ('both', lambda: c('m', dir=(1, 0, 0), plane=(1, 0, 0))),
            ('type', lambda: c('x', dir=(1, 0, 0))), ('type', lambda: c('x', plane=(1, 0, 0))),
            ('length', lambda: c('m', dir=(1, 0, 0, 0))), ('length', lambda: c('m', plane=(1, 0, 0, 0))),
            ('length', lambda: c('mb', dir=(1, 0, 0))), ('length', lambda: c('mb', plane=(1, 0, 0))),
            ('nothing to project', lambda: cu.project_to_orth(1)), ('both', lambda: cu.project_to_orth(1, dir=(1, 0, 0), plane=(1, 0, 0))),
            ('length', lambda: cu.project_to_orth(1, dir=(1, 0, 0))), ('length', lambda: cu.project_to_orth(1, plane=(1, 0, -1, 0), in_type='m')),
            ('type', lambda: cu.project_to_orth(1, dir=(1, 0, 0), in_type='q')),
            ('nothing', lambda: cu.equavlent_indicies('cubic', syms)), ('both', lambda: cu.equavlent_indicies('cubic', syms, dir=(1, 0, 0), plane=(1, 0, 0))),
            ('length', lambda: cu.equavlent_indicies('cubic', syms, dir=(1, 0, 0, 0))),
            ('type', lambda: cu.equavlent_indicies('cubic', syms, dir=(1, 0, 0), in_type='z')),
            ('convention', lambda: cu.create_l_matrix(1, 1, 1, 1, 1, 1, convention='abc')),
            ('not an integer', lambda: cu.str_idx(1.5)), ('not an integer', lambda: cu.idc_to_string((1, .5)))):
        ctx.raises(ValueError, f, what)
        ctx.eval()


def run(case, ctx):
    k = case['kind']
    f = globals()['run_' + k]
    if k in ('lattice', 'cast', 'errors'):
        f(ctx)
    else:
        f(ctx, case)


if __name__ == '__main__':
    check.main(globals())
