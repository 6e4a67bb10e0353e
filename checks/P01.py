"""P01: every history of data store operations, in lockstep with a plain-dict model."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, check          # noqa: E402
env.import_defdap()
from defdap.utils import Datastore   # noqa: E402

PROP = 'P01'
LEVEL = 'model_checking'
RULE = ('every sequence of store operations of the stated length over the alphabet below, run on a new '
        'store and compared with a plain-dict model after every operation; all items are read at the end')
ASSUMPTIONS = ['items and values are from the alphabet in checks/P01.py; generator functions are the '
               'counting stand-ins of the check', 'the store is used through its public mapping interface']


class Boom(Exception):
    pass


class Gen:
    """A counting generator with a script of outcomes."""

    def __init__(self, name, n, fails=()):
        self.name, self.n, self.fails, self.calls = name, n, set(fails), 0

    def __call__(self, **kw):
        self.calls += 1
        if self.calls in self.fails:
            raise Boom(self.name)
        if self.n == 1:
            return f'{self.name}{self.calls}'
        if self.n == -1:          # wrong number of values
            return ['x', 'y', 'z']
        return [f'{self.name}{self.calls}.{i}' for i in range(self.n)]


GENS = {
    'g': (('g',), 1, (), {}),
    'pq': (('p', 'q'), 2, (), {}),
    'f': (('f',), 1, (1,), {}),            # fails the first time
    'u': (('u',), 1, (), {'save': False}),  # not kept
    'w': (('w', 'v'), -1, (), {}),         # wrong number of values
    'tn': (('t', 'n'), 2, (), {}),         # only one of two outputs is kept
}
GEN_META = {
    'g': [{'unit': 'px', 'order': 1}],
    'pq': [{'unit': 'P', 'type': 'map'}, {'unit': 'Q'}],
    'f': None, 'u': [{'save': False}], 'w': None,
    'tn': [{'save': False, 'unit': 'T'}, {'unit': 'N'}],
}
GEN_KW = {'pq': {'order': 2}, 'g': {'order': 7}}


def crop(x, binning=1, **kw):
    return ('crop', binning, x)


def mask(x, **kw):
    return ('mask', x)


# ---- model -------------------------------------------------------------------------
class Model:
    def __init__(self):
        self.items = {}       # key -> dict(data=, meta...)
        self.gens = {}        # key -> (name, keys)
        self.calls = {}

    def run_gen(self, name):
        keys, n, fails, _ = GENS[name]
        c = self.calls[name] = self.calls.get(name, 0) + 1
        if c in fails:
            return 'Boom', None
        if n == -1:
            return 'ValueError', None
        vals = {k: (f'{name}{c}' if n == 1 else f'{name}{c}.{i}') for i, k in enumerate(keys)}
        for k in keys:
            if self.items[k].get('save', True):
                self.items[k]['data'] = vals[k]
        return None, vals

    def read(self, k):
        if k not in self.items:
            return 'KeyError', None
        it = self.items[k]
        v = it['data']
        if v is None and k in self.gens:
            err, vals = self.run_gen(self.gens[k])
            if err:
                return err, None
            v = vals[k]
        if it.get('type') == 'map':
            if not it.get('cropped', False):
                v = crop(v, binning=it.get('binning', 1))
            if it.get('apply_mask', True):
                v = mask(v)
        return None, v


def m_apply(m, op):
    """Model answer: (error name or None, value)."""
    o = op[0]
    if o == 'add':
        _, k, v, meta = op
        if k in m.items:
            return 'ValueError', None
        m.items[k] = dict(data=v, **meta)
        return None, None
    if o == 'addgen':
        name = op[1]
        keys = GENS[name][0]
        if keys[0] in m.items:
            return 'ValueError', None
        for i, k in enumerate(keys):
            meta = dict(GEN_META[name][i]) if GEN_META[name] else {}
            meta.update(GEN_KW.get(name, {}))
            m.items[k] = dict(data=None, **meta)
            m.gens[k] = name
        return None, None
    if o in ('read', 'readattr'):
        return m.read(op[1])
    if o == 'readmeta':
        _, k, a = op
        if k not in m.items or a not in m.items[k]:
            return 'KeyError', None
        return None, m.items[k][a]
    if o in ('set', 'setattr'):
        _, k, v = op
        if k not in m.items:
            return 'ValueError', None
        m.items[k]['data'] = v
        return None, None
    if o == 'setmeta':
        _, k, a, v = op
        if k not in m.items:
            return 'ValueError', None
        m.items[k][a] = v
        return None, None
    if o == 'generate':
        k = op[1]
        if k not in m.gens:
            return 'DataGenerationError', None
        err, vals = m.run_gen(m.gens[k])
        return (err, None) if err else (None, vals[k])
    if o == 'update':
        for k, v in OTHER.items():
            if op[1] == 'self' and k in m.items:
                continue
            m.items[k] = dict(v)
        return None, None
    raise AssertionError(op)


OTHER = {'a': {'data': 'oa', 'unit': 'O'}, 'z': {'data': 'oz'}, 'g': {'data': 'og'}}


# ---- implementation ----------------------------------------------------------------
class Impl:
    def __init__(self):
        self.ds = Datastore(crop_func=crop, mask_func=mask)
        self.gens = {}

    def apply(self, op):
        ds = self.ds
        o = op[0]
        if o == 'add':
            ds.add(op[1], op[2], **op[3])
        elif o == 'addgen':
            name = op[1]
            keys, n, fails, _ = GENS[name]
            g = Gen(name, n, fails)
            meta = GEN_META[name]
            if meta is not None:
                meta = [dict(x) for x in meta]
            ds.add_generator(keys[0] if len(keys) == 1 else keys, g,
                             metadatas=meta[0] if meta and len(keys) == 1 else meta, **GEN_KW.get(name, {}))
            self.gens[name] = g
        elif o == 'read':
            return ds[op[1]]
        elif o == 'readattr':
            return getattr(ds, op[1])
        elif o == 'readmeta':
            return ds[op[1], op[2]]
        elif o == 'set':
            ds[op[1]] = op[2]
        elif o == 'setattr':
            setattr(ds, op[1], op[2])
        elif o == 'setmeta':
            ds[op[1], op[2]] = op[3]
        elif o == 'generate':
            return ds.generate(op[1], return_val=True)
        elif o == 'update':
            other = Datastore()
            for k, v in OTHER.items():
                other.add(k, v['data'], **{a: b for a, b in v.items() if a != 'data'})
            if op[1] == 'self':
                ds.update(other, priority='self')
            else:
                ds.update(other)
            self.other = other
            for k, v in OTHER.items():
                if other[k] != v['data'] or other.get_metadata(k, 'unit') != v.get('unit'):
                    return 'OTHER CHANGED'
            if sorted(other) != sorted(OTHER):
                return 'OTHER CHANGED'
        return None


METAS = ('unit', 'order', 'type', 'save', 'note')


def compare(m, im, ctx, hist):
    ds = im.ds
    keys = list(ds)
    ctx.check(sorted(keys) == sorted(m.items) and sorted(ds.keys()) == sorted(keys) and len(ds) == len(m.items),
              lambda: f'after {hist}: items {sorted(keys)} (len {len(ds)}), expected {sorted(m.items)}')
    for k in ('a', 'b', 'g', 'p', 'q', 'f', 'u', 'z', 'm', 'nope'):
        ctx.check((k in ds) == (k in m.items), lambda: f'after {hist}: membership of {k} is {k in ds}')
        for a in METAS:
            want = m.items.get(k, {}).get(a, 'dflt')
            got = ds.get_metadata(k, a, 'dflt')
            ctx.check(got == want, lambda: f'after {hist}: metadata {a} of {k} is {got!r}, expected {want!r}')
    for n, g in im.gens.items():
        ctx.check(g.calls == m.calls.get(n, 0),
                  lambda: f'after {hist}: generator {n} ran {g.calls} times, expected {m.calls.get(n, 0)}')


def step(m, im, op, ctx, hist):
    want_err, want = m_apply(m, op)
    got_err = got = None
    try:
        got = im.apply(op)
    except Exception as e:
        got_err = type(e).__name__
    ctx.step()
    ctx.check(got_err == want_err and (want_err or got == want),
              lambda: f'{hist}: last operation gave {got_err or got!r}, expected {want_err or want!r}')


ALPHABET = [
    ('add', 'a', 'va', {'unit': 'U'}),
    ('add', 'm', 'vm', {'type': 'map', 'binning': 2}),
    ('addgen', 'g'), ('addgen', 'pq'), ('addgen', 'f'), ('addgen', 'u'), ('addgen', 'w'), ('addgen', 'tn'),
    ('read', 'a'), ('read', 'm'), ('read', 'g'), ('read', 'p'), ('read', 'q'), ('read', 'f'), ('read', 'u'),
    ('read', 'w'), ('read', 't'), ('read', 'n'), ('read', 'z'),
    ('readattr', 'g'), ('readmeta', 'a', 'unit'), ('readmeta', 'p', 'order'),
    ('set', 'a', 0), ('set', 'g', 'sg'), ('set', 'q', 'sq'), ('setattr', 'p', 'sp'),
    ('setmeta', 'a', 'note', 'N'), ('setmeta', 'm', 'cropped', True), ('setmeta', 'm', 'apply_mask', False),
    ('setmeta', 'g', 'save', False), ('setmeta', 'p', 'type', None),
    ('generate', 'g'), ('generate', 'q'), ('generate', 'a'),
    ('update', None), ('update', 'self'),
]
DEPTH = {'quick': 3, 'thorough': 4}
BFS_DEPTH = {'quick': 5, 'thorough': 8}


def cases(tier):
    pre = [[], [2, 3], [0, 1, 4, 5], [2, 3, 6, 7]]
    out = [dict(kind='seq', pre=p, first=i, depth=DEPTH[tier]) for p in pre for i in range(len(ALPHABET))]
    out += [dict(kind='bfs', pre=p, depth=BFS_DEPTH[tier], first=i) for p in pre[:1] for i in range(len(ALPHABET))]
    return out


def play(idx, ctx):
    m, im = Model(), Impl()
    hist = []
    for i in idx:
        op = ALPHABET[i]
        hist.append(op)
        step(m, im, op, ctx, hist)
    compare(m, im, ctx, hist)
    return m, im, hist


def finish(m, im, ctx, hist):
    for k in list(m.items) + ['nope']:
        step(m, im, ('read', k), ctx, hist + [('read', k)])
        step(m, im, ('read', k), ctx, hist + [('read', k)] * 2)
    compare(m, im, ctx, hist + ['read all'])
    ctx.trace()


def canon(m):
    return (sorted((k, sorted(v.items(), key=repr)) for k, v in m.items.items()),
            sorted((g, min(c, 3)) for g, c in m.calls.items()))


def run(case, ctx):
    n = len(ALPHABET)
    if case['kind'] == 'seq':
        for tail in itertools.product(range(n), repeat=case['depth'] - 1):
            m, im, hist = play(case['pre'] + [case['first']] + list(tail), ctx)
            ctx.state(canon(m))
            finish(m, im, ctx, hist)
    else:
        # histories to a greater depth, one representative per model state
        frontier = [case['pre'] + [case['first']]]
        cap = 1500 if case['depth'] <= 5 else 20000
        for d in range(case['depth'] - 1):
            nxt = []
            for h in frontier:
                for i in range(n):
                    m, im, hist = play(h + [i], ctx)
                    if ctx.state(canon(m)):
                        finish(m, im, ctx, hist)
                        nxt.append(h + [i])
            if len(nxt) > cap:
                ctx.note('deep search stopped at depth %d' % (d + 2))
                break
            frontier = nxt


if __name__ == '__main__':
    check.main(globals())
