"""Driver shared by all checks.

A check module defines
    PROP, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> list of JSON-able case descriptions (the bounded space, complete)
    run(case, ctx)   -> explores one case on the real code; reports through ctx
and calls  main(globals()).

Every case of the list is run (in a fixed order, on 8 worker processes).  A worker that
hangs or dies while it runs a case is reported as a violation of that case.
"""
import argparse
import collections
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import env

HANG_S = float(os.environ.get('VERIF_HANG_S', '90'))
MAX_VIOL = int(os.environ.get('VERIF_MAX_VIOL', '5'))


class Violation(Exception):
    pass


class StopCase(Exception):
    pass


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Ctx:
    """What one case reports: errors, states, transitions, evaluations."""

    def __init__(self, case):
        self.case = case
        self.errors = []        # (key, text)
        self.states = set()
        self.trans = 0
        self.evals = 0
        self.nontriv = set()
        self.traces = 0
        self.notes = collections.Counter()

    def state(self, obj):
        """Record a state; True if it is new in this case."""
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        self.trans += n

    def trace(self, n=1):
        """One complete model trace was replayed on the implementation."""
        self.traces += n

    def eval(self, key=None, n=1):
        """n evaluations; key identifies a non-trivial one."""
        self.evals += n
        if key is not None:
            self.nontriv.add(digest(key))

    def note(self, name, n=1):
        self.notes[name] += n

    def fail(self, text, key=''):
        self.errors.append((key, str(text)[:1500]))
        if len(self.errors) >= 3:
            raise StopCase()

    def check(self, cond, text, key=''):
        if not cond:
            self.fail(text() if callable(text) else text, key)
            return False
        return True

    def raises(self, excs, fn, text, key=''):
        try:
            fn()
        except excs:
            return True
        except Exception as e:      # noqa
            self.fail(f'{text}: raised {type(e).__name__}: {e}', key)
            return False
        self.fail(f'{text}: no error was raised', key)
        return False

    def pack(self):
        return dict(errors=self.errors, states=self.states, trans=self.trans,
                    evals=self.evals, nontriv=self.nontriv, traces=self.traces,
                    notes=dict(self.notes))


class _Silent:
    def __enter__(self):
        self._out = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self._out


def run_case(mod, case):
    ctx = Ctx(case)
    with _Silent():
        try:
            mod['run'](case, ctx)
        except StopCase:
            pass
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
            ctx.errors.append(('exception', f'{type(e).__name__}: {e} at {loc}'[:1500]))
        finally:
            plt = sys.modules.get('matplotlib.pyplot')
            if plt is not None and plt.get_fignums():
                plt.close('all')
    return ctx.pack()


def _worker(mod, cases, conn, cur):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if 'worker_init' in mod:
        with _Silent():
            mod['worker_init']()
    while True:
        idxs = conn.recv()
        if idxs is None:
            conn.close()
            os._exit(0)
        out = []
        for i in idxs:
            cur[0] = i
            cur[1] = time.monotonic()
            out.append((i, run_case(mod, cases[i])))
        conn.send(out)


class _W:
    def __init__(self, mod, cases):
        self.cur = mp.get_context('fork').RawArray('d', [-1.0, 0.0])
        ctx = mp.get_context('fork')
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(target=_worker, args=(mod, cases, child, self.cur), daemon=True)
        self.proc.start()
        child.close()
        self.batch = None

    def give(self, idxs):
        self.batch = list(idxs)
        self.cur[0] = idxs[0]
        self.cur[1] = time.monotonic()
        self.conn.send(self.batch)


def _explore(mod, cases, nproc, deadline, agg):
    n = len(cases)
    pending = collections.deque(range(n))
    viol = []
    done = 0
    capped = False
    bsize = max(1, min(16, n // (nproc * 8)))
    workers = [_W(mod, cases) for _ in range(min(nproc, max(1, n)))]

    def replace(w, reason):
        i = int(w.cur[0])
        viol.append((i, 'process', reason))
        try:
            w.proc.kill()
            w.proc.join(5)
        except Exception:
            pass
        rest = [j for j in w.batch if j > i] if i in w.batch else []
        # results of earlier cases of the batch are lost with the worker: run them again
        before = [j for j in w.batch if j < i]
        pending.extendleft(reversed(before + rest))
        workers.remove(w)
        if pending:
            workers.append(_W(mod, cases))

    try:
        while True:
            stop = len({v[0] for v in viol}) >= MAX_VIOL
            if time.monotonic() > deadline and pending:
                capped = True
                pending.clear()
            if stop:
                pending.clear()
                break
            for w in workers:
                if w.batch is None and pending:
                    w.give([pending.popleft() for _ in range(min(bsize, len(pending)))])
            busy = [w for w in workers if w.batch is not None]
            if not busy:
                break
            ready = mp.connection.wait([w.conn for w in busy], timeout=0.5)
            for w in busy:
                if w.conn in ready:
                    try:
                        out = w.conn.recv()
                    except (EOFError, OSError):
                        w.proc.join(5)
                        replace(w, f'the process died while it ran this case (exit code {w.proc.exitcode})')
                        continue
                    w.batch = None
                    for i, res in out:
                        done += 1
                        agg(i, res)
                        for key, text in res['errors']:
                            viol.append((i, key, text))
                elif time.monotonic() - w.cur[1] > mod.get('HANG_S', HANG_S):
                    replace(w, 'this case does not terminate')
    finally:
        for w in workers:
            try:
                if w.batch is None:
                    w.conn.send(None)
                else:
                    w.proc.kill()
            except Exception:
                pass
        for w in workers:
            w.proc.join(2)
            if w.proc.is_alive():
                w.proc.kill()
    return viol, done, capped


def known_findings(prop):
    out = {}
    p = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                f = dict(x.split('=', 1) for x in line[8:].split(None, 2)[:2])
                if f.get('property') == prop:
                    out[f['key']] = line[8:].split(None, 2)[2]
    return out


def main(mod):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    prop = mod['PROP']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.monotonic()
    evdir = os.path.join(env.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if 'setup' in mod:
        # it only warms up what the cases share, so what goes wrong in it is left to the cases to report
        def too_long(*_):
            raise TimeoutError

        old = signal.signal(signal.SIGALRM, too_long)
        signal.alarm(180)
        try:
            with _Silent():
                mod['setup'](a.tier)
        except Exception:
            pass
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    if a.replay:
        rep = json.load(open(a.replay))
        cases = [rep['case']]
        deadline = t0 + 3600
    else:
        cases = list(mod['cases'](a.tier))
        # one spelling for cases, however they are made (tuples become lists, ...)
        cases = json.loads(json.dumps(cases))
        deadline = t0 + (a.budget or (600 if a.tier == 'quick' else 6 * 3600))

    if a.tier != 'quick':
        # the cases are larger, and shorter limits would only depend on the load of the machine
        mod = {**mod, 'HANG_S': 6 * mod.get('HANG_S', HANG_S)}

    tot = dict(states=set(), trans=0, evals=0, nontriv=set(), traces=0, notes=collections.Counter())
    samples = []

    def agg(i, res):
        tot['states'] |= res['states']
        tot['trans'] += res['trans']
        tot['evals'] += res['evals']
        tot['nontriv'] |= res['nontriv']
        tot['traces'] += res['traces']
        tot['notes'].update(res['notes'])

    viol, done, capped = _explore(mod, cases, a.jobs, deadline, agg)
    for i in sorted({0, len(cases) // 3, (2 * len(cases)) // 3, len(cases) - 1}):
        if 0 <= i < len(cases):
            s = json.dumps(cases[i])
            samples.append(s if len(s) < 600 else s[:600] + '...')

    known = known_findings(prop)
    seen_known = {}
    new = []
    for i, key, text in sorted(viol):
        if key in known:
            seen_known[key] = known[key]
        else:
            new.append((i, key, text))
    for key, text in seen_known.items():
        print(f'KNOWN-FINDING: property={prop} {text}')

    # one file per property, from the first violating case
    path = os.path.join(evdir, f'replay_{prop}.json')
    if new:
        i, key, text = new[0]
        if not a.replay:
            json.dump(dict(property=prop, case=cases[i], key=key, what=text,
                           others=[dict(case=cases[j], what=t) for j, k, t in new[1:4]]),
                      open(path, 'w'), indent=1)
        else:
            path = a.replay
    elif not a.replay and os.path.exists(path):
        os.remove(path)

    wall = time.monotonic() - t0
    if not a.replay:
        cov = dict(exhaustive=bool(not capped and done == len(cases)), cases=done,
                   cases_in_bound=len(cases), rule=mod['RULE'], samples=samples)
        if mod['LEVEL'] == 'model_checking':
            cov.update(states=len(tot['states']), transitions=tot['trans'],
                       traces_validated_against_impl=tot['traces'])
        if mod['LEVEL'] == 'exploration' or tot['evals']:
            cov.update(evaluations=tot['evals'], distinct_nontrivial=len(tot['nontriv']))
        if tot['notes']:
            cov['counts'] = dict(sorted(tot['notes'].items()))
        ev = dict(property=prop, tier=a.tier, seed=seed, level=mod['LEVEL'], coverage=cov,
                  assumptions=mod.get('ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(new))
        tmp = os.path.join(evdir, f'.{prop}.json.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(evdir, f'{prop}.json'))

    print(f'{prop} {a.tier}: {done}/{len(cases)} cases, {len(tot["states"])} states, {tot["trans"]} transitions, '
          f'{tot["traces"]} traces, {tot["evals"]} evaluations ({len(tot["nontriv"])} non-trivial), {wall:.1f} s'
          + (' CAPPED' if capped else ''))
    if new:
        print(f'  case: {json.dumps(cases[new[0][0]])[:1500]}')
        for i, key, text in new[:6]:
            print(f'  [{i}] {key} {text}')
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)
