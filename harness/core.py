"""Runtime-monitoring core.

A property module declares *workloads* (functions ``case(ctx)``).  Workloads drive the real CommDspy code of /repo
through ``ctx.call`` and hand what they observed to oracles through ``ctx.expect*``.  The core

* runs the workloads in 8 worker processes, many cases after one another in each, so that state leaking from one call
  to a later one is observed too;
* records every call of the code under test (the event log: function, outcome, argument shapes) and every oracle
  decision, and condenses them into the evidence file;
* tells an exception of the code under test (a violation on a valid input) from an exception of the harness
  (inconclusive, exit 2);
* writes a replay file for a violation and re-runs the failing case before reporting it.
"""
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

from harness.signatures import restyle, SIGS
from harness.nearmiss import prior

PRIORS = {n for n in SIGS if not n.startswith('example_') and n != 'tx.PrbsIterator'}

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHARDS = 8
CASE_LIMIT_S = 150
MEMORY_LIMIT = 3 << 30                     # of one worker process, in bytes


def limit_memory(limit=MEMORY_LIMIT):
    resource.setrlimit(resource.RLIMIT_AS, (limit, resource.getrlimit(resource.RLIMIT_AS)[1]))


def lift_memory():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}


class TargetError(Violation):
    """The code under test raised on an input for which it has to answer."""


def describe(obj, limit=64):
    """Short JSON-able description of a value (arrays: dtype, shape and a prefix)."""
    if isinstance(obj, np.ndarray):
        flat = obj.reshape(-1)
        head = flat[:limit]
        vals = [complex(v).__repr__() for v in head] if np.iscomplexobj(obj) else head.tolist()
        out = {'dtype': str(obj.dtype), 'shape': list(obj.shape), 'values': vals}
        if flat.size > limit:
            out['sha1'] = hashlib.sha1(np.ascontiguousarray(obj).tobytes()).hexdigest()[:16]
        return out
    if isinstance(obj, (np.integer,)):
        return int(obj)
    if isinstance(obj, (np.floating,)):
        return float(obj)
    if isinstance(obj, (np.bool_,)):
        return bool(obj)
    if isinstance(obj, dict):
        return {str(k): describe(v, limit) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        if len(obj) > limit:
            return {'len': len(obj), 'values': [describe(v, limit) for v in obj[:limit]]}
        return [describe(v, limit) for v in obj]
    if obj is None or isinstance(obj, (int, float, str, bool)):
        return obj
    return str(obj)


def digest(*objs):
    h = hashlib.sha1()

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in o:
                h.update(repr(k).encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'[')
            for v in o:
                feed(v)
            h.update(b']')
        else:
            h.update(repr(o).encode())
    for o in objs:
        feed(o)
    return h.hexdigest()[:16]


def deep_equal(a, b):
    """Bitwise structural equality (NaN equals NaN)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in 'fc':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    return a is b or a == b


class Target:
    """The code under test, always imported from REPO's current tree."""
    def __init__(self):
        self.cdsp = None
        self.cache = {}

    def load(self):
        if self.cdsp is None:
            if REPO not in sys.path:
                sys.path.insert(0, REPO)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                import CommDspy
            where = os.path.realpath(os.path.dirname(CommDspy.__file__))
            if where != os.path.realpath(os.path.join(REPO, 'CommDspy')):
                raise RuntimeError('CommDspy imported from %s, not from %s' % (where, REPO))
            self.cdsp = CommDspy
        return self.cdsp

    def fn(self, name):
        """'tx.mapping' -> CommDspy.tx.mapping ; 'misc.least_squares:least_squares' -> module attribute."""
        if name not in self.cache:
            self.load()
            if ':' in name:
                mod, attr = name.split(':')
                obj = importlib.import_module(('CommDspy.' + mod) if not mod.startswith('example_simulation') else mod)
                for part in attr.split('.'):
                    obj = getattr(obj, part)
            else:
                obj = self.cdsp
                for part in name.split('.'):
                    obj = getattr(obj, part)
            self.cache[name] = obj
        return self.cache[name]


TARGET = Target()


class Ctx:
    """Context of one case: random source, calls into the target, oracle decisions and the event log."""
    def __init__(self, rng, stats, tier):
        self.rng = rng
        self.stats = stats
        self.tier = tier
        self.log = []
        self.params = {}
        self.nontrivial = False
        self.known = []

    # -- calling the code under test -----------------------------------------------------------------------------
    def call(self, name, *args, **kw):
        args, kw, dropped = restyle(name, args, kw, self.rng)
        for d in dropped:
            self.stats['states']['default:%s:%s' % (name, d)] += 1
        func = TARGET.fn(name)
        if name in PRIORS and self.rng.random() < 0.05:
            prior(self, name, func, args, kw)
        return self._invoke(name, func, args, kw)

    def invoke(self, name, func, *args, **kw):
        """Call a bound method or object of the target under the given event name."""
        return self._invoke(name, func, args, kw)

    def _invoke(self, name, func, args, kw):
        self.stats['calls'][name] += 1
        self.log.append((name, args, kw))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return func(*args, **kw)
        except Exception as exc:
            if isinstance(exc, MemoryError):
                lift_memory()                  # room to report
            raise TargetError('%s raised %s: %s' % (name, type(exc).__name__, str(exc)[:300]),
                              {'call': name, 'raised': type(exc).__name__, 'args': describe(list(args)), 'kwargs': describe(kw),
                               'trace': traceback.format_exc()[-1500:]})

    def call_raises(self, name, exc_type, *args, **kw):
        """The call must refuse its input with exc_type."""
        self.stats['calls'][name] += 1
        self.stats['oracle'] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                res = TARGET.fn(name)(*args, **kw)
        except exc_type:
            return
        except Exception as exc:
            raise Violation('%s raised %s instead of %s' % (name, type(exc).__name__, exc_type.__name__),
                            {'args': describe(list(args)), 'kwargs': describe(kw)})
        raise Violation('%s accepted an input it has to refuse' % name,
                        {'args': describe(list(args)), 'kwargs': describe(kw), 'result': describe(res)})

    # -- oracles -------------------------------------------------------------------------------------------------
    def expect(self, cond, what, **detail):
        self.stats['oracle'] += 1
        if not cond:
            raise Violation(what, {k: describe(v) for k, v in detail.items()})

    def expect_equal(self, got, want, what, **detail):
        """Same shape and exactly the same values (dtype may differ)."""
        self.stats['oracle'] += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
        except Exception:
            raise Violation(what, {'got': describe(got), 'want': describe(want)})
        if g.shape != w.shape:
            raise Violation(what + ' (shape %s instead of %s)' % (g.shape, w.shape),
                            {'got': describe(g), 'want': describe(w), **{k: describe(v) for k, v in detail.items()}})
        if g.size and not np.array_equal(g, w):
            bad = np.flatnonzero(np.reshape(g != w, -1))
            raise Violation(what + ' (%d of %d values differ, first at %d: got %r want %r)' % (
                len(bad), g.size, bad[0], g.reshape(-1)[bad[0]], w.reshape(-1)[bad[0]]),
                {'got': describe(g), 'want': describe(w), **{k: describe(v) for k, v in detail.items()}})

    def expect_close(self, got, want, what, rtol=1e-9, atol=None, scale=None, **detail):
        """Same shape, and |got-want| <= atol (default rtol * the largest magnitude involved)."""
        self.stats['oracle'] += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(what + ' (shape %s instead of %s)' % (g.shape, w.shape),
                            {'got': describe(g), 'want': describe(w), **{k: describe(v) for k, v in detail.items()}})
        if g.size == 0:
            return
        if g.dtype == object or not np.all(np.isfinite(g)):
            raise Violation(what + ' (non-finite result)',
                            {'got': describe(g), 'want': describe(w), **{k: describe(v) for k, v in detail.items()}})
        if atol is None:
            s = scale if scale is not None else max(float(np.max(np.abs(w))), 1e-300)
            atol = rtol * s
        err = np.abs(g - w).reshape(-1)
        if np.max(err) > atol:
            i = int(np.argmax(err))
            raise Violation(what + ' (error %.3g > %.3g at %d: got %r want %r)' % (
                err[i], atol, i, g.reshape(-1)[i], w.reshape(-1)[i]),
                {'got': describe(g), 'want': describe(w), **{k: describe(v) for k, v in detail.items()}})

    # -- bookkeeping ---------------------------------------------------------------------------------------------
    def note(self, nontrivial=True, **params):
        """Record what this case is; its digest counts it as a distinct case."""
        self.params.update(params)
        self.nontrivial = self.nontrivial or nontrivial

    def seen(self, *state):
        """Record an observed state/condition (a coverage point of the monitor)."""
        self.stats['states'][':'.join(str(s) for s in state)] += 1

    # -- input shaping -------------------------------------------------------------------------------------------
    def lay(self, arr, unsigned=True):
        """The same values in one of several memory layouts a caller may legitimately use."""
        arr = np.asarray(arr)
        if arr.dtype == np.int64 and arr.size and self.rng.random() < 0.3:
            lo, hi = int(arr.min()), int(arr.max())
            kinds = [k for k in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32)
                     if np.iinfo(k).min <= lo and hi <= np.iinfo(k).max and (unsigned or np.iinfo(k).min < 0)]
            if kinds:                                   # the same integers in a narrower type
                arr = arr.astype(kinds[int(self.rng.integers(0, len(kinds)))])
        mode = self.rng.integers(0, 8)
        if arr.ndim == 0 or arr.size == 0 or mode < 5:
            return arr.copy()
        if mode == 5:       # strided view
            big = np.zeros(arr.shape[:-1] + (arr.shape[-1] * 2,), dtype=arr.dtype)
            big[..., ::2] = arr
            return big[..., ::2]
        if mode == 6:       # reversed view
            return arr[..., ::-1].copy()[..., ::-1]
        return np.asfortranarray(arr.copy())

    def bits(self, n):
        """Binary stream: uniform, biased, run-heavy, constant or alternating."""
        r = self.rng
        kind = r.integers(0, 8)
        if kind <= 3:
            return r.integers(0, 2, n)
        if kind == 4:
            return (r.random(n) < r.choice([0.05, 0.95])).astype(int)
        if kind == 5:
            return np.repeat(r.integers(0, 2, n // 5 + 1), 5)[:n]
        if kind == 6:
            return np.full(n, int(r.integers(0, 2)))
        return (np.arange(n) + int(r.integers(0, 2))) % 2

    def pick(self, *opts):
        return opts[int(self.rng.integers(0, len(opts)))]

    def length(self, lo=1, hi=64, big=None, huge=None):
        """Boundary-biased length: mostly small, often special (powers of two +-1), sometimes big, rarely huge."""
        r = self.rng
        if huge is not None and r.random() < 0.005:
            if huge >= 70000 and r.random() < 0.05:
                huge = 15 * huge
            return int(r.integers(big if big is not None else hi, huge + 1))
        k = r.integers(0, 10)
        if k <= 5:
            v = int(r.integers(lo, hi + 1))
        elif k <= 7:
            p = int(2 ** r.integers(0, max(1, int(np.log2(max(hi, 2))) + 1)))
            v = p + int(r.integers(-1, 2))
        elif big is not None and k == 9:
            v = int(r.integers(hi, big + 1))
        else:
            v = int(r.integers(lo, min(hi, lo + 4) + 1))
        return int(min(max(v, lo), big if big is not None else hi))

    def split(self, n, small=False):
        """Random cut of n items into consecutive chunks (1-sized, short, long, whole)."""
        r = self.rng
        mode = r.integers(0, 5)
        cuts = []
        left = n
        while left > 0:
            if mode == 0:
                c = 1 if n <= 400 else int(r.integers(1, max(2, n // 50)))
            elif mode == 1:
                c = int(r.integers(1, 8)) if n <= 2000 else int(r.integers(1, max(2, n // 50)))
            elif mode == 2:
                c = int(r.integers(1, left + 1))
            elif mode == 3:
                c = max(1, n // int(r.integers(1, 7)))
            else:
                c = int(r.choice([1, 2, 3, max(1, left // 2), left]))
                if n > 2000:
                    c = max(c, n // 60)
            c = min(c, left)
            cuts.append(c)
            left -= c
        return cuts


# ---------------------------------------------------------------------------------------------------------------------
# Running
# ---------------------------------------------------------------------------------------------------------------------
def _on_alarm(signum, frame):
    raise Violation('the call did not return within %d s' % CASE_LIMIT_S)


def _rng_for(prop, seed, shard, index):
    num = int(''.join(ch for ch in prop if ch.isdigit()))
    return np.random.default_rng([int(seed) & 0xffffffff, num, shard, index])


def _new_stats():
    return {'calls': Counter(), 'oracle': 0, 'states': Counter(), 'cases': Counter()}


def run_case(mod, prop, seed, shard, index, tier, stats):
    """Run one case; returns None or a violation record.  Harness errors propagate."""
    plan = mod['plan']
    name, func = plan[index % len(plan)]
    rng = _rng_for(prop, seed, shard, index)
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    ctx = Ctx(rng, stats, tier)
    signal.alarm(CASE_LIMIT_S)
    try:
        try:
            func(ctx)
        except (Violation, MemoryError, OSError):
            raise
        except Exception as exc:
            # the sweeps over many seeds show that the oracles handle every well-formed result, so a result they
            # cannot even interpret (wrong kind, wrong number of returned values, ...) is itself an observation
            raise Violation('uninterpretable result: %s: %s' % (type(exc).__name__, str(exc)[:200]),
                            {'trace': traceback.format_exc()[-1500:]})
        finally:
            signal.alarm(0)
    except Violation as v:
        log = [{'call': n, 'args': describe(list(a)), 'kwargs': describe(k)} for n, a, k in ctx.log[-4:]]
        return {'property': prop, 'case': name, 'seed': seed, 'shard': shard, 'index': index, 'tier': tier,
                'what': v.what, 'detail': v.detail, 'params': describe(ctx.params), 'last_calls': log}, ctx
    return None, ctx


def _expand(mod):
    """Interleave the workloads by weight into a repeating plan."""
    total = []
    for name, func, weight in mod['workloads']:
        for k in range(weight):
            total.append(((k + 0.5) / weight, name, func))
    total.sort(key=lambda t: t[0])
    mod['plan'] = [(n, f) for _, n, f in total]


def _worker(args):
    prop, modname, seed, shard, tier, ncases, deadline = args
    mod = load_prop(modname)
    signal.signal(signal.SIGALRM, _on_alarm)
    limit_memory()
    stats = _new_stats()
    out = {'violations': [], 'known': [], 'harness_error': None, 'digests': set(), 'samples': [], 'n': 0,
           'truncated': False}
    try:
        TARGET.load()
    except Exception as exc:
        out['violations'].append({'property': prop, 'case': 'import', 'seed': seed, 'shard': shard, 'index': -1,
                                  'tier': tier, 'what': 'CommDspy cannot be imported: %r' % exc, 'detail': {},
                                  'params': {}, 'last_calls': []})
        out['stats'] = stats
        return out
    mod['prepare']()
    index = -1
    try:
        for index in range(ncases):
            if time.time() > deadline:
                out['truncated'] = True
                break
            vio, ctx = run_case(mod, prop, seed, shard, index, tier, stats)
            out['n'] += 1
            for k in ctx.known:
                if k not in out['known']:
                    out['known'].append(k)
            cname = mod['plan'][index % len(mod['plan'])][0]
            stats['cases'][cname] += 1
            if vio is not None:
                out['violations'].append(vio)
                if len(out['violations']) >= 3:
                    break
                continue
            if ctx.nontrivial:
                d = digest(cname, ctx.params) if ctx.params else digest(cname, index)
                new = d not in out['digests']
                out['digests'].add(d)
                if new and len(out['samples']) < 2 and index % 7 == shard % 7:
                    out['samples'].append({'case': cname, 'params': describe(ctx.params, 12)})
    except Exception:
        out['harness_error'] = 'shard %d index %d: %s' % (shard, index, traceback.format_exc())
    out['stats'] = stats
    return out


def load_prop(modname):
    name, _, attr = modname.partition(':')
    m = importlib.import_module('harness.props.' + name)
    mod = {'workloads': getattr(m, attr or 'WORKLOADS'), 'mod': m, 'prepare': getattr(m, 'prepare_' + attr, lambda: None)}
    _expand(mod)
    return mod


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


def run_property(prop, modname, tier, seed, counts, need, rule, assumptions, cap_s, level='exploration'):
    """Run all shards, write the evidence, print the verdict and return the exit status."""
    t0 = time.time()
    deadline = t0 + cap_s
    jobs = [(prop, modname, seed, s, tier, counts, deadline) for s in range(SHARDS)]
    ctx = mp.get_context('fork')
    try:
        TARGET.load()
    except Exception:
        pass                                   # reported by the workers
    with ctx.Pool(min(SHARDS, max(1, os.cpu_count() or 1)), maxtasksperchild=1) as pool:
        try:
            res = pool.map_async(_worker, jobs, chunksize=1).get(timeout=cap_s + 2 * CASE_LIMIT_S)
        except mp.TimeoutError:
            print('INCONCLUSIVE property=%s a worker did not answer' % prop, file=sys.stderr)
            return 2
    calls, states, cases = Counter(), Counter(), Counter()
    oracle = n = 0
    digests, samples, vios, known, errs = set(), [], [], [], []
    truncated = False
    for r in res:
        calls += r['stats']['calls']
        states += r['stats']['states']
        cases += r['stats']['cases']
        oracle += r['stats']['oracle']
        n += r['n']
        digests |= r['digests']
        samples += r['samples']
        vios += r['violations']
        truncated |= r['truncated']
        for k in r['known']:
            if k not in known:
                known.append(k)
        if r['harness_error']:
            errs.append(r['harness_error'])
    listed = load_known(prop)
    unlisted = [k for k in known if not any(k == x for x in listed)]
    for k in unlisted:
        vios.append({'property': prop, 'case': 'finding', 'seed': seed, 'shard': -1, 'index': -1, 'tier': tier,
                     'what': k, 'detail': {}, 'params': {}, 'last_calls': []})
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': int(n), 'oracle_decisions': int(oracle), 'distinct_nontrivial': len(digests), 'rule': rule,
            'samples': samples[:8], 'cases_by_workload': dict(cases),
            'target_calls_observed': int(sum(calls.values())), 'calls_by_function': dict(calls.most_common()),
            'monitor_states_observed': dict(states.most_common(int(os.environ.get('VERIF_STATES', 80)))), 'distinct_monitor_states': len(states),
            'time_cap_reached': truncated,
        },
        'assumptions': assumptions, 'wall_s': round(wall, 2),
        'violations': len(vios),
        'violation_list': [{'what': v['what'], 'case': v['case'], 'shard': v['shard'], 'index': v['index']}
                           for v in vios[:5]],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if vios:
        vios.sort(key=lambda v: (v['index'], v['shard']))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(vios[:3]):
            path = os.path.join(rdir, '%s-%s-%d.json' % (prop, tier, i))
            v['module'] = modname
            v['replay_with'] = '/verif/check %s --replay %s' % (prop, path)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('  [%s] %s' % (v['case'], v['what'][:400]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        print('INCONCLUSIVE property=%s harness error: %s' % (prop, errs[0]), file=sys.stderr)
        return 2
    if len(digests) < need or oracle == 0:
        print('INCONCLUSIVE property=%s only %d distinct cases observed (need %d)' % (prop, len(digests), need),
              file=sys.stderr)
        return 2
    print('OK property=%s tier=%s cases=%d distinct=%d target_calls=%d oracle_decisions=%d states=%d wall=%.1fs' % (
        prop, tier, n, len(digests), sum(calls.values()), oracle, len(states), wall))
    return 0


def replay(path):
    v = json.load(open(path))
    mod = load_prop(v['module'])
    TARGET.load()
    mod['prepare']()
    if v['index'] < 0:
        print('not a replayable case: %s' % v['what'])
        return 1
    signal.signal(signal.SIGALRM, _on_alarm)
    stats = _new_stats()
    vio, _ = run_case(mod, v['property'], v['seed'], v['shard'], v['index'], v['tier'], stats)
    if vio is None:
        print('case alone passes; replaying the whole history of shard %d' % v['shard'])
        for i in range(v['index'] + 1):
            vio, _ = run_case(mod, v['property'], v['seed'], v['shard'], i, v['tier'], stats)
            if vio is not None:
                break
    if vio is None:
        print('not reproduced on the current tree')
        return 0
    print(json.dumps(vio, indent=1, default=str))
    print('VIOLATION property=%s replay=%s' % (v['property'], path))
    return 1
