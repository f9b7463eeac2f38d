"""Closely related calls: what a library that remembers earlier calls (by an incomplete key, or by reference) trips over."""
import copy
import warnings
import numpy as np


WORDS = [('rect', 'sinc', 'rcos', 'rrc', 'imp'), ('lagrange', 'sinc', 'rcos'), ('u', 's', 'ss'), ('None', 'ridge', 'lasso'), ('dB', 'dBm', 'dBm/Hz', 'dBc', 'dBFs'),
         ('blackmanharris', 'hann', 'boxcar')]


def nearly(ctx, v):
    """Another value of the same kind and shape: the kind of difference a careless memory of earlier calls overlooks."""
    r = ctx.rng
    if isinstance(v, np.ndarray):
        if v.size == 0:
            return v.copy()
        w, k = v.copy(), int(r.integers(0, 5))
        if k == 0:
            return np.ascontiguousarray(r.permutation(w.reshape(-1)).reshape(w.shape))
        if k == 1:
            return np.ascontiguousarray(w[::-1])
        i = int(r.integers(0, w.size)) if k != 4 else w.size - 1
        flat = w.reshape(-1)
        if w.dtype.kind == 'b':
            flat[i] = not flat[i]
        elif w.dtype.kind in 'iu':
            lo, hi = int(w.min()), max(int(w.max()), int(w.min()) + 1)
            flat[i] = min(lo + hi - int(flat[i]), int(np.iinfo(w.dtype).max))
        elif k == 3:
            flat *= 1.25
        else:
            flat[i] = flat[i] * 1.5 + 0.25
        return flat.reshape(w.shape)
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return int(v) + int(ctx.pick(-1, 1)) if v > 1 else int(v) + 1
    if isinstance(v, float):
        return v * 1.25 + 0.01
    if isinstance(v, str):
        pool = [w for w in WORDS if v in w]
        return ctx.pick(*pool[int(r.integers(0, len(pool)))]) if pool else v
    if isinstance(v, (list, tuple)) and len(v):
        i = int(r.integers(0, len(v)))
        return type(v)(nearly(ctx, w) if k == i else w for k, w in enumerate(v))
    if isinstance(v, dict) and len(v):
        i = ctx.pick(*v)
        return {k: nearly(ctx, w) if k == i else w for k, w in v.items()}
    if hasattr(type(v), '__members__'):
        return ctx.pick(*[m for m in type(v) if m.value < 20])
    return v


def near_miss(ctx, job):
    """The same call with one argument a little different."""
    name, args, kw = job
    keys = list(range(len(args))) + list(kw)
    key = keys[int(ctx.rng.integers(0, len(keys)))]
    if isinstance(key, int):
        return name, tuple(nearly(ctx, a) if i == key else a for i, a in enumerate(args)), kw
    return name, args, {k: nearly(ctx, v) if k == key else v for k, v in kw.items()}


def spoil(obj):
    """Overwrite everything mutable inside a result a caller received."""
    if isinstance(obj, np.ndarray):
        if obj.flags.writeable and obj.size:
            obj[...] = obj.dtype.type(1) if obj.dtype.kind == 'b' else 77
    elif isinstance(obj, dict):
        for v in obj.values():
            spoil(v)
        obj.clear()
    elif isinstance(obj, list):
        for v in obj:
            spoil(v)
        del obj[:]
    elif isinstance(obj, tuple):
        for v in obj:
            spoil(v)


def weight(obj):
    if isinstance(obj, np.ndarray):
        return obj.size
    if isinstance(obj, dict):
        return sum(weight(v) for v in obj.values())
    if isinstance(obj, (list, tuple)):
        return len(obj) if obj and isinstance(obj[0], (int, float)) else 1 + sum(weight(v) for v in obj)
    return abs(int(obj)) if isinstance(obj, (int, np.integer)) else 1


def prior(ctx, name, func, args, kw):
    """Before a call: the same call, with its result overwritten by the caller, or the call with one argument changed (which
    the library may also refuse).  A pure library answers the call itself as if nothing had happened."""
    if weight(args) + weight(kw) > 3000:
        return
    args, kw = copy.deepcopy(args), copy.deepcopy(kw)
    if ctx.rng.random() < 0.5 and name != 'buffer':
        try:
            changed = near_miss(ctx, (name, args, kw))
        except (OverflowError, ValueError, TypeError):      # no such neighbour
            return
        if not any(type(v).__name__ == 'PrbsEnum' for v in list(changed[1]) + list(changed[2].values())):
            _, args, kw = changed
    state = np.random.get_state()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            spoil(func(*args, **kw))
    except Exception:
        pass
    np.random.set_state(state)
    ctx.stats['states']['earlier call:%s' % name] += 1
