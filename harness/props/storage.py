"""C28: results depend on the values given, not on how they are stored or passed."""
import copy
import numpy as np
from harness import ref
from harness.core import TARGET, deep_equal
from harness.props import filters, purity
from harness.props.symbols import const
from harness.props.est import prbs_enum


def stored(ctx, v, kind):
    """The values of v in another memory layout or type."""
    every = tuple(slice(None, None, 2) for _ in v.shape)
    back = tuple(slice(None, None, -1) for _ in v.shape)
    if kind == 'read-only':
        w = v.copy()
        w.flags.writeable = False
        return w
    if kind == 'strided':
        w = np.full(tuple(2 * n + 1 for n in v.shape), 99, dtype=v.dtype)
        s = w[tuple(slice(0, 2 * n, 2) for n in v.shape)]
        s[...] = v
        return s
    if kind == 'reversed view':
        return v[back].copy()[back]
    if kind == 'column order':
        return np.asfortranarray(v)
    if kind == 'big endian':
        return v.astype(v.dtype.newbyteorder('>'))
    return v.astype(kind)


def b_capture(ctx):
    """Integer captures of a PRBS through an integer channel with a dominant tap: the phase is unambiguous."""
    name = ctx.pick('NRZ', 'PAM4')
    t = prbs_enum(7)
    m = 2 if name == 'PAM4' else 1
    bits, _ = TARGET.fn('tx.prbs_gen')(TARGET.load().get_polynomial(t), purity._seed(ctx, 7), 127 * 3 * m)
    gray = bool(ctx.rng.integers(0, 2))
    s = TARGET.fn('tx.bin2symbol')(np.asarray(bits), 2 ** m)
    if gray:
        s = TARGET.fn('tx.coding_gray')(s, const(name))
    x = ref.levels(name)[np.asarray(s)]
    y = np.convolve(x, [7, 1, -1])[:len(x)] + ctx.rng.integers(0, 2, len(x))
    if ctx.rng.random() < 0.4:
        return 'channel_estimation_prbs', (t, y, const(name)), {'channel_postcursor': 5, 'channel_precursor': 2, 'gray_coding': gray, 'normalize': bool(ctx.rng.integers(0, 2))}
    kw = {'ffe_postcursor': 3, 'ffe_precursor': 2, 'dfe_taps': int(ctx.rng.integers(0, 3)), 'normalize': bool(ctx.rng.integers(0, 2)),
          'regularization': ctx.pick('None', 'ridge'), 'reg_lambda': 0.1}
    if ctx.rng.random() < 0.5:
        return 'equalization_estimation_prbs', (t, y, const(name)), dict(kw, gray_coded=gray)
    return 'equalization_estimation', (x, y), kw


def b_long(ctx):
    """Long integer data: sums over it leave the range of the narrow types."""
    r = ctx.rng
    n = int(ctx.pick(500, 4000, 20000) * r.uniform(0.7, 1.5))
    which = ctx.pick('lock', 'lock_binary', 'mm', 'power', 'rms', 'ddlms', 'diff', 'line', 'checker', 'econ', 'zoh', 'eq', 'hamming')
    lv = np.array([-3., -1, 1, 3])
    if which == 'lock':
        p = r.integers(0, 4, n) if r.random() < 0.5 else r.integers(-100, 101, n)
        return 'rx.lock_pattern_to_signal', (p, np.roll(p, int(r.integers(0, n)))), {}
    if which == 'lock_binary':
        p = r.integers(0, 2, n)
        return 'rx.lock_pattern_to_signal_binary', (p, np.roll(p, int(r.integers(0, n)))), {}
    if which == 'mm':
        d = r.choice(lv, n)
        return 'rx.mueller_muller_step', (d * 30 + r.integers(-9, 10, n), d), {'tol': 1e-3}
    if which in ('power', 'rms'):
        return which, (r.integers(-120, 121, n),), {}
    if which == 'ddlms':
        return 'rx.ddlms_grad', (r.integers(-120, 121, n), r.integers(-120, 121, n), lv), {'ffe_tap_idx': np.arange(-1, 3), 'dfe_tap_idx': np.arange(1, 3)}
    if which == 'diff':
        c, m = purity.const(ctx)
        return ctx.pick('tx.coding_differential', 'rx.decoding_differential'), (r.integers(0, m, n), c), {}
    if which == 'line':
        return ctx.pick('tx.coding_manchester', 'tx.coding_bipolar', 'tx.coding_mlt3', 'tx.coding_differential_manchester'), (r.integers(0, 2, n),), {}
    if which in ('checker', 'econ'):
        t = prbs_enum(int(ctx.pick(7, 9, 11)))
        d = np.array(TARGET.fn('tx.prbs_gen')(TARGET.load().get_polynomial(t), purity._seed(ctx, t.value), n)[0])
        d[r.integers(0, n, 5)] ^= 1
        return ('rx.prbs_checker', (t, d, False), {}) if which == 'checker' else ('rx.prbs_checker_econ', (t, d), {})
    if which == 'zoh':
        return ctx.pick('zoh', 'upsample'), (r.integers(-120, 121, 200), int(r.integers(2, 200))), {}
    if which == 'eq':
        return 'rx.ffe_dfe', (r.integers(-120, 121, 400),), {'ffe_taps': np.array([100., -120, 90, 110])[:int(r.integers(2, 5))]}
    return 'hamming', (r.integers(0, 2, (3, n)), r.integers(0, 2, (2, n))), {}


SKIP = {purity.b_est}
BUILDERS = [b for b in purity.BUILDERS if b not in SKIP] + [b_capture, purity.b_lms, purity.b_equalizer, b_long, b_long]
KEEP_REAL = {('rx.demapping', 0), ('channel.pulse_shape', 'zi')}        # rounding would leave the valid range
NARROW = ('int8', 'int16', 'int32', 'int64')
UNSIGNED = ('uint8', 'uint16', 'uint32')


def loose(a, b, rtol):
    """Same structure, shape and values, whatever the types."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(loose(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(loose(a[k], b[k], rtol) for k in a)
    if isinstance(a, (np.ndarray, np.generic, float, int)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or b.dtype == object:
            return False
        a, b = a.astype(complex), b.astype(complex)
        return bool(np.allclose(a, b, rtol=rtol, atol=rtol * (1 + np.max(np.abs(a), initial=0, where=np.isfinite(a))), equal_nan=True))
    return deep_equal(a, b)


def ambiguous(ctx, name, args, kw):
    """Is there a near tie which rounding may break either way?"""
    if name.startswith('rx.lock_pattern'):
        p, s = np.asarray(args[0], dtype=float), np.asarray(args[1], dtype=float)
        if 'binary' in name:
            p, s = 2 * p - 1, 2 * s - 1
        if len(s) < len(p):
            return True
        n = len(p)
        c = np.sort(np.fft.ifft(np.fft.fft(p) * np.conj(np.fft.fft(s[:n]))).real)
        return n > 1 and c[-1] - c[-2] < 1e-6 * (1 + abs(c[-1]))
    if name == 'rx.mueller_muller_step':
        x, d = np.asarray(args[0], dtype=float), np.asarray(args[1], dtype=float)
        n = len(d) - 1
        w = kw.get('pre_weight', 1)
        v = np.dot(d[:-1], x[1:]) / n - w * np.dot(d[1:], x[:-1]) / n
        return abs(abs(v) - kw.get('tol', 1e-3)) < 1e-9 * (1 + np.max(np.abs(x)) * np.max(np.abs(d)))
    if name == 'rx.ffe_dfe' and kw.get('dfe_taps') is not None:
        lv = kw.get('levels')
        lv = np.array([-3., -1, 1, 3]) if lv is None else np.asarray(lv, dtype=float)
        y = ctx.call(name, *copy.deepcopy(args), **copy.deepcopy(kw))
        y = np.asarray(y[0] if isinstance(y, tuple) else y, dtype=float)
        return bool(np.min(ref.slicer_margin(y, lv), initial=1.0) < 1e-8)
    if name in ('rx.ddlms_grad', 'rx.soft_ddlms_grad', 'eye_diagram'):
        return None
    return False


def storage(ctx):
    """One call with its arrays in canonical form, then with the same values stored differently."""
    name, args, kw = BUILDERS[int(ctx.rng.integers(0, len(BUILDERS)))](ctx)
    args = list(args)
    slots = [(args, i) for i, v in enumerate(args) if isinstance(v, np.ndarray)] + [(kw, k) for k, v in kw.items() if isinstance(v, np.ndarray)]
    if not slots:
        return ctx.seen('no arrays')
    whole = ctx.rng.random() < 0.6
    for d, i in slots:
        v = np.ascontiguousarray(d[i])
        if v.dtype.kind in 'biu':
            v = v.astype(np.int64)
        elif v.dtype.kind == 'f' and whole and (name, i) not in KEEP_REAL and not name.startswith(('rx.ctle', 'rx.get_ctle', 'eye')) and i not in ('levels', 't'):
            v = np.round(v * 8)
            v = np.clip(v, -120, 120)
        d[i] = v
    if name == 'tx.mapping' and 'levels' in kw or name == 'rx.slicer' and 'levels' in kw:
        kw['levels'] = np.asarray(kw['levels'], dtype=float)
    amb = ambiguous(ctx, name, tuple(args), kw)
    if amb:
        return ctx.seen(name, 'near tie')
    base = copy.deepcopy(ctx.call(name, *copy.deepcopy(args), **copy.deepcopy(kw)))
    done = []
    for _ in range(3):
        a2, k2 = copy.deepcopy(args), copy.deepcopy(kw)
        how = []
        for d, i in slots:
            tgt = a2 if d is args else k2
            v = d[i]
            kinds = ['same', 'read-only', 'strided', 'reversed view', 'column order', 'big endian']
            if np.all(v == np.round(v)) and np.max(np.abs(v), initial=0) < 128 and i != 'zi':
                kinds += [k for k in NARROW if not str(i).endswith('tap_idx') or k in ('int32', 'int64')] * 2
                if v.dtype.kind == 'i' and np.all(v >= 0) and not str(i).endswith('tap_idx') and name != 'rx.demapping':
                    kinds += list(UNSIGNED)
            k = ctx.pick(*kinds)
            if k != 'same':
                tgt[i] = stored(ctx, v, k)
            how.append((i, k))
            ctx.seen(name, k)
        rtol = 1e-5 if name == 'psa:psa' else 1e-8                       # the spectrum of short integers is computed in single precision
        res = ctx.call(name, *a2, **k2)
        ctx.expect(loose(base, res, rtol), '%s depends on how its arguments are stored' % name, how=how, first=base, again=res, args=args, kw=kw)
        for d, i in slots:
            tgt = a2 if d is args else k2
            ctx.expect(np.array_equal(tgt[i], d[i]), '%s changed an argument' % name, how=how)
        done.append(how)
    ctx.note(True, name=name, args=args, kw=kw, how=done)


def objects(ctx):
    """Filter objects and the PRBS iterator built from and fed with the same values in another form."""
    which = ctx.pick('iterator', 'Filter', 'FilterTII', 'FfeDfeFilterTII')
    n = ctx.length(4, 60, 200)
    if which == 'iterator':
        t = purity.prbs(ctx, 7, 9, 11, 13, 15, 31)
        args = [np.array(TARGET.load().get_polynomial(t)), purity._seed(ctx, t.value)]
        make, x = 'tx.PrbsIterator', None
    else:
        make = 'misc.help_classes:' + which
        x = np.clip(np.round(filters.sig(ctx, n) * 8), -120, 120)
        if which == 'FfeDfeFilterTII':
            ffe, dfe, lv = filters.eq_setup(ctx, 1)
            args = [ffe, np.concatenate([[1.0], dfe]), np.array([-3., -1, 1, 3]) if lv is None else np.asarray(lv, dtype=float)]
        else:
            b, a = filters.stable_ab(ctx)
            args = [np.asarray(b, dtype=float), np.asarray(a, dtype=float)]

    def run(a, sig):
        o = ctx.call(make, *a)
        if which == 'iterator':
            return np.array([int(ctx.invoke('PrbsIterator.__next__', next, o)) for _ in range(n)])
        return np.asarray(ctx.invoke(which + '.__call__', o, sig), dtype=float)
    base = run(copy.deepcopy(args), None if x is None else x.copy())
    if which == 'FfeDfeFilterTII' and np.min(ref.slicer_margin(base, args[2])) < 1e-8:
        return ctx.seen('object', 'near tie')
    how = []
    a2 = copy.deepcopy(args)
    for i, v in enumerate(args):
        kinds = ['same', 'read-only', 'strided', 'reversed view', 'big endian'] + (list(NARROW) + list(UNSIGNED) if which == 'iterator' else [])
        k = ctx.pick(*kinds)
        a2[i] = v.copy() if k == 'same' else stored(ctx, v, k)
        how.append(k)
    if x is not None:
        k = ctx.pick('read-only', 'strided', 'reversed view', 'int8', 'int16', 'int32', 'int64', 'big endian')
        how.append(k)
        x2 = stored(ctx, x, k)
    else:
        x2 = None
    got = run(a2, x2)
    ctx.expect(loose(base, got, 1e-8), '%s depends on how its data is stored' % make, how=how, first=base, again=got)
    ctx.note(True, which=which, args=args, x=x, how=how)
    ctx.seen('object', which, *how)


C28 = [('storage', storage, 12), ('objects', objects, 2)]
