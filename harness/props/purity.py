"""C24: every public function is a function of its arguments: inputs untouched, repeatable, history independent."""
import copy
import random
import numpy as np
from harness.core import TARGET, TargetError, deep_equal
from harness.fresh import Fresh
from harness.nearmiss import near_miss, spoil
from harness.props import codes, filters


def const(ctx, names=('NRZ', 'OOK', 'PAM3', 'PAM4')):
    name = ctx.pick(*names)
    return getattr(TARGET.load().ConstellationEnum, name), {'NRZ': 2, 'OOK': 2, 'PAM3': 3, 'PAM4': 4}[name]


def prbs(ctx, *orders):
    return getattr(TARGET.load().PrbsEnum, 'PRBS%d' % ctx.pick(*orders))


def _seed(ctx, n):
    s = ctx.rng.integers(0, 2, n)
    s[int(ctx.rng.integers(0, n))] = 1
    return s


def _block(ctx, m, even=False):
    n = ctx.length(2, 40, 300)
    n += n % 2 if even else 0
    x = ctx.rng.integers(0, m, n)
    return ctx.lay(x if ctx.rng.random() < 0.6 or n % 2 else x.reshape(2, -1) if (n // 2) % 2 == 0 or not even else x)


def _flags(ctx):
    return {k: bool(ctx.rng.integers(0, 2)) for k in ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv')}


def b_prbs(ctx):
    t = prbs(ctx, 7, 9, 11, 13, 15, 31)
    return ('tx.prbs_gen', (TARGET.load().get_polynomial(t), _seed(ctx, t.value), ctx.length(1, 200, 3000)), {})


def b_bin2symbol(ctx):
    m = ctx.pick(2, 4, 8, 16)
    k = int(np.log2(m))
    n = k * ctx.length(1, 60, 300)
    x = ctx.bits(n + (int(ctx.rng.integers(0, k)) if ctx.rng.random() < 0.5 else 0))       # bits too few for a symbol
    if n % 2 == 0 and len(x) == n and ctx.rng.random() < 0.3:
        x = x.reshape(2, -1)
    return 'tx.bin2symbol', (ctx.lay(x), m), _flags(ctx)


def b_symbol2bin(ctx):
    m = ctx.pick(2, 4, 8, 16)
    return 'rx.symbol2bin', (_block(ctx, m), m), _flags(ctx)


def b_gray(ctx):
    c, m = const(ctx, ('NRZ', 'OOK', 'PAM4'))
    return ctx.pick('tx.coding_gray', 'rx.decoding_gray'), (_block(ctx, m), c), {}


def b_diff(ctx):
    c, m = const(ctx)
    return ctx.pick('tx.coding_differential', 'rx.decoding_differential'), (_block(ctx, m), c), {}


def b_line(ctx):
    name = ctx.pick('tx.coding_manchester', 'tx.coding_bipolar', 'tx.coding_mlt3', 'tx.coding_differential_manchester')
    return name, (_block(ctx, 2),), {}


def b_unline(ctx):
    kind = ctx.pick('manchester', 'bipolar', 'mlt3', 'differential_manchester')
    y = TARGET.fn('tx.coding_' + kind)(ctx.bits(ctx.length(2, 60, 300)))
    if kind == 'bipolar' and ctx.rng.random() < 0.5:
        return 'rx.decoding_bipolar', (y,), {'error_detection': True}
    return 'rx.decoding_' + kind, (y,), {}


def b_linear(ctx):
    k = int(ctx.rng.integers(1, 5))
    G = np.concatenate([np.eye(k, dtype=int), ctx.rng.integers(0, 2, (k, int(ctx.rng.integers(1, 4))))], axis=1)
    if ctx.rng.random() < 0.4:
        return 'tx.coding_linear', (ctx.bits(k * ctx.length(1, 30) + int(ctx.rng.integers(0, k))), G), {}
    n = G.shape[1] * ctx.length(1, 30) + (int(ctx.rng.integers(0, G.shape[1])) if ctx.rng.random() < 0.3 else 0)
    if ctx.rng.random() < 0.5:
        return 'rx.decoding_linear', (ctx.bits(n), G), {}
    return 'rx.decoding_linear', (ctx.bits(n), G), {'error_prob': True}


def b_conv(ctx):
    G, fb, uf = codes.conv_code(ctx, 3, 2, 3, total_mem=4)
    kw = codes.code_args(fb, uf)
    if ctx.rng.random() < 0.5:
        if ctx.rng.random() < 0.5:
            kw['zi'] = {i: ctx.rng.integers(0, 2, G[i].shape[1] - 1) for i in G}
        return 'tx.coding_conv', (ctx.bits(len(G) * ctx.length(1, 40) + int(ctx.rng.integers(0, len(G)))), G), kw
    n_out = G[0].shape[0]
    tb = n_out * int(ctx.rng.integers(2, 4))
    n = tb * int(ctx.rng.integers(1, 4)) + (int(ctx.rng.integers(0, tb)) if ctx.rng.random() < 0.3 else 0)
    name = ctx.pick('rx.decoding_conv_viterbi', 'rx.decoding_conv_ml')
    if ctx.rng.random() < 0.5:
        return name, (ctx.bits(n), G, tb), kw
    return name, (ctx.bits(n), G, tb), dict(kw, error_prob=True)


def b_map(ctx):
    c, m = const(ctx)
    kw = {'full_scale': bool(ctx.rng.integers(0, 2)), 'pn_inv': bool(ctx.rng.integers(0, 2))}
    if ctx.rng.random() < 0.3:
        kw['levels'] = np.sort(ctx.rng.normal(size=m))
    return 'tx.mapping', (_block(ctx, m), c), kw


def b_demap(ctx):
    c, m = const(ctx)
    fs = bool(ctx.rng.integers(0, 2))
    lv = TARGET.load().get_levels(c, fs)
    return 'rx.demapping', (ctx.lay(np.asarray(lv)[_block(ctx, m)], unsigned=False), c), {'full_scale': fs, 'pn_inv': bool(ctx.rng.integers(0, 2))}


def b_slice(ctx):
    kw = {} if ctx.rng.random() < 0.4 else {'levels': ctx.pick(np.array([-1., 1]), np.array([3., -1, 1, -3]), np.array([0, 1]))}
    x = ctx.rng.normal(size=ctx.length(1, 60, 500)) * 3
    return 'rx.slicer', (ctx.lay(x if len(x) % 2 or ctx.rng.random() < 0.6 else x.reshape(-1, 2)),), kw


def b_quant(ctx):
    return 'rx.quantize', (ctx.lay(ctx.rng.normal(size=ctx.length(1, 60, 500)) * 20), int(ctx.rng.integers(2, 12))), {
        'frac_bits': int(ctx.rng.integers(-2, 3)), 'fix_point_type': ctx.pick('u', 'ss', 's')}


def b_checker(ctx):
    t = prbs(ctx, 7, 9)
    p = 2 ** t.value - 1
    d, _ = TARGET.fn('tx.prbs_gen')(TARGET.load().get_polynomial(t), _seed(ctx, t.value), p + ctx.length(0, 200))
    d = np.array(d)
    for i in ctx.rng.integers(0, len(d), int(ctx.rng.integers(0, 4))):
        d[i] ^= 1
    if ctx.rng.random() < 0.3:
        return 'rx.prbs_checker_econ', (t, d), {'loss_th': ctx.pick(1, 100)}
    kw = {'loss_th': ctx.pick(1, 100)}
    if ctx.rng.random() < 0.4:
        kw['prbs_seq'] = np.array(TARGET.fn('tx.prbs_gen')(TARGET.load().get_polynomial(t), _seed(ctx, t.value), p)[0])
        return 'rx.prbs_checker', (t, d, bool(ctx.rng.integers(0, 2))), kw
    return 'rx.prbs_checker', (t, d, False), kw


def b_lock(ctx):
    p = ctx.rng.integers(0, 2, ctx.length(8, 60))
    s = np.roll(np.tile(p, 3), int(ctx.rng.integers(0, len(p))))[:ctx.length(8, 120)]
    if ctx.rng.random() < 0.5:
        return 'rx.lock_pattern_to_signal_binary', (p, s), {}
    return 'rx.lock_pattern_to_signal', (2.0 * p - 1, 2.0 * s - 1 + 0.1 * ctx.rng.normal(size=len(s))), {}


def b_ctle(ctx):
    z, p, g, fs, osr = filters.ctle_params(ctx)
    z, p = ctx.pick((list(z), list(p)), (np.array(z), np.array(p)))
    if ctx.rng.random() < 0.3:
        return 'rx.get_ctle_filter', (z, p, g, fs, osr), {}
    kw = {}
    if ctx.rng.random() < 0.4:
        b, a = TARGET.fn('rx.get_ctle_filter')(list(z), list(p), g, fs, osr)
        kw['zi'] = ctx.rng.normal(size=max(len(np.atleast_1d(a)), len(np.atleast_1d(b))) - 1)
    return 'rx.ctle', (ctx.rng.normal(size=ctx.length(2, 80, 400)), z, p, g), dict(kw, fs=fs, osr=osr)


def b_equalizer(ctx):
    ffe, dfe, lv = filters.eq_setup(ctx)
    kw = filters.ffe_kw(ffe, dfe, lv)
    osr = ctx.pick(1, 1, 2, 4)
    if osr > 1:
        kw.update(osr=osr, phase=int(ctx.rng.integers(0, osr)))
    if ctx.rng.random() < 0.4 and osr == 1:
        if len(ffe) > 1:
            kw['zi_ffe'] = ctx.rng.normal(size=len(ffe))
        if dfe is not None:
            kw['zi_dfe'] = np.asarray([-3., -1, 1, 3])[ctx.rng.integers(0, 4, len(dfe))]
    return 'rx.ffe_dfe', (filters.sig(ctx, osr * ctx.length(2, 60, 300)),), kw


def b_lms(ctx):
    n = ctx.length(12, 80, 300)
    x, y = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
    kw = {'ffe_tap_idx': np.arange(-1, 3), 'dfe_tap_idx': np.arange(1, 3)}
    if ctx.rng.random() < 0.4:
        kw['reference_vec'] = np.asarray([-3., -1, 1, 3])[ctx.rng.integers(0, 4, n)]
    if ctx.rng.random() < 0.3:
        kw = {}
    return ctx.pick('rx.ddlms_grad', 'rx.soft_ddlms_grad'), (x, y, np.array([-3., -1, 1, 3])), kw


def b_mm(ctx):
    n = ctx.length(6, 60)
    return 'rx.mueller_muller_step', (ctx.rng.normal(size=n), ctx.rng.normal(size=n)), {'pre_weight': ctx.pick(1, 2), 'tol': ctx.pick(0.0, 1e-3)}


def b_pulse(ctx):
    kind = ctx.pick('rect', 'sinc', 'rcos', 'rrc')
    osr, span = int(ctx.rng.integers(1, 9)), int(ctx.rng.integers(1, 6))
    kw = {'t': ctx.rng.uniform(-4, 4, 20)} if ctx.rng.random() < 0.4 else {}
    args = (osr, span) if kind in ('rect', 'sinc') else (osr, span, ctx.pick(0.25, 0.5, 1.0))
    return 'channel.%s_pulse' % kind, args, kw


def b_shape(ctx):
    osr, span = int(ctx.rng.integers(1, 6)), int(ctx.rng.integers(1, 5))
    kw = {'osr': osr, 'span': span, 'pulse': ctx.pick('rect', 'sinc', 'rcos', 'rrc', 'imp'), 'beta': 0.5}
    if ctx.rng.random() < 0.4 and kw['pulse'] != 'imp':
        kw['zi'] = ctx.rng.normal(size=2 * span * osr - 1)
    return 'channel.pulse_shape', (filters.sig(ctx, ctx.length(2, 60)),), kw


def b_channel(ctx):
    b, a = filters.stable_ab(ctx)
    if ctx.rng.random() < 0.3:
        b, a = list(b), list(a)
    kw = {'zi': ctx.rng.normal(size=max(len(a), len(b)) - 1)} if ctx.rng.random() < 0.5 else {}
    return 'channel.awgn_channel', (filters.sig(ctx, ctx.length(2, 60)), b, a), kw


def b_aux(ctx):
    k = int(ctx.rng.integers(0, 11))
    cd = TARGET.load()
    if k == 0:
        return 'get_polynomial', (prbs(ctx, 7, 9, 11, 13, 15, 31),), {}
    if k == 1:
        return 'get_levels', (const(ctx)[0],), {'full_scale': bool(ctx.rng.integers(0, 2))}
    if k == 2:
        return ctx.pick('power', 'rms'), (ctx.rng.normal(size=ctx.length(1, 60)),), {}
    if k == 3:
        n = ctx.length(3, 80)
        m = int(ctx.rng.integers(1, n))
        return 'buffer', (ctx.rng.normal(size=n), m), {'overlap': int(ctx.pick(0, 1 if m > 1 else 0, -1)), 'clip': bool(ctx.rng.integers(0, 2)), 'delay': int(ctx.rng.integers(0, 3))}
    if k == 4:
        x = ctx.rng.normal(size=ctx.length(1, 40))
        return 'upsample', (ctx.pick(x, list(x)), int(ctx.rng.integers(1, 6))), {}
    if k == 5:
        return 'zoh', (ctx.rng.normal(size=ctx.length(1, 40)), int(ctx.rng.integers(1, 6))), {}
    if k == 6:
        return 'get_bin_perm', (int(ctx.rng.integers(1, 8)),), {}
    if k == 7:
        return 'get_gray_level_vec', (ctx.pick(2, 4, 8, 16),), {}
    if k == 8:
        l = int(ctx.rng.integers(1, 8))
        return 'hamming', (ctx.rng.integers(0, 2, (5, l)), ctx.rng.integers(0, 2, (3, l))), {}
    if k == 9:
        return 'bin2uint', (ctx.rng.integers(0, 2, (6, int(ctx.rng.integers(1, 12)))),), {}
    return 'uint2bin', (ctx.rng.integers(0, 255, 9), int(ctx.rng.integers(8, 12))), {}


def b_delay(ctx):
    k = ctx.pick('lagrange', 'sinc', 'rcos', 'over')
    if k == 'over':
        return 'digital_oversample', (ctx.rng.normal(size=ctx.length(12, 50)), int(ctx.rng.integers(1, 5)), ctx.pick(2, 4, 8), ctx.pick('lagrange', 'sinc', 'rcos')), {}
    return 'dig_delay_%s_coeffs' % k, (ctx.pick(2, 4, 8, 16), float(ctx.rng.random())), {'forward': bool(ctx.rng.integers(0, 2))}


def b_eye(ctx):
    osr = ctx.pick(4, 8)
    return 'eye_diagram', (ctx.rng.normal(size=osr * ctx.length(8, 40)), osr, ctx.pick(8, 16)), {
        'fs_value': 3, 'quantization': 32, 'logscale': bool(ctx.rng.integers(0, 2))}


def b_est(ctx):
    c, m = const(ctx, ('NRZ', 'PAM4'))
    t = prbs(ctx, 7)
    s = filters.sig(ctx, 400)
    if ctx.rng.random() < 0.5:
        return 'channel_estimation_prbs', (t, s, c), {'channel_postcursor': 5, 'channel_precursor': 2}
    kw = {'ffe_postcursor': 3, 'ffe_precursor': 2, 'dfe_taps': int(ctx.rng.integers(0, 3)), 'normalize': bool(ctx.rng.integers(0, 2)),
          'regularization': ctx.pick('None', 'ridge'), 'reg_lambda': 0.1}
    if ctx.rng.random() < 0.5:
        return 'equalization_estimation_prbs', (t, s, c), kw
    return 'equalization_estimation', (filters.sig(ctx, 400), s), kw


def b_ls(ctx):
    return 'misc.least_squares:least_squares', (ctx.rng.normal(size=(30, 4)), ctx.rng.normal(size=30)), {
        'regularization': ctx.pick('None', 'ridge', 'lasso'), 'reg_lambda': 0.05}


def b_psa(ctx):
    return 'psa:psa', (ctx.rng.normal(size=2000), 1e6), {'rbw': 2e4, 'mode': ctx.pick('dB', 'dBm'), 'window': ctx.pick('blackmanharris', 'hann')}


BUILDERS = [b_prbs, b_bin2symbol, b_symbol2bin, b_gray, b_diff, b_line, b_unline, b_linear, b_conv, b_map, b_demap, b_slice,
            b_quant, b_checker, b_lock, b_ctle, b_equalizer, b_lms, b_mm, b_pulse, b_shape, b_channel, b_aux, b_aux, b_delay, b_eye, b_est, b_ls, b_psa]


def same(a, b):
    """Same values: exactly, or to rounding for floating point data."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (np.ndarray, np.generic, float)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(a), initial=0, where=np.isfinite(a))), equal_nan=True)) if a.dtype.kind in 'fc' else bool(np.array_equal(a, b))
    return deep_equal(a, b)


def checked(ctx, name, args, kw, what):
    """Call on private copies and require that they come back untouched."""
    a, k = copy.deepcopy(args), copy.deepcopy(kw)
    state, pystate = np.random.get_state(), random.getstate()
    res = ctx.call(name, *a, **k)
    if what != 'random' and kw.get('regularization') != 'lasso':            # (the lasso solver takes a number it does not use)
        now = np.random.get_state()
        ctx.expect(state[2] == now[2] and np.array_equal(state[1], now[1]) and random.getstate() == pystate, '%s draws from the global random generator' % name, args=list(args), kw=kw)
    ctx.expect(deep_equal(list(a), list(args)) and deep_equal(k, kw), '%s modified its arguments (%s)' % (name, what),
               before=list(args), after=list(a), kw_before=kw, kw_after=k)
    return res


def pure(ctx):
    jobs = [BUILDERS[int(ctx.rng.integers(0, len(BUILDERS)))](ctx) for _ in range(4)]
    first = []
    for name, args, kw in jobs:
        res = checked(ctx, name, args, kw, 'first call')
        first.append(copy.deepcopy(res))
        if ctx.rng.random() < 0.5:
            spoil(res)
    order = ctx.rng.permutation(len(jobs))
    for rnd in range(2):
        for i in order[::-1] if rnd else order:
            name, args, kw = jobs[i]
            np.random.seed(int(ctx.rng.integers(0, 2 ** 31)))       # no hidden randomness in deterministic functions
            res = checked(ctx, name, args, kw, 'repeated call')
            ctx.expect(same(first[i], res), '%s answered differently when called again with the same arguments' % name,
                       first=first[i], again=res, args=list(args), kw=kw)
            spoil(res)
            ctx.seen(name, 'kw' if kw else 'plain')
    ctx.note(True, jobs=[(n, a, k) for n, a, k in jobs])


def settle(ctx, name, args, kw):
    """('returned', value) or ('raised', kind), as the library answers after all that was called before."""
    try:
        return 'returned', ctx.call(name, *args, **kw)
    except TargetError as exc:
        return 'raised', exc.detail['raised']


FRESH = []


def prepare_C24():
    for name in ('psa:psa', 'misc.least_squares:least_squares', 'misc.help_classes:Filter'):        # imported, not called
        TARGET.fn(name)
    FRESH[:] = [Fresh()]


def history(ctx):
    """A series of closely related calls; each answer is that of a library in which nothing was called before."""
    job = BUILDERS[int(ctx.rng.integers(0, len(BUILDERS)))](ctx)
    jobs = [job]
    for _ in range(int(ctx.rng.integers(1, 4))):
        k = int(ctx.rng.integers(0, 6))
        jobs.append(near_miss(ctx, jobs[0]) if k < 3 else near_miss(ctx, jobs[-1]) if k < 5 else jobs[0])
    held = None
    for name, args, kw in jobs:
        a, k = copy.deepcopy(args), copy.deepcopy(kw)
        if held is not None and ctx.rng.random() < 0.3 and len(held) == len(a):     # the same arrays, with new values in them
            for i, (old, new) in enumerate(zip(held, a)):
                if isinstance(old, np.ndarray) and old.shape == np.shape(new) and old.dtype == new.dtype and old.flags.writeable:
                    old[...] = new
                    a = a[:i] + (old,) + a[i + 1:]
        held = a
        want = FRESH[0](name, copy.deepcopy(args), copy.deepcopy(kw))
        if want[0] == 'no answer':              # a call too heavy to be repeated (the changed argument may be out of range)
            ctx.seen('history', name, 'no answer')
            continue
        got = settle(ctx, name, a, k)
        ctx.expect(got[0] == want[0] and same(want[1], got[1]), '%s depends on what was called before' % name, want=want[1], got=got[1], args=list(args), kw=kw)
        if ctx.rng.random() < 0.3:
            spoil(got[1])
        ctx.seen('history', name, got[0])
    ctx.note(True, jobs=[(n, a, k) for n, a, k in jobs])


def stochastic(ctx):
    """Functions with documented randomness: arguments untouched, shape as documented; the seed decides the result."""
    x = filters.sig(ctx, ctx.length(4, 60, 400))
    k = int(ctx.rng.integers(0, 3))
    if k == 0:
        name, args, kw = 'channel.awgn', (x,), {'snr': 20.0}
    elif k == 1:
        b, a = filters.stable_ab(ctx)
        name, args, kw = 'channel.awgn_channel', (x, b, a), {'snr': 15.0, 'zi': ctx.rng.normal(size=max(len(a), len(b)) - 1)}
    else:
        name, args, kw = 'channel.pulse_shape', (x,), {'osr': 4, 'span': 3, 'pulse': ctx.pick('rect', 'rcos', 'sinc', 'rrc'), 'rj_sigma': 0.05}
    state = np.random.get_state()
    res = checked(ctx, name, args, kw, 'random')
    keep = copy.deepcopy(res)
    spoil(res)
    np.random.set_state(state)
    again = checked(ctx, name, args, kw, 'random')
    ctx.seen(name, 'same seed same result' if same(keep, again) else 'own generator')
    ctx.note(True, name=name, args=args, kw=kw)


def defaults(ctx):
    """Default arguments are not consumed: explicit defaults and omitted ones agree, before and after other calls."""
    x = filters.sig(ctx, ctx.length(4, 60, 300))
    lv = np.array([-3., -1, 1, 3])
    a0 = np.asarray(ctx.call('rx.ffe_dfe', x.copy()))
    s0 = np.asarray(ctx.call('rx.slicer', x.copy()))
    g0 = ctx.call('rx.ddlms_grad', x.copy(), x[::-1].copy(), lv)
    for _ in range(3):
        name, args, kw = ctx.pick(b_equalizer, b_slice, b_lms, b_map)(ctx)
        spoil(ctx.call(name, *args, **kw))
    ctx.expect(same(a0, np.asarray(ctx.call('rx.ffe_dfe', x.copy()))), 'ffe_dfe defaults changed')
    ctx.expect(same(s0, np.asarray(ctx.call('rx.slicer', x.copy()))), 'slicer defaults changed')
    ctx.expect(same(s0, np.asarray(ctx.call('rx.slicer', x.copy(), levels=lv))), 'slicer default is PAM4')
    ctx.expect(same(g0, ctx.call('rx.ddlms_grad', x.copy(), x[::-1].copy(), lv)), 'gradient defaults changed')
    ctx.expect_close(a0, x, 'default equalizer passes the signal', rtol=1e-10)
    ctx.note(True, x=x)


def objects(ctx):
    """Stateful objects keep their state to themselves: what they are built from and fed with stays as it was, equal objects behave alike."""
    which = ctx.pick('iterator', 'iterator', 'Filter', 'FilterTII', 'FfeDfeFilterTII')
    n = ctx.length(4, 60, 200)
    if which == 'iterator':
        t = prbs(ctx, 7, 9, 11, 13, 15, 31)
        args = (np.array(TARGET.load().get_polynomial(t)), _seed(ctx, t.value))
        make = 'tx.PrbsIterator'
        x = [None] * n
    else:
        make = 'misc.help_classes:' + which
        x = filters.sig(ctx, n)
        if which == 'FfeDfeFilterTII':
            ffe, dfe, lv = filters.eq_setup(ctx, 1)
            lv = np.array([-3., -1, 1, 3]) if lv is None else lv
            args = (ffe, np.concatenate([[1.0], dfe]), lv)
            mem = max(len(ffe), len(dfe) + 1) - 1
        else:
            b, a = filters.stable_ab(ctx)
            args = (b, a)
            mem = max(len(a), len(b)) - 1
        if ctx.rng.random() < 0.6:
            if which == 'Filter':
                args = args + (ctx.rng.normal(size=len(args[0])), ctx.rng.normal(size=len(args[1]) - 1))
            else:
                args = args + (ctx.rng.normal(size=mem),)
    keep, xkeep = copy.deepcopy(args), copy.deepcopy(x)
    objs = [ctx.call(make, *args) for _ in range(2)]
    outs, pos = [[], []], [0, 0]
    while min(pos) < n:                                  # the two equal objects take turns
        k = int(ctx.rng.integers(0, 2))
        k = 1 - k if pos[k] >= n else k
        c = min(int(ctx.rng.integers(1, 12)), n - pos[k])
        if which == 'iterator':
            got = [int(ctx.invoke('PrbsIterator.__next__', next, objs[k])) for _ in range(c)]
        else:
            got = np.asarray(ctx.invoke(which + '.__call__', objs[k], x[pos[k]:pos[k] + c]))
        outs[k] += list(got)
        if which != 'iterator' and ctx.rng.random() < 0.5:
            spoil(got)
        pos[k] += c
        ctx.expect(deep_equal(list(args), list(keep)), '%s modified what it was built from' % make, before=list(keep), after=list(args))
    ctx.expect(deep_equal(x, xkeep), '%s modified the data it was fed' % make)
    third = ctx.call(make, *args)
    if which == 'iterator':
        ref_out = [int(ctx.invoke('PrbsIterator.__next__', next, third)) for _ in range(n)]
    else:
        ref_out = np.asarray(ctx.invoke(which + '.__call__', third, x))
    for k in (0, 1):
        ctx.expect(same(np.asarray(outs[k], dtype=float), np.asarray(ref_out, dtype=float)), 'equal %s objects behave alike' % which, got=outs[k], want=ref_out)
    ctx.note(True, which=which, args=args, x=x)
    ctx.seen('object', which, len(args))


C24 = [('pure', pure, 12), ('history', history, 6), ('objects', objects, 4), ('stochastic', stochastic, 2), ('defaults', defaults, 1)]
