"""C13: streaming equals one shot.  C14: filters follow their difference equations.  C17: CTLE."""
import numpy as np
from harness import ref

OSR_FINDING = ('ffe_dfe over-sampled streaming loses the decision pending at a chunk border when phase + osr//2 >= osr '
               '(osr=4 phase=2, chunks of whole symbols)')


def stable_ab(ctx, max_order=4):
    """Random filter with poles inside |z| <= 0.9 (b may be longer or shorter than a)."""
    r = ctx.rng
    nb = int(r.integers(1, max_order + 3))
    if r.random() < 0.06:
        nb = int(r.integers(8, 150))                        # long FIR part
    elif r.random() < 0.06:
        max_order = 9
    b = r.normal(size=nb)
    poles = []
    n = int(r.integers(0, max_order + 1))
    while len(poles) < n:
        if n - len(poles) >= 2 and r.random() < 0.5:
            p = (0.9 if n < 5 else 0.7) * r.random() * np.exp(1j * np.pi * r.random())
            poles += [p, np.conj(p)]
        else:
            poles.append((0.9 if n < 5 else 0.7) * (2 * r.random() - 1))
    a = np.real(np.poly(poles)) if poles else np.array([1.0])
    a = np.atleast_1d(a)
    if r.random() < 0.5:
        a = a * ctx.pick(2.0, -0.5, 3.7)
    if r.random() < 0.15:
        b = np.zeros(nb)
        b[int(r.integers(0, nb))] = 1.0
    return b, a


def sig(ctx, n, lv=None):
    r = ctx.rng
    k = r.integers(0, 5)
    if k == 0:
        return r.integers(-3, 4, n).astype(float)
    if k == 1:
        return np.asarray([-3, -1, 1, 3])[r.integers(0, 4, n)] + 0.2 * r.normal(size=n)
    if k == 2:
        x = np.zeros(n)
        x[0] = 1.0
        return x
    if k == 3:
        return np.asarray([-3., -1, 1, 3])[r.integers(0, 4, n)]
    return r.normal(size=n)


def chunks(ctx, x, unit=1):
    pos, out = 0, []
    for c in ctx.split(len(x) // unit):
        out.append(x[pos:pos + c * unit])
        pos += c * unit
    return out


def amp(ctx, x):
    """The same signal, now and then very faint or very strong."""
    return x * ctx.pick(1e-9, 1e-5, 1e6, 1e9) if ctx.rng.random() < 0.15 else x


def ints(ctx, x, p=0.1):
    """Now and then the signal as integers (raw ADC codes)."""
    return np.round(np.real(x) * ctx.pick(1, 5, 30)).astype(np.int64) if ctx.rng.random() < p else x


def eq_scale(ctx, x, lv):
    """Signal and levels in another unit (levels None: the standard levels, so the signal stays)."""
    if lv is None or ctx.rng.random() > 0.2:
        return x, lv, 1.0
    s = float(ctx.pick(1e-9, 1e-6, 1e-3, 1e3, 1e6))
    return x * s, lv * s, s


def eq_setup(ctx, min_dfe=0):
    r = ctx.rng
    big = r.random() < 0.06
    ffe = r.normal(size=int(r.integers(1, 8) if not big else r.integers(8, 50))) * 0.3
    ffe[int(r.integers(0, len(ffe)))] += 1
    nd = int(r.integers(min_dfe, 5) if not big else r.integers(min_dfe, 25))
    if r.random() < 0.1:
        ffe = ffe * ctx.pick(0.01, 100.0)
    if r.random() < 0.06:                                   # a single tap of either sign
        ffe = np.array([ctx.pick(-1.0, 0.5, -0.7, 2.5, -30.0)])
        nd = 0 if min_dfe == 0 and r.random() < 0.5 else nd
    dfe = None if nd == 0 else r.normal(size=nd) * 0.3
    lv = ctx.pick(np.array([-3., -1, 1, 3]), np.array([-1., 1]), np.array([-1., 0, 1]), None, np.array([-3., -1, 1, 3]) / np.sqrt(5))
    return ffe, dfe, lv


def ffe_kw(ffe, dfe, lv):
    kw = {'ffe_taps': ffe}
    if dfe is not None:
        kw['dfe_taps'] = dfe
    if lv is not None:
        kw['levels'] = lv
    return kw


def unpack(ctx, res, ffe, dfe):
    """(slicer in, FFE memory or None, DFE memory or None) by the documented return forms."""
    if len(ffe) == 1 and dfe is None:
        return np.asarray(res), None, None
    if dfe is None:
        return np.asarray(res[0]), res[1], None
    if len(ffe) == 1:
        return np.asarray(res[0]), None, res[1]
    return np.asarray(res[0]), res[1], res[2]


# -- C13 ---------------------------------------------------------------------------------------------------------------------
def st_pulse(ctx):
    osr, span = int(ctx.rng.integers(1, 9)), int(ctx.rng.integers(1, 9))
    if ctx.rng.random() < 0.08:
        osr, span = int(ctx.rng.integers(1, 40)), int(ctx.rng.integers(1, 30))
    pulse = ctx.pick('rect', 'sinc', 'rcos', 'rrc', 'imp')
    beta = ctx.pick(0.1, 0.35, 0.5, 0.9, 1.0, 0.0, 0, 1)
    x = ints(ctx, amp(ctx, sig(ctx, ctx.length(2, 60, 800, 5000))))
    kw = {'osr': osr, 'span': span, 'pulse': pulse, 'beta': beta}
    whole = np.asarray(ctx.call('channel.pulse_shape', x, **kw)[0])
    zi, parts = None, []
    for c in chunks(ctx, x):
        y, zi = ctx.call('channel.pulse_shape', c, zi=zi, **kw) if zi is not None or ctx.rng.random() < 0.5 else ctx.call('channel.pulse_shape', c, **kw)
        parts.append(np.asarray(y))
    ctx.expect_close(np.concatenate(parts), whole, 'chunked %s pulse shaping' % pulse, rtol=1e-10, scale=np.max(np.abs(whole)) + np.max(np.abs(x)), x=x)
    ctx.note(len(parts) > 1, kw=kw, x=x, parts=[len(p) for p in parts])
    ctx.seen('pulse', pulse, osr, 'short' if min(map(len, parts)) < 2 * span * osr else 'long', min(len(parts), 5))


def st_channel(ctx):
    b, a = stable_ab(ctx)
    x = ints(ctx, amp(ctx, sig(ctx, ctx.length(2, 80, 2000, 20000))))
    if ctx.rng.random() < 0.25:
        a = ctx.pick(1, 1.0, 2.0, [1], 4, -3, 0.5)
    whole, zw = ctx.call('channel.awgn_channel', x, b, a)
    zi, parts = None, []
    for c in chunks(ctx, x):
        y, zi = ctx.call('channel.awgn_channel', c, b, a, None, zi)
        parts.append(np.asarray(y))
    sc = np.max(np.abs(whole)) + np.max(np.abs(x)) * np.sum(np.abs(b))
    ctx.expect_close(np.concatenate(parts), whole, 'chunked channel', rtol=1e-9, scale=sc, b=b, a=a)
    ctx.expect_close(zi, zw, 'channel memory after chunks', rtol=1e-9, scale=sc)
    ctx.note(len(parts) > 1, a=a, b=b, x=x, parts=len(parts))
    ctx.seen('channel', len(b), np.size(a), min(len(parts), 5))


def ctle_params(ctx):
    r = ctx.rng
    fs, osr = ctx.pick((1.0, 1), (53.125e9, 16), (10e9, 32), (2.0, 4), (53.125e9, 1), (1e6, 2), (100, 3), (26.5625e9, 64), (26.5625, 4), (0.37, 2), (1.0, 7), (1, 2), (0.01, 80), (1000, 16), (float(10.0 ** r.uniform(-3, 12)), int(r.integers(1, 40))))
    npole = int(r.integers(1, 4)) if r.random() < 0.92 else int(r.integers(4, 6))
    nz = int(r.integers(1, npole + 1))
    poles = [ctx.pick(-1, 1) * fs * osr * 10 ** r.uniform(-2, 0.3) for _ in range(npole)]
    zeros = [ctx.pick(-1, 1) * fs * osr * 10 ** r.uniform(-2, 0.3) for _ in range(nz)]
    if r.random() < 0.15 and npole > 1:                     # repeated roots
        poles[1] = poles[0] * ctx.pick(1, -1)
        if nz > 1:
            zeros[1] = zeros[0]
    if npole > 3:                                           # many slow roots together are ill conditioned in any realisation
        poles = [ctx.pick(-1, 1) * fs * osr * 10 ** r.uniform(-1, 0.3) for _ in range(npole)]
        zeros = [ctx.pick(-1, 1) * fs * osr * 10 ** r.uniform(-1, 0.3) for _ in range(nz)]
    gain = float(r.uniform(-20, 12) if r.random() < 0.8 else r.uniform(-60, 40))
    if r.random() < 0.1:
        gain = ctx.pick(0, 0.0, -6, 12)
    if r.random() < 0.15:
        zeros, poles = np.array(zeros), np.array(poles)
    return zeros, poles, gain, fs, osr


def st_ctle(ctx):
    p = ctle_params(ctx)
    x = ints(ctx, amp(ctx, sig(ctx, ctx.length(2, 80, 1500, 20000))))
    whole = np.asarray(ctx.call('rx.ctle', x, *p))
    zi, parts = np.zeros(max(len(p[0]), len(p[1]))), []
    for c in chunks(ctx, x):
        y, zi = ctx.call('rx.ctle', c, *p, zi=zi)
        parts.append(np.asarray(y))
    ctx.expect_close(np.concatenate(parts), whole, 'chunked CTLE', rtol=1e-8, scale=np.max(np.abs(whole)) + np.max(np.abs(x)) * 10 ** (p[2] / 20))
    ctx.note(len(parts) > 1, p=p, x=x, parts=len(parts))
    ctx.seen('ctle', len(p[0]), len(p[1]), min(len(parts), 5))


def st_equalizer(ctx):
    ffe, dfe, lv = eq_setup(ctx)
    osr = phase = None
    unit = 1
    if ctx.rng.random() < (0.35 if dfe is not None else 0.15):
        osr = int(ctx.rng.integers(2, 7)) if ctx.rng.random() < 0.85 else int(ctx.pick(8, 16, 32))
        phase = int(ctx.rng.integers(0, osr - osr // 2))
        unit = osr
    n = ctx.length(2, 60, 400, max(3000 // unit, 500)) * unit
    x, lv, sc = eq_scale(ctx, sig(ctx, n), lv)
    if sc == 1.0:
        x = ints(ctx, x)
    kw = ffe_kw(ffe, dfe, lv)
    if osr is not None:
        kw['osr'], kw['phase'] = osr, phase
    lvr = np.array([-3., -1, 1, 3]) if lv is None else lv
    _, margin, _ = ref.ffe_dfe(x, ffe, dfe, lvr, osr or 1, phase or 0)
    whole, _, _ = unpack(ctx, ctx.call('rx.ffe_dfe', x, **kw), ffe, dfe)
    parts, zf, zd = [], None, None
    for c in chunks(ctx, x, unit):
        k2 = dict(kw)
        if zf is not None:
            k2['zi_ffe'] = zf
        if zd is not None:
            k2['zi_dfe'] = zd
        y, zf, zd = unpack(ctx, ctx.call('rx.ffe_dfe', c, **k2), ffe, dfe)
        parts.append(y)
    if margin > 1e-9 * sc:
        ctx.expect_close(np.concatenate(parts), whole, 'chunked FFE-DFE (%d FFE, %d DFE taps, osr %s)' % (len(ffe), 0 if dfe is None else len(dfe), osr),
                         rtol=1e-9, scale=np.max(np.abs(whole)) + np.max(np.abs(x)), x=x, ffe=ffe, dfe=dfe, parts=[len(q) for q in parts])
    ctx.note(len(parts) > 1 and margin > 1e-9 * sc, ffe=ffe, dfe=dfe, x=x, parts=[len(q) for q in parts], osr=osr, phase=phase)
    ctx.seen('eq', 'ffe1' if len(ffe) == 1 else 'ffe', 0 if dfe is None else len(dfe), osr, 'shorter' if min(map(len, parts)) < len(ffe) else 'longer',
             'ambiguous' if margin <= 1e-9 * sc else 'clear')


def st_classes(ctx):
    which = ctx.pick('Filter', 'FilterTII', 'FfeDfeFilterTII')
    x = sig(ctx, ctx.length(2, 60, 400, 3000))
    if which == 'FfeDfeFilterTII':
        ffe, dfe, lv = eq_setup(ctx, 1)
        lv = np.array([-3., -1, 1, 3]) if lv is None else lv
        x, lv, _ = eq_scale(ctx, x, lv)
        mk = lambda: ctx.call('misc.help_classes:FfeDfeFilterTII', ffe, np.concatenate([[1.0], dfe]), lv)
    else:
        b, a = stable_ab(ctx)
        mk = lambda: ctx.call('misc.help_classes:' + which, b, a)
    f, g = mk(), mk()
    whole = np.asarray(ctx.invoke(which + '.__call__', f, x))
    parts = [np.asarray(ctx.invoke(which + '.__call__', g, c)) for c in chunks(ctx, x)]
    ctx.expect_close(np.concatenate(parts), whole, 'chunked %s' % which, rtol=1e-9, scale=np.max(np.abs(whole)) + np.max(np.abs(x)))
    ctx.note(len(parts) > 1, which=which, x=x, parts=[len(p) for p in parts])
    ctx.seen('class', which, min(len(parts), 5))


def stream(ctx, kind):
    """One stream of its own parameters: (whole(x), step(chunk), scale(x), unit)."""
    st = {}
    if kind == 'pulse':
        osr, span = int(ctx.rng.integers(1, 5)), int(ctx.rng.integers(1, 5))
        kw = dict(osr=osr, span=span, pulse=ctx.pick('rect', 'sinc', 'rcos', 'rrc', 'imp'), beta=ctx.pick(0.1, 0.35, 0.5, 0.9, 1.0))

        def step(c):
            y, st['z'] = ctx.call('channel.pulse_shape', c, zi=st.get('z'), **kw)
            return y
        return lambda x: ctx.call('channel.pulse_shape', x, **kw)[0], step, 3.0, False
    if kind == 'ctle':
        p = ctle_params(ctx)
        st['z'] = np.zeros(max(len(p[0]), len(p[1])))

        def step(c):
            y, st['z'] = ctx.call('rx.ctle', c, *p, zi=st['z'])
            return y
        return lambda x: ctx.call('rx.ctle', x, *p), step, 10 ** (p[2] / 20), False
    if kind in ('equalizer', 'FfeDfeFilterTII'):
        ffe, dfe, lv = eq_setup(ctx, 1 if kind != 'equalizer' else 0)
        lvr = np.array([-3., -1, 1, 3]) if lv is None else lv
        whole = lambda x: ref.ffe_dfe(x, ffe, dfe, lvr, 1, 0)[:2]
        if kind == 'equalizer':
            def step(c):
                k2 = ffe_kw(ffe, dfe, lv)
                k2.update({k: v for k, v in st.items() if v is not None})
                y, st['zi_ffe'], st['zi_dfe'] = unpack(ctx, ctx.call('rx.ffe_dfe', c, **k2), ffe, dfe)
                return y
        else:
            f = ctx.call('misc.help_classes:FfeDfeFilterTII', ffe, np.concatenate([[1.0], dfe]), lvr)
            step = lambda c: ctx.invoke('FfeDfeFilterTII.__call__', f, c)
        return whole, step, np.sum(np.abs(ffe)) + 1, True
    b, a = stable_ab(ctx)
    if kind == 'channel':
        def step(c):
            y, st['z'] = ctx.call('channel.awgn_channel', c, b, a, zi=st.get('z'))
            return y
    else:
        f = ctx.call('misc.help_classes:' + kind, b, a)
        step = lambda c: ctx.invoke(kind + '.__call__', f, c)
    return lambda x: ref.difference_equation(b, a, x), step, np.sum(np.abs(b)) / abs(a[0]), False


def st_interleaved(ctx):
    """Independent streams (own parameters, same or different kinds) processed alternately do not disturb each other."""
    kinds = ['pulse', 'ctle', 'equalizer', 'channel', 'Filter', 'FilterTII', 'FfeDfeFilterTII']
    first = ctx.pick(*kinds)
    pick = [first, first if ctx.rng.random() < 0.6 else ctx.pick(*kinds)]
    if ctx.rng.random() < 0.2:
        pick.append(ctx.pick(*kinds))
    n = ctx.length(4, 60, 300)
    xs = [sig(ctx, n) for _ in pick]
    ss = [stream(ctx, k) for k in pick]
    wholes = []
    for x, (whole, _, _, margin) in zip(xs, ss):
        w = whole(x)
        wholes.append((np.asarray(w[0]), w[1]) if margin else (np.asarray(w), 1.0))
    out, pos = [[] for _ in pick], [0] * len(pick)
    while min(pos) < n:
        live = [i for i in range(len(pick)) if pos[i] < n]
        k = live[int(ctx.rng.integers(0, len(live)))]
        c = xs[k][pos[k]:pos[k] + int(ctx.rng.integers(1, 9))]
        out[k].append(np.array(ss[k][1](c)))
        pos[k] += len(c)
    for k, kind in enumerate(pick):
        w, margin = wholes[k]
        if margin > 1e-9:
            ctx.expect_close(np.concatenate(out[k]), w, 'alternating streams: %s' % kind, rtol=1e-8,
                             scale=np.max(np.abs(w)) + np.max(np.abs(xs[k])) * ss[k][2], kinds=pick)
    ctx.note(True, pick=pick, xs=xs)
    ctx.seen('interleaved', *pick)


def st_known(ctx):
    """Known finding: the over-sampled DFE drops the decision pending at a chunk border."""
    osr, phase = 4, 2
    dfe = np.array([0.5])
    x = np.repeat(np.asarray([-3., -1, 1, 3])[ctx.rng.integers(0, 4, 12)], osr) + 0.1
    x[:osr] = 3.1
    kw = dict(ffe_taps=np.array([1.0]), dfe_taps=dfe, osr=osr, phase=phase)
    whole = np.asarray(ctx.call('rx.ffe_dfe', x, **kw)[0])
    y1, z1 = ctx.call('rx.ffe_dfe', x[:osr], **kw)
    y2, _ = ctx.call('rx.ffe_dfe', x[osr:], zi_dfe=z1, **kw)
    got = np.concatenate([y1, y2])
    if not np.allclose(got, whole):
        want, _, _ = ref.ffe_dfe(x[osr:], [1.0], dfe, [-3, -1, 1, 3], osr, phase, mem=[0.0])
        ctx.expect_close(whole, ref.ffe_dfe(x, [1.0], dfe, [-3, -1, 1, 3], osr, phase)[0], 'one-shot over-sampled DFE', rtol=1e-9)
        ctx.expect_close(y2, want, 'over-sampled streaming differs in a new way', rtol=1e-9)
        ctx.known.append(OSR_FINDING)
    ctx.seen('osr_border', bool(np.allclose(got, whole)))


C13 = [('pulse', st_pulse, 4), ('channel', st_channel, 4), ('ctle', st_ctle, 3), ('equalizer', st_equalizer, 8), ('classes', st_classes, 4),
       ('interleaved', st_interleaved, 4), ('osr_border', st_known, 1)]


# -- C14 ---------------------------------------------------------------------------------------------------------------------
def channel_equation(ctx):
    b, a = stable_ab(ctx)
    x = amp(ctx, sig(ctx, ctx.length(1, 80, 800, 10000)))
    if ctx.rng.random() < 0.2:
        x = x + 1j * ctx.rng.normal(size=len(x))
    aa = a
    if ctx.rng.random() < 0.25:
        aa = ctx.pick(1, 1.0, 2.0, -4, 0.5, 3)
        a = np.array([float(aa)])
    if not np.iscomplexobj(x):
        x = ints(ctx, x)
    y, z = ctx.call('channel.awgn_channel', ctx.lay(x), b, aa)
    want = ref.difference_equation(b, a, x)
    sc = np.max(np.abs(want)) + np.max(np.abs(x)) * np.sum(np.abs(b)) / abs(a[0])
    ctx.expect_close(y, want, 'channel difference equation', rtol=1e-9, scale=sc, b=b, a=a, x=x)
    cut = int(ctx.rng.integers(0, len(x) + 1))              # started from the memory which the first samples left behind
    if 0 < cut < len(x) and not np.iscomplexobj(x):
        zi = tii_state(b / a[0], a / a[0], x[:cut], want[:cut])
        y2, z2 = ctx.call('channel.awgn_channel', ctx.lay(x[cut:]), b, aa, zi=ctx.pick(zi, list(zi)))
        ctx.expect_close(y2, want[cut:], 'channel started from its memory', rtol=1e-8, scale=sc, b=b, a=a, x=x)
        ctx.expect_close(z2, z, 'channel memory at the end', rtol=1e-8, scale=sc, b=b, a=a, x=x)
        ctx.seen('channel_memory', len(zi) if len(zi) < 8 else 'long')
    ctx.expect(len(z) == max(len(a), len(b)) - 1, 'channel memory length')
    ctx.note(True, a=a, b=b, x=x)
    ctx.seen('channel', len(b), len(a), 'scalar' if np.isscalar(aa) else 'vec', x.dtype.kind)


def tii_state(b, a, x, y):
    """Memory of the transposed filter after input x and (decided) output y."""
    K, h = max(len(b), len(a)) - 1, len(x)
    z = np.zeros(K)
    for m in range(K):
        for k in range(m + 1, K + 1):
            i = h - (k - m)
            if i >= 0:
                z[m] += (b[k] * x[i] if k < len(b) else 0) - (a[k] * y[i] if k < len(a) else 0)
    return z


def filter_equation(ctx):
    """Both filter classes, with and without initial memory, on integer and float inputs."""
    b, a = stable_ab(ctx)
    n = ctx.length(1, 60, 300, 5000)
    hist = max(len(b), len(a))
    x = sig(ctx, n + hist)
    if ctx.rng.random() < 0.3:
        x = np.round(x * 2).astype(int)
    full = ref.difference_equation(b, a, x)
    sc = np.max(np.abs(full)) + np.max(np.abs(x)) * np.sum(np.abs(b)) / abs(a[0])
    y = ctx.invoke('Filter.__call__', ctx.call('misc.help_classes:Filter', b, a), ctx.lay(x))
    ctx.expect_close(y, full, 'filter difference equation', rtol=1e-9, scale=sc, b=b, a=a)
    y = ctx.invoke('FilterTII.__call__', ctx.call('misc.help_classes:FilterTII', b, a), ctx.lay(x))
    ctx.expect_close(y, full, 'transposed filter difference equation', rtol=1e-8, scale=sc, b=b, a=a)
    f = ctx.call('misc.help_classes:Filter', b, a, x[:hist][::-1][:len(b)].copy(), full[:hist][::-1][:len(a) - 1].copy())
    y = ctx.invoke('Filter.__call__', f, x[hist:])
    ctx.expect_close(y, full[hist:], 'filter started from its memory', rtol=1e-8, scale=sc, b=b, a=a)
    z = tii_state(b, a, x[:hist], full[:hist])
    kw = ctx.pick({'z': z.copy()}, {'z': list(z)}, {})
    f2 = ctx.call('misc.help_classes:FilterTII', b, a, **kw)
    if not kw:
        ctx.invoke('FilterTII.set_z', f2.set_z, z.copy())
    ctx.expect_close(ctx.invoke('FilterTII.__call__', f2, x[hist:]), full[hist:], 'transposed filter started from its memory', rtol=1e-8, scale=sc, b=b, a=a)
    ctx.invoke('FilterTII.set_z', f2.set_z, None)
    ctx.expect_close(ctx.invoke('FilterTII.__call__', f2, x), full, 'transposed filter restarts after a reset', rtol=1e-8, scale=sc)
    bad = len(z) + int(ctx.pick(1, 2, -1))
    if bad >= 0:
        ctx.call_raises('misc.help_classes:FilterTII', ValueError, b, a, [0.0] * bad)
    bad = len(a) - 1 + int(ctx.pick(1, 2, -1))
    if bad >= 0:
        ctx.call_raises('misc.help_classes:Filter', ValueError, b, a, None, [0.0] * bad)
    # reset: setting the memory back to None restarts the filter
    ctx.invoke('Filter.set_z_fir', f.set_z_fir, None)
    ctx.invoke('Filter.set_z_iir', f.set_z_iir, None)
    ctx.expect_close(ctx.invoke('Filter.__call__', f, x), full, 'filter restarts after a reset', rtol=1e-9, scale=sc)
    for bad in (len(b) + 1, max(len(b) - 1, 0)):
        try:
            ctx.invoke('Filter.set_z_fir', f.set_z_fir, [0.0] * bad)
        except Exception:
            continue
        ctx.expect(False, 'a filter memory of the wrong size is refused', size=bad)
    ctx.note(True, a=a, b=b, x=x)
    ctx.seen('filter', len(b), len(a), x.dtype.kind)


def equalizer_equation(ctx):
    ffe, dfe, lv = eq_setup(ctx)
    osr, phase = 1, 0
    over = ctx.rng.random() < (0.5 if dfe is not None else 0.2)     # (without feedback the sampling phase does not matter)
    if over:
        osr = int(ctx.rng.integers(1, 9)) if ctx.rng.random() < 0.85 else int(ctx.pick(10, 16, 17, 32))
        phase = int(ctx.rng.integers(0, osr))
    x = sig(ctx, ctx.length(1, 60, 300, max(5000 // osr, 400)) * osr + int(ctx.rng.integers(0, osr)))
    x, lv, unit = eq_scale(ctx, x, lv)
    if unit == 1.0:
        x = ints(ctx, x)
    lvr = np.array([-3., -1, 1, 3]) if lv is None else lv
    kw = ffe_kw(ffe, dfe, lv)
    if over:
        kw['osr'], kw['phase'] = osr, phase
    hist = mem = None
    if ctx.rng.random() < 0.4 and len(ffe) > 1:
        hist = ctx.rng.normal(size=len(ffe) - int(ctx.rng.integers(0, 2))) * unit
        kw['zi_ffe'] = hist
    if ctx.rng.random() < 0.4 and dfe is not None:
        mem = lvr[ctx.rng.integers(0, len(lvr), len(dfe))]
        kw['zi_dfe'] = mem
    if ctx.rng.random() < 0.15:
        ffe, hist = np.array([1.0]), None
        kw.pop('zi_ffe', None)
        kw['ffe_taps'] = ctx.pick(None, np.array([1]), np.array([1.0]))     # no feed forward part
    want, margin, wmem = ref.ffe_dfe(x, ffe, dfe, lvr, osr, phase, hist, mem)
    y, zf, zd = unpack(ctx, ctx.call('rx.ffe_dfe', ctx.lay(x), **kw), ffe, dfe)
    sc = np.max(np.abs(want)) + np.max(np.abs(x))
    if margin > 1e-9 * unit:
        ctx.expect_close(y, want, 'FFE-DFE equation (%d FFE taps, %d DFE taps, osr %d phase %d)' % (len(ffe), 0 if dfe is None else len(dfe), osr, phase),
                         rtol=1e-9, scale=sc, x=x, ffe=ffe, dfe=dfe)
        if zd is not None:
            ctx.expect_close(zd, wmem, 'DFE memory holds the latest decisions, newest first', atol=1e-10 * unit)
    if zf is not None:
        full = np.concatenate([np.zeros(len(ffe)) if hist is None else hist, x])
        k = len(zf)
        ctx.expect(k >= len(ffe) - 1, 'FFE memory length')
        ctx.expect_close(np.asarray(zf)[k - (len(ffe) - 1):], full[len(full) - (len(ffe) - 1):], 'FFE memory holds the latest samples', atol=1e-10 * unit)
    ctx.note(margin > 1e-9 * unit, ffe=ffe, dfe=dfe, x=x, osr=osr, phase=phase, hist=hist, mem=mem)
    ctx.seen('eq', 'ffe1' if len(ffe) == 1 else 'ffe', 0 if dfe is None else len(dfe), osr, phase, 'clear' if margin > 1e-9 * unit else 'ambiguous')


def class_agrees(ctx):
    """The sample-by-sample FFE-DFE object and the block function agree."""
    ffe, dfe, lv = eq_setup(ctx, 1)
    lvr = np.array([-3., -1, 1, 3]) if lv is None else lv
    x, lvr, unit = eq_scale(ctx, sig(ctx, ctx.length(1, 60, 300, 5000)), lvr)
    want, margin, _ = ref.ffe_dfe(x, ffe, dfe, lvr)
    d0 = ctx.pick(1.0, 1.0, 2.0, 0.5)
    f = ctx.call('misc.help_classes:FfeDfeFilterTII', ffe * d0, np.concatenate([[d0], dfe * d0]), lvr)
    y = ctx.invoke('FfeDfeFilterTII.__call__', f, x)
    if margin > 1e-9 * unit:
        ctx.expect_close(y, want, 'FFE-DFE object', rtol=1e-9, scale=np.max(np.abs(want)) + np.max(np.abs(x)))
        cut = int(ctx.rng.integers(0, len(x) + 1))
        dec = lvr[np.argmin(np.abs(want[:, None] - lvr), axis=1)]
        z = tii_state(ffe * d0, np.concatenate([[d0], dfe * d0]), x[:cut], dec[:cut])
        g = ctx.call('misc.help_classes:FfeDfeFilterTII', ffe * d0, np.concatenate([[d0], dfe * d0]), lvr, z)
        if cut < len(x):
            ctx.expect_close(ctx.invoke('FfeDfeFilterTII.__call__', g, x[cut:]), want[cut:], 'FFE-DFE object started from its memory', rtol=1e-8,
                             scale=np.max(np.abs(want)) + np.max(np.abs(x)))
    ctx.note(margin > 1e-9 * unit, ffe=ffe, dfe=dfe, x=x)
    ctx.seen('ffedfe_class', len(ffe), len(dfe))


def equalizer_refuse(ctx):
    ffe, dfe = ctx.rng.normal(size=int(ctx.rng.integers(2, 6))), ctx.rng.normal(size=int(ctx.rng.integers(1, 4)))
    x = ctx.rng.normal(size=20)
    if ctx.rng.random() < 0.5:
        ctx.call_raises('rx.ffe_dfe', ValueError, x, ffe, dfe, zi_dfe=np.zeros(len(dfe) + int(ctx.pick(-1, 1, 2))))
    else:
        ctx.call_raises('rx.ffe_dfe', ValueError, x, ffe, ctx.pick(dfe, None), zi_ffe=np.zeros(len(ffe) + int(ctx.pick(1, 2, -2))))
    ctx.note(False)
    ctx.seen('refused')


C14 = [('channel_equation', channel_equation, 4), ('filter_equation', filter_equation, 4), ('equalizer_equation', equalizer_equation, 8),
       ('class_agrees', class_agrees, 2), ('equalizer_refuse', equalizer_refuse, 1)]


# -- C17 ---------------------------------------------------------------------------------------------------------------------
def ctle_response(ctx):
    zeros, poles, gain, fs, osr = ctle_params(ctx)
    if ctx.rng.random() < 0.05:                         # more zeros than poles
        zeros = [fs * osr * 10 ** ctx.rng.uniform(-1, 0.3) for _ in range(len(poles[:2]) + 1)]
        poles = poles[:2]
    b, a = ctx.call('rx.get_ctle_filter', list(zeros), list(poles), gain, fs, osr)
    b, a = np.asarray(b, dtype=float), np.asarray(a, dtype=float)
    g = 10 ** (gain / 20)
    ctx.expect_close(np.sum(b) / np.sum(a), g, 'CTLE gain at DC is %.2f dB' % gain, rtol=1e-6)
    ctx.expect(bool(np.all(np.abs(np.roots(a)) < 1)) if len(a) > 1 and len(zeros) <= len(poles) else True, 'CTLE is stable', a=a)
    # frequency response is that of the continuous time transfer function under the bilinear transform
    w = np.concatenate([[1e-4], ctx.rng.uniform(1e-3, 3.0, 30)])
    z = np.exp(1j * w)
    H = np.polyval(b, z) * z ** -(len(b) - 1) / (np.polyval(a, z) * z ** -(len(a) - 1))
    s = 2 * fs * osr * (z - 1) / (z + 1)
    Hc = g * np.prod([1 + s / abs(q) for q in zeros], axis=0) / np.prod([1 + s / abs(p) for p in poles], axis=0)
    err = np.abs(H - Hc) / (np.abs(Hc) + 1e-3 * g)
    ctx.expect(float(np.max(err)) < 1e-6, 'CTLE frequency response', err=float(np.max(err)), zeros=zeros, poles=poles)
    # the sign of a zero or pole is immaterial
    p2, z2 = [float(ctx.rng.choice([-1, 1])) * p for p in poles], [float(ctx.rng.choice([-1, 1])) * q for q in zeros]
    b3, a3 = ctx.call('rx.get_ctle_filter', z2[::-1], p2[::-1], gain, fs, osr)
    H3 = np.polyval(b3, z) * z ** -(len(b3) - 1) / (np.polyval(a3, z) * z ** -(len(a3) - 1))
    ctx.expect(float(np.max(np.abs(H3 - Hc) / (np.abs(Hc) + 1e-3 * g))) < 1e-6, 'order and mixed signs of the roots are immaterial', zeros=z2, poles=p2)
    b2, a2 = ctx.call('rx.get_ctle_filter', [-q for q in zeros], [-p for p in poles], gain, fs, osr)
    ctx.expect_close(np.asarray(b2), b, 'the sign of the zeros is immaterial', rtol=1e-9)
    ctx.expect_close(np.asarray(a2), a, 'the sign of the poles is immaterial', rtol=1e-9)
    ctx.note(True, zeros=zeros, poles=poles, gain=gain, fs=fs, osr=osr)
    ctx.seen('response', len(zeros), len(poles), osr, 'boost' if gain > 0 else 'cut')


def ctle_run(ctx):
    zeros, poles, gain, fs, osr = ctle_params(ctx)
    x = ints(ctx, amp(ctx, sig(ctx, ctx.length(1, 80, 1000, 10000))))
    b, a = ctx.call('rx.get_ctle_filter', zeros, poles, gain, fs, osr)
    y = ctx.call('rx.ctle', ctx.lay(x), zeros, poles, gain, fs, osr)
    want = ref.difference_equation(np.asarray(b), np.asarray(a), x)
    g = 10 ** (gain / 20)
    ctx.expect_close(y, want, 'CTLE output', rtol=1e-8, scale=np.max(np.abs(want)) + g * np.max(np.abs(x)))
    ctx.note(True, zeros=zeros, poles=poles, gain=gain, x=x)
    ctx.seen('run', len(zeros), len(poles))


def ctle_settles(ctx):
    """A constant input settles at the DC gain; gains in dB add up."""
    zeros, poles, gain, fs, osr = ctle_params(ctx)
    slow = min(abs(p) for p in poles)
    n = int(60 * fs * osr / slow) + 50
    c = float(ctx.rng.normal())
    y = np.asarray(ctx.call('rx.ctle', np.full(n, c), zeros, poles, gain, fs, osr))
    g = 10 ** (gain / 20)
    ctx.expect_close(y[-1], g * c, 'constant input settles at the DC gain', rtol=1e-5)
    y2 = np.asarray(ctx.call('rx.ctle', np.full(n, c), zeros, poles, gain + 6.0, fs, osr))
    ctx.expect_close(y2, y * 10 ** 0.3, '6 dB more gain', rtol=1e-8)
    ctx.note(True, zeros=zeros, poles=poles, gain=gain)
    ctx.seen('settles', len(zeros), len(poles))


C17 = [('response', ctle_response, 5), ('run', ctle_run, 3), ('settles', ctle_settles, 1)]
