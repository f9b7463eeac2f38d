"""C15: pulse shaping.  C16: additive noise.  C18: digital delay and over-sampling.  C19: eye diagram."""
import numpy as np
from harness.props.filters import sig, stable_ab, amp, ints
from harness import ref


# -- C15 ---------------------------------------------------------------------------------------------------------------------
def usinc(y):
    return np.sinc(y / np.pi)


def p_rect(t, beta):
    return ((t >= -0.5) & (t < 0.5)).astype(float)


def p_rcos(t, beta):
    x = 2 * beta * t
    return np.sinc(t) * np.pi / 4 * (np.sinc((1 - x) / 2) + np.sinc((1 + x) / 2))


def p_rrc(t, beta):
    """Inverse Fourier transform of the square root of the raised cosine spectrum, in closed form."""
    if beta == 0:
        return np.sinc(t)
    f1 = (1 - beta) / 2
    y = (1 - beta) * np.sinc((1 - beta) * t)
    for s in (1, -1):
        a = np.pi / (2 * beta) + s * 2 * np.pi * t
        phi = s * 2 * np.pi * f1 * t
        y = y + beta * usinc(a * beta / 2) * np.cos(a * beta / 2 + phi)
    return y


REFP = {'rect': p_rect, 'sinc': lambda t, b: np.sinc(t), 'rcos': p_rcos, 'rrc': p_rrc}


def pick_beta(ctx, pulse):
    if ctx.rng.random() < 0.1:
        return ctx.pick(0.0, 0.0, 0)
    if ctx.rng.random() < 0.05:
        return float(10.0 ** ctx.rng.uniform(-6, -2))
    if ctx.rng.random() < 0.5:
        return float(ctx.pick(0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.35, 0.5, 0.625, 0.7, 0.75, 0.9, 1.0))
    return float(ctx.rng.uniform(0.02, 1.0))


def grid(osr, span):
    return np.arange(-osr * span, osr * span) / osr


def pulse_values(ctx):
    pulse = ctx.pick('rect', 'sinc', 'rcos', 'rcos', 'rrc', 'rrc')
    beta = pick_beta(ctx, pulse)
    osr, span = int(ctx.rng.integers(1, 33)), int(ctx.rng.integers(1, 17))
    if ctx.rng.random() < 0.05:
        osr, span = int(ctx.rng.integers(1, 130)), int(ctx.rng.integers(1, 50))
    args = (osr, span) if pulse in ('rect', 'sinc') else (osr, span, beta)
    t = grid(osr, span)
    kw = {}
    if ctx.rng.random() < 0.3:
        t = ctx.rng.uniform(-span, span, int(ctx.rng.integers(1, 40)))
        if ctx.rng.random() < 0.2:
            t = np.arange(-span, span + 1)                  # integer times
        elif ctx.rng.random() < 0.3 and beta >= 0.02:           # close to and at the removable singularities
            c = ctx.pick(0.0, 1 / (2 * beta), -1 / (2 * beta), 1 / (4 * beta), -1 / (4 * beta))
            t = c + np.concatenate([[0.0], 10.0 ** ctx.rng.uniform(-10, -1, 8) * ctx.rng.choice([-1, 1], 8)])
        kw['t'] = t
    got = ctx.call('channel.%s_pulse' % pulse, *args, **kw)
    ctx.expect_close(got, REFP[pulse](t, beta), '%s pulse osr=%d span=%d beta=%.4f' % (pulse, osr, span, beta), atol=2e-6)
    ctx.note(True, pulse=pulse, beta=beta, osr=osr, span=span, t=t)
    ctx.seen('value', pulse, 'singular' if pulse in ('rcos', 'rrc') and beta > 0 and np.any(np.isclose(np.abs(t), 1 / ((2 if pulse == 'rcos' else 4) * beta))) else 'regular',
             'given' if kw else 'grid')


def shaping(ctx):
    """The shaped signal is the superposition of one delayed pulse per symbol."""
    pulse = ctx.pick('rect', 'sinc', 'rcos', 'rrc', 'imp')
    beta = pick_beta(ctx, pulse)
    osr, span = int(ctx.rng.integers(1, 13)), int(ctx.rng.integers(1, 11))
    if ctx.rng.random() < 0.04:
        osr, span = int(ctx.rng.integers(1, 65)), int(ctx.rng.integers(1, 33))
    x = sig(ctx, ctx.length(1, 60, 500, 5000))
    if ctx.rng.random() < 0.1:
        x = x * ctx.pick(1e-9, 1e-4, 1e6, 1e9)
    x = ints(ctx, x)
    y, zo = ctx.call('channel.pulse_shape', ctx.lay(x), osr=osr, span=span, pulse=pulse, beta=beta)
    n = len(x) * osr
    want = np.zeros(n + 2 * osr * span)
    if pulse == 'imp':
        want[:n:osr] = x
    else:
        p = REFP[pulse](grid(osr, span), beta)
        for k, v in enumerate(x):
            want[k * osr:k * osr + len(p)] += v * p
    sc = np.max(np.abs(x))
    ctx.expect_close(y, want[:n], '%s shaping osr=%d span=%d beta=%.4f' % (pulse, osr, span, beta), rtol=1e-5, scale=sc, x=x)
    ctx.expect(len(zo) == 2 * osr * span - 1, 'pulse memory length')
    if pulse in ('sinc', 'rcos') and len(x) > span:
        ctx.expect_close(np.asarray(y)[span * osr::osr], x[:len(x) - span], '%s shaping has no inter-symbol interference at the symbol centres' % pulse, rtol=1e-9, scale=sc * (2 * span))
    ctx.note(len(x) > 1, pulse=pulse, beta=beta, osr=osr, span=span, x=x)
    ctx.seen('shape', pulse, osr, span)


def shaping_default(ctx):
    """Default arguments and refusals."""
    x = sig(ctx, ctx.length(1, 40))
    y, _ = ctx.call('channel.pulse_shape', x)
    want = np.concatenate([[0.0], x])[:len(x)]
    ctx.expect_close(y, want, 'default pulse shaping delays by one symbol', atol=1e-10)
    ctx.call_raises('channel.pulse_shape', ValueError, x, 4, 2, ctx.pick('box', 'RCOS', ''))
    ctx.call_raises('channel.pulse_shape', ValueError, x, 4, 2, 'rcos', zi=np.zeros(int(ctx.pick(0, 14, 16, 31))))
    ctx.note(False, x=x)
    ctx.seen('default')


def matched(ctx):
    """Two root raised cosine filters in cascade make a raised cosine: no inter-symbol interference."""
    beta = float(ctx.pick(0.3, 0.5, 0.8, 1.0))
    osr, span = int(ctx.rng.integers(2, 9)), 24
    p = np.asarray(ctx.call('channel.rrc_pulse', osr, span, beta))
    c = np.convolve(p, p[::-1]) / osr
    mid = len(p) - 1
    k = np.arange(-10, 11)
    ctx.expect_close(c[mid + k * osr], (k == 0).astype(float), 'root raised cosine cascade is Nyquist, beta=%.2f' % beta, atol=5e-3)
    ctx.note(True, beta=beta, osr=osr)
    ctx.seen('matched', beta, osr)


def jitter(ctx):
    """Random jitter displaces whole symbols by a Gaussian of the requested deviation, measured on a ramp."""
    sigma = float(ctx.pick(0.02, 0.05, 0.1, 0.2))
    exact = ctx.rng.random() < 0.5
    n = 4000 if not exact or ctx.rng.random() < 0.7 else 40000
    x = np.arange(n, dtype=float)
    if exact:
        osr, lead = 1, 0
        sigma = float(ctx.pick(sigma, sigma, 1e-3, 5e-4, 5e-5, 1e-5))
        y, _ = ctx.call('channel.pulse_shape', x, 1, 1, 'imp', rj_sigma=sigma)
        d = np.asarray(y) - x
    else:
        osr, span = int(ctx.rng.integers(2, 6)) if ctx.rng.random() < 0.8 else int(ctx.rng.integers(6, 25)), 60
        y, _ = ctx.call('channel.pulse_shape', x, osr, span, 'rcos', 0.9, sigma)
        ramp = np.arange(n * osr) / osr - span
        d = (np.asarray(y) - ramp).reshape(n, osr)[2 * span + 2:-4]
        ctx.expect(float(np.max(np.std(d, axis=1))) < 0.02, 'all samples of a symbol are displaced alike', got=float(np.max(np.std(d, axis=1))))
        d = d[:, 0]
    m = len(d)
    ctx.expect(abs(np.std(d) / sigma - 1) < 7 / np.sqrt(2 * m) + 0.02, 'jitter deviation', got=float(np.std(d)), want=sigma)
    ctx.expect(abs(np.mean(d)) < 7 * sigma / np.sqrt(m) + (2e-3 if not exact else 1e-9 * n), 'jitter has no bias', got=float(np.mean(d)))
    c = np.corrcoef(d[1:], d[:-1])[0, 1]
    ctx.expect(abs(c) < 7 / np.sqrt(m), 'jitter of different symbols is independent', got=float(c))
    if exact:
        ctx.expect(min(abs(d[0]), abs(d[-1])) > 1e-8 * sigma, 'the first and the last symbol are displaced as well', got=[float(d[0]), float(d[-1])])
        if n > 10000:
            z = d / np.std(d)
            ctx.expect(np.max(np.abs(z)) > 3.05 and abs(np.mean(z ** 4) - 3) < 8 * np.sqrt(24 / n) and abs(np.mean(z ** 3)) < 8 * np.sqrt(6 / n),
                       'jitter is Gaussian', largest=float(np.max(np.abs(z))), fourth=float(np.mean(z ** 4)), third=float(np.mean(z ** 3)))
    ctx.note(True, sigma=sigma, osr=osr, n=ctx.rng.integers(0, 2 ** 31))
    ctx.seen('jitter', sigma, osr, n)


def jitter_shape(ctx):
    """Each jittered symbol is the jitter-free waveform, sampled earlier or later by one displacement for all its samples."""
    osr, span, fine, n = int(ctx.pick(6, 8, 10)), 8, 24, 40
    sigma, beta = float(ctx.pick(0.02, 0.05)), float(ctx.pick(0.3, 0.5, 0.9))
    x = np.array([-3., -1, 1, 3])[ctx.rng.integers(0, 4, n)]
    kind = ctx.pick('rcos', 'rrc')
    y = np.asarray(ctx.call('channel.pulse_shape', x, osr, span, kind, beta, rj_sigma=sigma)[0]).reshape(n, osr)
    dense = np.asarray(ctx.call('channel.pulse_shape', x, osr * fine, span, kind, beta)[0])
    td = np.arange(len(dense)) / (osr * fine)
    r = np.arange(-7 * sigma, 7 * sigma, 0.0005)
    worst, disp = 0.0, []
    for i in range(span // 2, n - 2):
        cand = np.interp(i + np.arange(osr) / osr + r[:, None], td, dense)
        e = np.max(np.abs(cand - y[i]), axis=1)
        k = int(np.argmin(e))
        worst = max(worst, float(e[k]))
        disp.append(r[k])
    scale = float(np.max(np.abs(dense)))
    ctx.expect(worst < 0.01 * scale, 'jittered symbols follow the waveform', got=worst / scale, osr=osr, beta=beta, sigma=sigma)
    ctx.expect(float(np.std(disp)) > 0.3 * sigma, 'the symbols are displaced', got=float(np.std(disp)))
    ctx.note(True, x=x, sigma=sigma, osr=osr)
    ctx.seen('jitter_shape', osr, kind, sigma)


C15 = [('jitter_shape', jitter_shape, 1), ('pulse_values', pulse_values, 6), ('shaping', shaping, 8), ('shaping_default', shaping_default, 1), ('matched', matched, 1), ('jitter', jitter, 1)]


# -- C16 ---------------------------------------------------------------------------------------------------------------------
def noise_stats(ctx, noise, x, want_power, what):
    n = noise.size
    f = noise.reshape(-1)
    p = float(np.mean(f ** 2))
    ctx.expect(abs(p / want_power - 1) < 7 * np.sqrt(2 / n) + 2 / n, what + ': noise power', got=p, want=want_power, n=n)
    s = np.sqrt(want_power)
    ctx.expect(abs(np.mean(f)) < 7 * s / np.sqrt(n), what + ': noise has no mean', got=float(np.mean(f)))
    z = f / s
    k = float(np.mean(z ** 4))
    ctx.expect(abs(k - 3) < 7 * np.sqrt(96 / n) + 0.05, what + ': noise is Gaussian (4th moment)', got=k)
    ctx.expect(abs(float(np.mean(z ** 3))) < 7 * np.sqrt(15 / n), what + ': noise is symmetric')
    for lag in (1, 2, 3, 7):
        ctx.expect(abs(float(np.mean(z[lag:] * z[:-lag]))) < 7 / np.sqrt(n - lag), what + ': noise is white (lag %d)' % lag, got=float(np.mean(z[lag:] * z[:-lag])))
    for lag in {int(np.prod(x.shape[i:])) for i in range(1, x.ndim)} - {n}:         # from row to row
        ctx.expect(abs(float(np.mean(z[lag:] * z[:-lag]))) < 7 / np.sqrt(n - lag), what + ': noise of different rows is independent', lag=lag)
    xs = x.reshape(-1)
    xs = (xs - xs.mean()) / (xs.std() + 1e-300)
    ctx.expect(abs(float(np.mean(z * xs))) < 7 / np.sqrt(n), what + ': noise is independent of the signal')


def noisy_signal(ctx):
    n = int(ctx.pick(5000, 8000, 20000, 60000))
    k = ctx.rng.integers(0, 5)
    if k == 0:
        x = np.asarray([-3, -1, 1, 3])[ctx.rng.integers(0, 4, n)]
    elif k == 1:
        x = np.asarray([0, 1])[ctx.rng.integers(0, 2, n)]
    elif k == 2:
        x = ctx.rng.normal(size=n) * 10.0 ** ctx.rng.integers(-6, 6)
    elif k == 3:
        x = np.full(n, float(ctx.pick(2.0, -0.3)))
    else:
        x = np.sin(np.arange(n) * 0.1) + float(ctx.rng.uniform(-3, 3))
    if ctx.rng.random() < 0.2:
        x = x.reshape(ctx.pick((4, -1), (-1, 4), (2, 2, -1), (-1, 10, 5), (1, -1), (2, 5, -1, 10)))
    return x


def awgn_case(ctx):
    x = noisy_signal(ctx)
    snr = float(ctx.rng.uniform(-15, 70)) if ctx.rng.random() < 0.8 else int(ctx.pick(0, 10, 30))
    before = x.copy()
    x = ctx.lay(x)
    y = np.asarray(ctx.call('channel.awgn', x, snr))
    ctx.expect(y.shape == x.shape, 'noisy signal keeps the shape')
    p = float(np.mean(before.astype(float) ** 2)) / 10 ** (snr / 10)
    noise_stats(ctx, y - before, before, p, 'noise at %.1f dB' % snr)
    y2 = np.asarray(ctx.call('channel.awgn', x, snr))
    n1, n2 = (y - before).reshape(-1), (y2 - before).reshape(-1)
    ctx.expect(abs(float(np.mean(n1 * n2)) / p) < 7 / np.sqrt(x.size), 'noise of two calls is independent')
    ctx.note(True, x=x, snr=snr)
    ctx.seen('awgn', x.dtype.kind, x.ndim, int(snr // 20))


def channel_noise(ctx):
    """Noise is set relative to the channel output and never enters the channel memory."""
    b, a = stable_ab(ctx)
    while np.max(np.abs(b)) < 0.2:
        b, a = stable_ab(ctx)
    x = noisy_signal(ctx).reshape(-1)
    snr = float(ctx.rng.uniform(-10, 60)) if ctx.rng.random() < 0.85 else ctx.pick(0, 0.0, 20)
    clean, zc = ctx.call('channel.awgn_channel', x, b, a)
    clean = np.asarray(clean)
    noisy, zn = ctx.call('channel.awgn_channel', x, b, a, snr)
    ctx.expect_close(zn, zc, 'noise does not enter the channel memory', rtol=1e-9, scale=np.max(np.abs(clean)) + np.max(np.abs(x)))
    p = float(np.mean(clean ** 2)) / 10 ** (snr / 10)
    noise_stats(ctx, np.asarray(noisy) - clean, clean, p, 'channel noise at %.1f dB' % snr)
    # a second block, started from the memory of the first
    x2 = noisy_signal(ctx).reshape(-1)
    clean, zc2 = ctx.call('channel.awgn_channel', x2, b, a, zi=np.array(zc))
    clean = np.asarray(clean)
    noisy, zn2 = ctx.call('channel.awgn_channel', x2, b, a, snr, np.array(zn))
    ctx.expect_close(zn2, zc2, 'noise does not enter the channel memory of the next block', rtol=1e-9, scale=np.max(np.abs(clean)) + np.max(np.abs(x)) + np.max(np.abs(x2)))
    p = float(np.mean(clean ** 2)) / 10 ** (snr / 10)
    noise_stats(ctx, np.asarray(noisy) - clean, clean, p, 'channel noise at %.1f dB, next block' % snr)
    ctx.note(True, b=b, a=a, x=x, snr=snr)
    ctx.seen('channel', len(b), len(a), int(snr // 20))


def short_blocks(ctx):
    """Blocks of a few samples get noise of the same power, block after block."""
    n = int(ctx.pick(1, 2, 3, 4, 8, 10, 16, 33, 64, 100, 127, 200, 1500, 6000))
    reps = max(6000 // n, 40) if n > 3 else 2500
    lv = np.array([-3, -1, 1, 3])
    snr = float(ctx.pick(-5, 3, 12.5, 20, 35)) if ctx.rng.random() < 0.6 else ctx.pick(0, 0.5, 3, 10, 25, -4)
    tap, den = float(ctx.pick(1.0, 2.5, -0.4)), ctx.pick(1, 1.0, 2, 'one', 'four')
    den = {'one': np.array([1.0]), 'four': np.array([4.0])}.get(den, den)
    gain = tap / float(np.reshape(den, -1)[0])
    z, lo, hi = [], [], []
    for _ in range(reps):
        x = lv[ctx.rng.integers(0, 4, n)] + ctx.rng.normal(size=n) * 0.1
        if ctx.rng.random() < 0.5:
            y = np.asarray(ctx.call('channel.awgn', x, snr))
        else:
            y = np.asarray(ctx.call('channel.awgn_channel', x, np.array([tap]), den, snr)[0])
            x = x * gain
        p = float(np.mean(x ** 2)) / 10 ** (snr / 10)
        z.append((y - x) / np.sqrt(p))
    z = np.array(z)
    m = float(np.mean(z ** 2))
    ctx.expect(abs(m - 1) < 7 * np.sqrt(2 / z.size), 'noise power over blocks of %d samples' % n, got=m)
    ctx.expect(abs(float(np.mean(z))) < 7.5 / np.sqrt(z.size), 'noise of short blocks has no mean', got=float(np.mean(z)))
    from scipy.stats import chi2
    q = chi2.cdf(n * float(np.sum(np.mean(z, axis=1) ** 2)), len(z))
    ctx.expect(1e-11 < q < 1 - 1e-11, 'the means of the noise of blocks of %d samples scatter as 1/n' % n, got=q)
    c = float(np.mean(z[1:] * z[:-1]))
    ctx.expect(abs(c) < 8 / np.sqrt(z.size), 'noise of consecutive blocks is independent', got=c)
    ctx.note(True, n=n, snr=snr, key=ctx.rng.integers(0, 2 ** 31))
    ctx.seen('short', n, snr)


def tails(ctx):
    """Large deviations are as frequent as a Gaussian has them (a million samples)."""
    from scipy.stats import norm
    n, snr = 1000000, float(ctx.pick(-3, 10, 25))
    x = np.asarray([-3, -1, 1, 3])[ctx.rng.integers(0, 4, n)]
    if ctx.rng.random() < 0.5:
        y = np.asarray(ctx.call('channel.awgn', x, snr))
    else:
        y = np.asarray(ctx.call('channel.awgn_channel', x, np.array([1.0]), 1, snr)[0])
    z = (y - x) / np.sqrt(float(np.mean(x ** 2)) / 10 ** (snr / 10))
    for k in (0.5, 1, 2, 3, 4, 4.4):
        for side in (1, -1):
            got, want = int(np.sum(side * z > k)), n * norm.sf(k)
            ctx.expect(abs(got - want) < 7.5 * np.sqrt(want) + (4 if want > 10 else 20), 'number of noise samples beyond %.1f sigma' % (side * k), got=got, want=want)
    ctx.expect(4.3 < float(np.max(np.abs(z))) < 7.5, 'largest of a million noise samples', got=float(np.max(np.abs(z))))
    ctx.note(True, snr=snr, key=ctx.rng.integers(0, 2 ** 31))
    ctx.seen('tails', snr)


def snr_sweep(ctx):
    """The measured signal to noise ratio follows the requested one over the whole range."""
    if ctx.rng.random() < 0.04:
        return tails(ctx)
    x = noisy_signal(ctx)
    px = float(np.mean(x.astype(float) ** 2))
    for snr in (-20, -3, 0, 3, 10, 25, 40, 60, 80):
        y = np.asarray(ctx.call('channel.awgn', x, snr))
        m = 10 * np.log10(px / np.mean((y - x) ** 2))
        ctx.expect(abs(m - snr) < 4.35 * (7 * np.sqrt(2 / x.size)) + 0.05, 'requested %d dB' % snr, got=float(m))
        ctx.seen('sweep', snr)
    ctx.note(True, x=x)


C16 = [('awgn', awgn_case, 6), ('channel_noise', channel_noise, 4), ('snr_sweep', snr_sweep, 1), ('short_blocks', short_blocks, 1)]


# -- C18 ---------------------------------------------------------------------------------------------------------------------
def indices(n, forward):
    h = n // 2
    if n % 2 == 0:
        return np.arange(-h, h + 1)
    return np.arange(-h, h + 2) if forward else np.arange(-h - 1, h + 1)


def lagrange(idx, alpha):
    out = []
    for i in idx:
        v = 1.0
        for j in idx:
            if j != i:
                v *= (alpha - j) / (i - j)
        out.append(v)
    return np.array(out)


def delay_coeffs(ctx):
    n = int(ctx.rng.integers(1, 13)) if ctx.rng.random() < 0.9 else int(ctx.rng.integers(13, 31))
    alpha = float(ctx.pick(0.0, 0.5, 0.25, 1.0, ctx.rng.random(), ctx.rng.random(), 1 - 1e-9, 1e-6))
    fwd = bool(ctx.rng.integers(0, 2))
    idx = indices(n, fwd)
    args = (n, alpha) if fwd and ctx.rng.random() < 0.5 else (n, alpha, fwd)
    L = np.asarray(ctx.call('dig_delay_lagrange_coeffs', *args))
    ctx.expect_close(L, lagrange(idx, alpha), 'Lagrange delay coefficients n=%d alpha=%.4f' % (n, alpha), rtol=1e-9, scale=1.0 + np.max(np.abs(lagrange(idx, alpha))))
    c = ctx.rng.normal(size=n + 1)
    want = np.polyval(c, alpha)
    ctx.expect(abs(np.dot(L, np.polyval(c, idx)) - want) < 1e-8 * np.sum(np.abs(L) * np.abs(np.polyval(np.abs(c), np.abs(idx)))),
               'Lagrange delay is exact for polynomials up to its order', n=n, alpha=alpha)
    S = ctx.call('dig_delay_sinc_coeffs', *args)
    ctx.expect_close(S, np.sinc(idx - alpha), 'sinc delay coefficients', atol=1e-10)
    beta = float(ctx.pick(0.0, 0.25, 0.5, 1.0, ctx.rng.random()))
    R = ctx.call('dig_delay_rcos_coeffs', n, alpha, fwd, beta)
    ctx.expect_close(R, p_rcos(idx - alpha, beta), 'raised cosine delay coefficients', atol=1e-7)
    if alpha == 0.0:
        for name, v in (('Lagrange', L), ('sinc', S), ('raised cosine', R)):
            ctx.expect_close(v, (idx == 0).astype(float), '%s zero delay is the identity' % name, atol=1e-9)
    ctx.note(True, n=n, alpha=alpha, fwd=fwd, beta=beta)
    ctx.seen('coeffs', n, fwd, 'zero' if alpha == 0 else 'frac')


def oversample(ctx):
    method = ctx.pick('sinc', 'lagrange', 'rcos')
    order, osr = int(ctx.rng.integers(1, 12)), int(ctx.rng.integers(1, 9))
    if ctx.rng.random() < 0.06:
        order, osr = int(ctx.rng.integers(1, 28)), int(ctx.rng.integers(1, 40))
    elif ctx.rng.random() < 0.05:
        order, osr = int(ctx.rng.integers(1, 5)), int(ctx.rng.integers(40, 130))
    if ctx.rng.random() < 0.03 and method != 'lagrange':
        order = 0
    n = order + ctx.length(1, 60, 400, 9000)
    x = ints(ctx, amp(ctx, sig(ctx, n)))
    beta = float(ctx.pick(0.0, 0.3, 1.0))
    kw = {'beta': beta} if method == 'rcos' or ctx.rng.random() < 0.15 else {}      # (the other methods have no roll-off)
    y, x2, x1 = ctx.call('digital_oversample', ctx.lay(x), osr, order, method, **kw)
    y = np.asarray(y)
    pre, m = order // 2, n - order
    want = np.zeros((m, osr))
    idx = indices(order, True)
    for k in range(osr):
        al = k / osr
        c = {'sinc': lambda: np.sinc(idx - al), 'lagrange': lambda: lagrange(idx, al), 'rcos': lambda: p_rcos(idx - al, beta)}[method]()
        for i in range(m):
            want[i, k] = np.dot(c, x[pre + i + idx[0]:pre + i + idx[-1] + 1])
    sc = np.max(np.abs(x)) * (order + 1)
    ctx.expect_close(y, want.reshape(-1), 'over-sampling by %s order %d osr %d' % (method, order, osr), rtol=1e-6, scale=sc)
    ctx.expect_close(y[::osr], x[pre:pre + m], 'the original samples are kept', rtol=1e-9, scale=sc)
    ctx.expect_close(x2, np.arange(m * osr) / osr, 'new time axis', atol=1e-9)
    x1 = np.asarray(x1)
    ctx.expect(len(x1) >= m and bool(np.all(x1 == np.arange(len(x1)))), 'old time axis', got=x1)
    if method == 'lagrange' and order <= 6:
        c = ctx.rng.normal(size=order + 1)
        t = (np.arange(n) - n / 2) / n
        y, x2, _ = ctx.call('digital_oversample', np.polyval(c, t), osr, order, method)
        tt = (pre + np.asarray(x2) - n / 2) / n
        ctx.expect_close(y, np.polyval(c, tt), 'Lagrange over-sampling is exact for polynomials', atol=1e-7 * max(1, np.sum(np.abs(c))))
    ctx.note(True, method=method, order=order, osr=osr, x=x)
    ctx.seen('oversample', method, order, osr)


def oversample_bandlimited(ctx):
    """A slow sinusoid is interpolated between its samples."""
    f, ph = float(ctx.rng.uniform(0.005, 0.06)), float(ctx.rng.uniform(0, 6))
    n, osr = 300, int(ctx.rng.integers(2, 9))
    x = np.sin(2 * np.pi * f * np.arange(n) + ph)
    y, x2, _ = ctx.call('digital_oversample', x, osr, 7, 'lagrange')
    ctx.expect_close(y, np.sin(2 * np.pi * f * (3 + np.asarray(x2)) + ph), 'interpolated sinusoid', atol=5e-3)
    ctx.note(True, f=f, ph=ph, osr=osr)
    ctx.seen('bandlimited', osr)


def oversample_bad(ctx):
    ctx.call_raises('digital_oversample', AttributeError, np.arange(20.0), int(ctx.rng.integers(2, 5)), 2, ctx.pick('linear', 'Sinc', ''))
    ctx.note(False)
    ctx.seen('refused')


C18 = [('delay_coeffs', delay_coeffs, 6), ('oversample', oversample, 6), ('bandlimited', oversample_bandlimited, 2), ('oversample_bad', oversample_bad, 1)]


# -- C19 ---------------------------------------------------------------------------------------------------------------------
def column_counts(col, fs, q, exact):
    """Lower and upper counts per bin: samples within rounding of a bin edge may fall on either side.

    exact: the samples are not interpolated, so those equal to the full scale are known to lie in the first or last bin."""
    edges = np.linspace(-fs, fs, q + 1)
    eps = 1e-9 * fs
    lo, hi = np.zeros(q), np.zeros(q)
    for v in col:
        if v < -fs - eps or v > fs + eps:
            continue
        w = (v + fs) / (2 * fs) * q
        b = int(np.clip(np.floor(w), 0, q - 1))
        near = [i for i in (b - 1, b, b + 1) if 0 <= i < q and edges[i] - eps <= v <= edges[i + 1] + eps]
        sure = len(near) == 1 and (-fs + eps <= v <= fs - eps or exact and abs(v) == fs)
        for i in near:
            hi[i] += 1
        if sure:
            lo[near[0]] += 1
    return lo, hi


def eye(ctx):
    osr_in = int(ctx.rng.integers(1, 17)) if ctx.rng.random() < 0.95 else int(ctx.pick(20, 32, 33, 64))
    up = int(ctx.pick(1, 1, 1, 2, 3, 4)) if ctx.rng.random() < 0.95 else int(ctx.pick(5, 8, 16))
    osr = osr_in * up
    n = ctx.length(2, 40, 300, 2000)
    x = sig(ctx, n * osr_in)
    fs = float(ctx.pick(1.0, 3.0, 4.5, 0.5))
    q = int(ctx.pick(2, 3, 16, 64, 101, 256)) if ctx.rng.random() < 0.8 else int(ctx.rng.integers(2, 1100))
    if ctx.rng.random() < 0.2:                              # volts, millivolts, ADC codes
        u = float(ctx.pick(1e-6, 1e-3, 10.0, 250.0, 1e6))
        x, fs = x * u, fs * u
    elif ctx.rng.random() < 0.1:
        x, fs = np.round(x * 20).astype(np.int64), ctx.pick(31, 63.0, 80)
    elif ctx.rng.random() < 0.05:
        x, fs = np.round(x).astype(np.int64), ctx.pick(1, 2, 3.0, 0.5)
    log = bool(ctx.rng.random() < 0.3)
    if ctx.rng.random() < 0.2 and up == 1:
        x[ctx.rng.integers(0, len(x), 3)] = [fs, -fs, 0.0]
    kw = {'fs_value': fs, 'quantization': q}
    if log:
        kw['logscale'] = True
    e, amp = ctx.call('eye_diagram', ctx.lay(x), osr_in, osr, **kw)
    e = np.asarray(e)
    ctx.expect(e.shape == (q, 2 * osr), 'eye shape', got=list(e.shape))
    ctx.expect_equal(e[:, :osr], e[:, osr:], 'both halves of the eye are the same')
    ctx.expect_close(amp, np.linspace(-fs, fs, q), 'amplitude axis', atol=1e-9)
    h = np.round(10 ** e - 0.1) if log else e
    if log:
        ctx.expect_close(e, np.log10(h + 0.1), 'logarithmic eye', atol=1e-9)
    if up == 1:
        s = x
    else:
        order = osr_in
        idx = indices(order, True)
        m = len(x) - order
        s = np.zeros((m, up))
        for k in range(up):
            c = np.sinc(idx - k / up)
            for i in range(m):
                s[i, k] = np.dot(c, x[order // 2 + i + idx[0]:order // 2 + i + idx[-1] + 1])
        s = s.reshape(-1)
    mat = s.reshape(-1, osr)
    for k in range(osr):
        lo, hi = column_counts(mat[:, k], fs, q, up == 1)
        col = h[:, k]
        bad = np.flatnonzero((col < lo) | (col > hi))
        ctx.expect(len(bad) == 0, 'eye column %d counts every sample in its amplitude bin' % k, bins=bad, got=col[bad], lo=lo[bad], hi=hi[bad])
        inside = int(np.sum((mat[:, k] >= -fs * (1 - 1e-9)) & (mat[:, k] <= fs * (1 - 1e-9)) | (up == 1) & (np.abs(mat[:, k]) == fs)))
        most = int(np.sum((mat[:, k] >= -fs * (1 + 1e-9)) & (mat[:, k] <= fs * (1 + 1e-9))))
        ctx.expect(inside <= col.sum() <= most, 'eye column %d holds every sample inside the range once' % k, got=float(col.sum()), inside=inside, most=most)
    ctx.note(True, osr_in=osr_in, up=up, x=x, fs=fs, q=q, log=log)
    ctx.seen('eye', up, osr_in, q, log)


def eye_additive(ctx):
    """The eye of two recordings in a row is the sum of their eyes."""
    osr = int(ctx.rng.integers(1, 17))
    a, b = sig(ctx, osr * ctx.length(1, 60)), sig(ctx, osr * ctx.length(1, 60))
    q = int(ctx.pick(16, 64, 256))
    fs = float(ctx.pick(3.3, 1.0))
    ea, eb, eab = [np.asarray(ctx.call('eye_diagram', v, osr, osr, fs, q)[0]) for v in (a, b, np.concatenate([a, b]))]
    ctx.expect_equal(eab, ea + eb, 'eyes add up')
    ctx.note(True, osr=osr, a=a, b=b, q=q)
    ctx.seen('additive', osr, q)


def eye_many(ctx):
    """Long recordings: the counts are exact however many samples share a bin."""
    osr, n = int(ctx.pick(1, 2, 3)), int(ctx.pick(300, 3000, 20000, 70000))
    q, fs = int(ctx.pick(8, 32, 256)), float(ctx.pick(1.0, 3.5))
    bins = ctx.rng.integers(0, q, int(ctx.rng.integers(1, 4)))
    pick = bins[ctx.rng.integers(0, len(bins), (n, osr))]
    x = -fs + (pick + ctx.rng.uniform(0.2, 0.8)) * 2 * fs / q
    e = np.asarray(ctx.call('eye_diagram', x.reshape(-1), osr, osr, fs, q)[0])
    want = np.stack([np.bincount(pick[:, k], minlength=q) for k in range(osr)], axis=1)
    ctx.expect_equal(e, np.hstack([want, want]), 'eye of %d symbols' % n)
    ctx.note(True, osr=osr, n=n, q=q, bins=bins)
    ctx.seen('many', osr, n, q)


C19 = [('eye', eye, 6), ('eye_additive', eye_additive, 2), ('eye_many', eye_many, 1)]
