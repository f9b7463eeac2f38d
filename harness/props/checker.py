"""C02: PRBS checkers.  C03: pattern locking."""
import numpy as np
from harness import ref
from harness.props.prbs import prbs_type, seed_vec


def inject(ctx, data, pos):
    out = data.copy()
    out[pos] = 1 - out[pos]
    return out


def stretch(ctx, P, lim):
    """Positions of up to lim errors in one stretch of the first P bits, half of its bits or all of them wrong."""
    w = int(ctx.rng.integers(1, lim * 2))
    s = int(ctx.pick(0, P - w, int(ctx.rng.integers(0, P - w + 1))))
    if ctx.rng.random() < 0.3:
        return s + np.arange(min(w, lim))
    return s + np.flatnonzero(ctx.rng.integers(0, 2, w))[:lim]


def verdict(ctx, res, want_err, D, th, what):
    lost, good, err = res
    err = np.asarray(err)
    ctx.expect_equal(err.astype(int), want_err.astype(int), what + ': reported error positions')
    e = int(want_err.sum())
    ctx.expect(int(good) == D - e, what + ': correct bits %r of %d with %d errors' % (good, D, e))
    ctx.expect(bool(lost) == (e >= th), what + ': lost lock flag %r with %d errors and threshold %d' % (lost, e, th))


def choose_th(ctx, e):
    return int(ctx.pick(100, ctx.pick(0, 1, 1), max(1, e), e + 1, max(1, e - 1), int(ctx.rng.integers(1, 300)), 10 ** 6))


def full_checker(ctx):
    """prbs_checker with data of at least one period at any phase, errors below the locking limit."""
    n = int(ctx.pick(7, 7, 7, 9, 9, 11, 13, ctx.pick(9, 13, 15)))
    P = 2 ** n - 1
    period = ref.prbs_period(n)
    off = int(ctx.rng.integers(0, P)) if ctx.rng.random() < 0.9 else int(ctx.pick(0, 1, P - 1))
    D = int(ctx.pick(P, P + 1, 2 * P, 2 * P + 3, int(ctx.rng.integers(P, 4 * P))))
    if n >= 13:
        D = min(D, 2 * P if n == 13 else P + 100)
    elif n == 7 and ctx.rng.random() < 0.1:
        D = int(ctx.rng.integers(4 * P, 70 * P))
    if n <= 11 and ctx.rng.random() < 0.03:
        D = int(ctx.rng.integers(50000, 150000))
    clean = np.tile(np.roll(period, -off), D // P + 1)[:D]
    as_bool = bool(ctx.rng.random() < 0.1)
    lim = (P + 1) // 4 - 1
    k0 = int(ctx.pick(0, 1, 2, lim, int(ctx.rng.integers(0, lim + 1))))
    pos = ctx.rng.choice(P, k0, replace=False)
    if ctx.rng.random() < 0.25:                             # a bad stretch, not to be locked on by itself
        pos = stretch(ctx, P, lim)
        k0 = len(pos)
    if D > P:
        k1 = int(ctx.pick(0, 1, int(ctx.rng.integers(0, D - P + 1)), D - P))
        pos = np.concatenate([pos, P + ctx.rng.choice(D - P, k1, replace=False)])
    if ctx.rng.random() < 0.3 and k0 >= 2:
        pos[:2] = [0, P - 1] if 0 not in pos and P - 1 not in pos else pos[:2]
    pos = np.unique(pos).astype(int)
    data = inject(ctx, clean, pos)
    want = np.zeros(D, dtype=bool)
    want[pos] = True
    th = choose_th(ctx, len(pos))
    kw = {}
    if ctx.rng.random() < (0.4 if n < 11 else 0.8 if n == 11 else 0.97):
        kw['prbs_seq'] = np.roll(period, -int(ctx.rng.integers(0, P)))
    if th != 100 or ctx.rng.random() < 0.5:
        kw['loss_th'] = th
    res = ctx.call('rx.prbs_checker', prbs_type('PRBS%d' % n), data.astype(bool) if as_bool else ctx.lay(data), False, **kw)
    verdict(ctx, res, want, D, th, 'prbs_checker PRBS%d offset %d' % (n, off))
    ctx.note(True, n=n, off=off, D=D, pos=pos, th=th)
    ctx.seen('full', n, 'ref' if 'prbs_seq' in kw else 'own', 'errors', min(len(pos), 3), len(pos) >= th)


def locked_checker(ctx):
    """prbs_checker told that the data is locked: compared from the reference's own start, any length, any error count."""
    n = int(ctx.pick(7, 7, 9, 9, 11, ctx.pick(13, 15, 31)))
    P = 2 ** n - 1
    if n == 31:                                         # a reference given by the caller, at least as long as the data
        P = ctx.length(1, 400, 3000)
        period = ref.lfsr(ref.PRBS_TAPS[31], seed_vec(ctx, 31), P)[0]
    else:
        period = ref.prbs_period(n)
    D = min(P, ctx.length(1, P + 1)) if n == 31 else ctx.length(1, 300, ctx.pick(3 * P, P + 100)) if n > 11 else ctx.length(1, 300, ctx.pick(3 * P, 20 * P))
    if ctx.rng.random() < 0.03 and n < 31:
        D = int(ctx.rng.integers(50000, 150000))
    e = int(ctx.pick(0, 1, int(ctx.rng.integers(0, D + 1)), D))
    pos = np.sort(ctx.rng.choice(D, e, replace=False))
    seq = period
    kw = {}
    if n == 31 or ctx.rng.random() < (0.5 if n <= 11 else 0.95):
        seq = np.roll(period, -int(ctx.rng.integers(0, P))) if n < 31 else period
        kw['prbs_seq'] = seq
    data = inject(ctx, np.tile(seq, D // P + 1)[:D], pos)
    want = np.zeros(D, dtype=bool)
    want[pos] = True
    th = choose_th(ctx, e)
    res = ctx.call('rx.prbs_checker', prbs_type('PRBS%d' % n), data.astype(bool) if ctx.rng.random() < 0.05 else ctx.lay(data), True, loss_th=th, **kw)
    verdict(ctx, res, want, D, th, 'locked prbs_checker PRBS%d' % n)
    ctx.note(True, n=n, D=D, pos=pos, th=th)
    ctx.seen('locked', n, 'errors', min(e, 3), e >= th)


def short_checker(ctx):
    """Data shorter than a period: the reported errors are those of the best aligned reference."""
    n = int(ctx.pick(7, 9))
    P = 2 ** n - 1
    period = ref.prbs_period(n)
    off = int(ctx.rng.integers(0, P))
    D = int(ctx.rng.integers(n + 1, P))
    clean = np.tile(np.roll(period, -off), 2)[:D]
    e = int(ctx.pick(0, 0, 1, int(ctx.rng.integers(0, 4))))
    data = inject(ctx, clean, ctx.rng.choice(D, e, replace=False))
    rep = np.tile(period, 2)
    dist = np.array([np.sum(rep[s:s + D] != data) for s in range(P)])
    th = choose_th(ctx, int(dist.min()))
    lost, good, err = ctx.call('rx.prbs_checker', prbs_type('PRBS%d' % n), data, False, loss_th=th)
    err = np.asarray(err).astype(int)
    ctx.expect(err.shape == (D,), 'short data: one flag per bit')
    ctx.expect(int(err.sum()) == int(dist.min()), 'short data: %d errors reported, best alignment has %d' % (err.sum(), dist.min()))
    ctx.expect(any(np.array_equal(rep[s:s + D] != data, err == 1) for s in np.flatnonzero(dist == dist.min())),
               'short data: flags are the differences from a best aligned reference')
    ctx.expect(int(good) == D - int(err.sum()), 'short data: conservation of bits')
    ctx.expect(bool(lost) == (int(err.sum()) >= th), 'short data: lost lock flag')
    ctx.note(True, n=n, off=off, D=D, e=e)
    ctx.seen('short', n, min(e, 2))


def economy(ctx):
    """prbs_checker_economy: seed taken from the data itself, any PRBS, any phase, errors anywhere."""
    n = int(ctx.pick(7, 9, 11, 13, 15, 31))
    taps = ref.PRBS_TAPS[n]
    D = ctx.length(2 * n, 600, ctx.pick(2500, 2500, 12000))
    k = ctx.rng.random()
    if k < 0.01:
        D = int(ctx.rng.integers(50000, 80000))
    elif k < 0.12:
        D = 2 * n + int(ctx.rng.integers(-1, 4))       # just enough for all the windows
    clean, _ = ref.lfsr(taps, seed_vec(ctx, n), D)
    mode = ctx.rng.integers(0, 4)
    if mode == 0:
        pos = []
    elif mode == 1:                                    # errors in the first bits, later window clean
        s0 = int(ctx.rng.integers(1, n))
        if ctx.rng.random() < 0.25:
            s0 = n - 1                                 # only the last window is clean
        pos = list(ctx.rng.choice(s0, int(ctx.rng.integers(1, s0 + 1)), replace=False)) + [s0 - 1]
        if ctx.rng.random() < 0.3:
            pos = [s0 - 1]
        if D > 2 * n + 2:
            pos += list(2 * n + ctx.rng.choice(D - 2 * n, int(ctx.rng.integers(0, min(20, D - 2 * n))), replace=False))
    elif mode == 2:                                    # first window clean
        pos = list(n + ctx.rng.choice(D - n, int(ctx.rng.integers(1, min(80, D - n) + 1)), replace=False))
    else:
        pos = list(ctx.rng.choice(D, int(ctx.rng.integers(0, min(60, D))), replace=False))
    pos = np.unique(np.array(pos, dtype=int))
    data = inject(ctx, clean, pos)
    want = np.zeros(D, dtype=bool)
    want[pos] = True
    e = len(pos)
    th = int(ctx.pick(100, e + 1, e + 1, max(1, e), int(ctx.rng.integers(1, 150)), ctx.pick(0, e + 1)))
    kw = {} if th == 100 and ctx.rng.random() < 0.5 else {'loss_th': th}
    # what each candidate window of the data leads to
    counts, exact = [], []
    rev = tuple(sorted({n} | {n - k for k in taps if k != n}))
    for s in range(n):
        seed = data[s:s + n]
        fwd, _ = ref.lfsr(taps, seed[::-1], D - s - n)
        bwd, _ = ref.lfsr(rev, seed, s)
        full = np.concatenate([bwd[::-1], seed, fwd])
        counts.append(int(np.sum(full != data)))
        exact.append(bool(np.array_equal(full, clean)))
    lost, good, err = ctx.call('rx.prbs_checker_econ', prbs_type('PRBS%d' % n), ctx.lay(data), **kw)
    err = np.asarray(err).astype(int)
    ctx.expect(err.shape == (D,), 'economy checker: one flag per received bit', got=list(err.shape), want=D)
    ctx.expect(int(good) + int(err.sum()) == D, 'economy checker: conservation of bits')
    ctx.expect(bool(lost) == (int(err.sum()) >= th), 'economy checker: lost lock flag against its own error count')
    hit = [s for s in range(n) if counts[s] < th]
    ctx.expect(bool(lost) == (not hit), 'economy checker: lock is lost exactly when no window of the first bits explains the data')
    if hit and exact[hit[0]] and all(exact[s] for s in hit):
        verdict(ctx, (lost, good, err), want, D, th, 'economy checker PRBS%d' % n)
        ctx.seen('economy', n, 'exact', 'window', min(hit[0], 5), 'prefix' if (pos < n).any() else 'tail')
    else:
        ctx.seen('economy', n, 'lost' if not hit else 'ambiguous')
    ctx.note(e > 0 or D > 50, n=n, D=D, pos=pos, th=th, data=clean[:n])


C02 = [('full', full_checker, 5), ('locked', locked_checker, 4), ('short', short_checker, 3), ('economy', economy, 6)]


# -- C03 ---------------------------------------------------------------------------------------------------------------------
def rotations_of(pat, arr):
    """Offsets at which arr is a rotation of pat."""
    P = len(pat)
    if len(arr) != P:
        return []
    rep = np.tile(pat, 2)
    return [s for s in range(P) if rep[s] == arr[0] and np.array_equal(rep[s:s + P], arr)]


def some_pattern(ctx, kind):
    r = ctx.rng
    if kind == 'prbs':
        n = int(ctx.pick(7, 9))
        return ref.prbs_period(n).copy()
    P = ctx.length(1, 200, 1500)
    if kind == 'bin':
        p = r.integers(0, 2, P)
        if r.random() < 0.15:
            p = np.tile(p[:max(1, P // 3)], 4)[:P]
        return p
    if kind == 'levels':
        return np.array(ref.LEVELS[ctx.pick('NRZ', 'OOK', 'PAM3', 'PAM4')])[r.integers(0, 2, P)] if r.random() < 0.5 else \
            np.array([-3, -1, 1, 3])[r.integers(0, 4, P)]
    return np.round(r.normal(size=P), 3)


def xcorr_oracle(ctx, pat, sig, xc, what):
    P = len(pat)
    m = min(P, len(sig))
    rep = np.tile(pat, 2).astype(float)
    s = np.asarray(sig[:m], dtype=float)
    if m * P < 4e6:
        want = np.correlate(rep, s, mode='valid')
    else:
        N = 1 << int(np.ceil(np.log2(2 * P + m)))
        want = np.fft.irfft(np.fft.rfft(rep, N) * np.conj(np.fft.rfft(s, N)), N)[:2 * P - m + 1]
    ctx.expect_close(xc, want, what + ': correlation', rtol=1e-8,
                     scale=max(1e-300, np.sqrt(np.sum(rep ** 2) * np.sum(s ** 2))))
    return want


def lock_binary(ctx):
    pat = some_pattern(ctx, ctx.pick('bin', 'bin', 'prbs'))
    P = len(pat)
    off = int(ctx.rng.integers(0, P))
    D = int(ctx.pick(P, P, max(1, P - 1), P + 1, 2 * P, int(ctx.rng.integers(1, 8 * P + 1)), int(ctx.rng.integers(1, P + 1))))
    sig = np.tile(np.roll(pat, -off), D // P + 1)[:D]
    al, xc = ctx.call('rx.lock_pattern_to_signal_binary', ctx.lay(pat), ctx.lay(sig))
    al = np.asarray(al)
    ctx.expect(len(rotations_of(pat, al)) > 0, 'binary lock returns a rotation of the pattern', pattern=pat, got=al, D=D)
    ctx.expect_equal(np.tile(al, D // P + 1)[:D], sig, 'binary lock: the aligned pattern reproduces the signal', P=P, D=D, off=off)
    xcorr_oracle(ctx, 2 * pat - 1, 2 * sig - 1, xc, 'binary lock')
    ctx.note(P > 1, P=P, off=off, D=D, pat=pat)
    ctx.seen('binary', 'D<P' if D < P else ('D=P' if D == P else 'D>P'))


def lock_binary_errors(ctx):
    """PRBS with bit errors below the limit (P+1)/4 still locks to the true phase."""
    n = int(ctx.pick(7, 9, 11))
    P = 2 ** n - 1
    pat = np.roll(ref.prbs_period(n), int(ctx.rng.integers(0, P)))
    off = int(ctx.rng.integers(0, P))
    D = int(ctx.rng.integers(P, 2 * P))
    clean = np.tile(np.roll(pat, -off), 2)[:D]
    e = int(ctx.rng.integers(0, (P + 1) // 4))
    sig = clean.copy()
    pos = ctx.rng.choice(P, e, replace=False)
    if ctx.rng.random() < 0.3:
        pos = stretch(ctx, P, (P + 1) // 4 - 1)
        e = len(pos)
    sig[pos] = 1 - sig[pos]
    al, _ = ctx.call('rx.lock_pattern_to_signal_binary', pat, sig)
    ctx.expect_equal(al, np.roll(pat, -off), 'binary lock under %d bit errors' % e, n=n, off=off, D=D)
    ctx.note(True, n=n, off=off, D=D, pos=pos)
    ctx.seen('binary_errors', n, 'limit' if e == (P + 1) // 4 - 1 else ('zero' if e == 0 else 'some'))


def lock_real(ctx):
    pat = some_pattern(ctx, ctx.pick('levels', 'levels', 'real', 'prbs'))
    P = len(pat)
    off = int(ctx.rng.integers(0, P))
    D = int(ctx.pick(P, P, P + 1, 2 * P, int(ctx.rng.integers(P, 8 * P + 1)), int(ctx.rng.integers(1, P + 1))))
    gain = float(ctx.pick(1.0, 1.0, 0.1, 7.5, float(10.0 ** ctx.rng.uniform(-9, 9))))
    if ctx.rng.random() < 0.1:
        pat = pat * float(ctx.pick(1e-6, 1e-3, 1e3, 1e6))
    sig = gain * np.tile(np.roll(pat, -off), D // P + 1)[:D]
    if gain == 1.0 and ctx.rng.random() < 0.5:
        sig = np.tile(np.roll(pat, -off), D // P + 1)[:D].copy()
    noise = float(ctx.pick(0.0, 0.0, 0.05)) * gain
    noisy = sig + noise * ctx.rng.normal(size=D) if noise else sig
    al, xc = ctx.call('rx.lock_pattern_to_signal', ctx.lay(pat), ctx.lay(noisy))
    al = np.asarray(al)
    ctx.expect(len(rotations_of(pat, al)) > 0, 'lock returns a rotation of the pattern', pattern=pat, got=al, D=D)
    want = xcorr_oracle(ctx, pat, noisy, xc, 'lock')
    m = min(P, D)
    got = float(np.dot(al[:m].astype(float), np.asarray(noisy[:m], dtype=float)))
    tol = 1e-8 * max(1e-300, np.sqrt(np.sum(pat.astype(float) ** 2) * np.sum(np.asarray(noisy[:m], float) ** 2)))
    if D <= P or noise == 0:
        ctx.expect(got >= want.max() - tol, 'lock: no rotation correlates better than the returned one',
                   got_corr=got, best=float(want.max()))
    if D >= P and noise == 0:
        # equality of the aligned pattern with the signal (Cauchy-Schwarz) up to near ties of the correlation
        ref_al = np.roll(pat, -off)
        ctx.expect(np.max(np.abs(al - ref_al)) <= 1e-6 * np.max(np.abs(pat)) or np.sum((al - ref_al).astype(float) ** 2) <= 4 * tol / gain,
                   'lock: the aligned pattern reproduces the signal', off=off, P=P, D=D)
    ctx.note(P > 1, P=P, off=off, D=D, gain=gain, noise=noise, pat=pat)
    ctx.seen('real', 'D<P' if D < P else 'D>=P', 'noise' if noise else 'clean')


def lock_any(ctx):
    """Signals which are not the pattern at all (inverted, offset, unrelated, silent): still a best correlating rotation."""
    r = ctx.rng
    binary = bool(r.random() < 0.3)
    kind = str(ctx.pick('bin', 'prbs') if binary else ctx.pick('levels', 'real', 'prbs', 'positive'))
    pat = r.integers(0, 4, ctx.length(1, 100, 400)) if kind == 'positive' else some_pattern(ctx, kind)
    P = len(pat)
    D = int(ctx.pick(P, max(1, P - 1), int(r.integers(1, P + 1)), int(r.integers(P, 7 * P + 1))))
    off = int(r.integers(0, P))
    base = np.tile(np.roll(pat, -off), D // P + 1)[:D]
    if binary:
        how = str(ctx.pick('inverted', 'noise', 'silent', 'ones', 'tail'))
        sig = {'inverted': 1 - base, 'noise': r.integers(0, 2, D), 'silent': 0 * base, 'ones': 0 * base + 1, 'tail': base.copy()}[how]
        if how == 'tail':                                   # inverted after the first period
            sig[P:] = 1 - sig[P:]
    else:
        base = base.astype(float)
        how = str(ctx.pick('inverted', 'offset', 'noise', 'negative', 'silent', 'tail'))
        sig = {'inverted': -base, 'offset': base - float(r.integers(-10, 11)), 'noise': r.normal(size=D),
               'negative': -np.abs(base) - r.integers(0, 3, D), 'silent': 0.0 * base, 'tail': base.copy()}[how]
        if how == 'tail':                                   # something much stronger after the first period
            sig[P:] *= -20
        if r.random() < 0.3:
            sig = np.round(sig).astype(int)
    al, xc = ctx.call('rx.lock_pattern_to_signal' + ('_binary' if binary else ''), ctx.lay(pat), ctx.lay(sig))
    al = np.asarray(al)
    ctx.expect(len(rotations_of(pat, al)) > 0, 'lock on a foreign signal returns a rotation of the pattern', pattern=pat, got=al, D=D)
    if binary:
        pat, sig, al = 2 * pat - 1, 2 * sig - 1, 2 * al.astype(int) - 1
    want = xcorr_oracle(ctx, pat, sig, xc, 'lock on a foreign signal')
    m = min(P, D)
    got = float(np.dot(al[:m].astype(float), sig[:m].astype(float)))
    tol = 1e-8 * max(1e-300, np.sqrt(np.sum(pat.astype(float) ** 2) * np.sum(sig[:m].astype(float) ** 2)))
    ctx.expect(got >= want.max() - tol, 'lock on a foreign signal: no rotation correlates better than the returned one',
               got_corr=got, best=float(want.max()), how=how)
    ctx.note(P > 1, P=P, off=off, D=D, how=how, pat=pat, sig=sig)
    ctx.seen('any', binary, how, 'negative' if want.max() < 0 else ('zero' if want.max() == 0 else 'positive'), 'D>P' if D > P else 'D<=P')


def lock_big(ctx):
    """Long patterns (FFT-sized correlations)."""
    P = int(ctx.rng.integers(2000, 6000)) if ctx.rng.random() < 0.7 else int(ctx.pick(8191, 8192, 16384, 32767, int(ctx.rng.integers(6000, 40000))))
    binary = ctx.rng.random() < 0.5
    pat = ctx.rng.integers(0, 2, P) if binary else np.array([-3, -1, 1, 3])[ctx.rng.integers(0, 4, P)]
    off = int(ctx.rng.integers(0, P))
    D = int(ctx.pick(P, 2 * P, int(ctx.rng.integers(300, P))))
    sig = np.tile(np.roll(pat, -off), D // P + 1)[:D]
    if binary:
        al, xc = ctx.call('rx.lock_pattern_to_signal_binary', ctx.lay(pat), ctx.lay(sig))
        xcorr_oracle(ctx, 2 * pat - 1, 2 * sig - 1, xc, 'long binary lock')
    else:
        al, xc = ctx.call('rx.lock_pattern_to_signal', ctx.lay(pat), ctx.lay(sig) if ctx.rng.random() < 0.5 else sig.astype(float))
        xcorr_oracle(ctx, pat, sig, xc, 'long lock')
    ctx.expect(len(al) == P, 'long pattern: full length result')
    if binary or D >= P:
        ctx.expect_equal(al, np.roll(pat, -off), 'long pattern: alignment', P=P, off=off, D=D)
    ctx.note(True, P=P, off=off, D=D)
    ctx.seen('big', binary, D < P)


C03 = [('lock_binary', lock_binary, 6), ('lock_binary_errors', lock_binary_errors, 3), ('lock_real', lock_real, 6), ('lock_any', lock_any, 5),
       ('lock_big', lock_big, 1)]
WORKLOADS = C02 + C03
