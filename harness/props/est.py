"""C20: channel estimation.  C21: equalizer estimation.  C22: adaptation gradients and timing.  C23: spectrum analysis."""
import numpy as np
from harness import ref
from harness.core import TARGET
from harness.props.symbols import const
from harness.props.filters import sig, stable_ab


def prbs_enum(order):
    return getattr(TARGET.load().PrbsEnum, 'PRBS%d' % order)


def prbs_levels(order, name, full_scale, order_inv, pn_pre, gray, pn_post):
    """One full period (in symbols) of the mapped PRBS, built by the reference models."""
    period = ref.prbs_period(order)
    m = 2 if name == 'PAM4' else 1
    bits = np.tile(period, m)
    s = ref.bits_to_symbols(bits, m, order_inv, False, False, pn_pre)
    if gray and m == 2:
        s = np.array([0, 1, 3, 2])[s]
    return ref.levels(name, full_scale)[s] * (-1 if pn_post else 1)


def channel_taps(ctx, pre, post):
    """Taps at lags -pre..post with a dominant positive main tap."""
    h = ctx.rng.normal(size=pre + post + 1)
    h[pre] = 0
    h *= ctx.rng.uniform(0.05, 0.45) / max(np.sum(np.abs(h)), 1e-12)
    if ctx.rng.random() < 0.2:
        h[:] = 0
    h[pre] = 1.0
    return h * float(ctx.pick(1.0, 0.3, 2.5, 1.0, 0.3, 2.5, 2e-3, 60.0))


def capture(ctx, x, h, pre, nsym, start):
    """Signal y[n] = sum_k h[k] x[n + start + pre - k] of the periodic pattern x."""
    n = np.arange(nsym)
    y = np.zeros(nsym)
    for k, v in enumerate(h):
        y += v * x[(n + start + pre - k) % len(x)]
    return y


# -- C20 ---------------------------------------------------------------------------------------------------------------------
def channel_estimate(ctx):
    order = int(ctx.pick(7, 7, 9, 9, 11)) if ctx.rng.random() < 0.97 else int(ctx.pick(13, 13, 13, 15))
    name = ctx.pick('NRZ', 'PAM4', 'PAM4', 'OOK')
    fl = dict(prbs_full_scale=bool(ctx.rng.integers(0, 2)), bit_order_inv=bool(ctx.rng.integers(0, 2)),
              pn_inv_precoding=bool(ctx.rng.integers(0, 2)), gray_coding=bool(ctx.rng.integers(0, 2)), pn_inv_postcoding=bool(ctx.rng.integers(0, 2)))
    x = prbs_levels(order, name, fl['prbs_full_scale'], fl['bit_order_inv'], fl['pn_inv_precoding'], fl['gray_coding'], fl['pn_inv_postcoding'])
    period = len(x)
    pre, post = int(ctx.rng.integers(0, 7)), int(ctx.rng.integers(0, 20))
    h = channel_taps(ctx, pre, post)
    epre, epost = pre + int(ctx.rng.integers(0, 4)), post + int(ctx.rng.integers(0, 8))
    if order == 9 and ctx.rng.random() < 0.15:
        epre = 19                                       # documented default counts, one at a time or both
    if order == 11 and ctx.rng.random() < 0.35:
        epre, epost = 19 if ctx.rng.random() < 0.7 else epre, 500
    reps = int(ctx.rng.integers(1, 5))
    if order <= 9 and ctx.rng.random() < 0.1:
        reps = int(ctx.rng.integers(5, 60 if order == 7 else 20))
    nsym = period * reps + (int(ctx.rng.integers(0, period)) if ctx.rng.random() < 0.5 else 0)
    start = int(ctx.rng.integers(0, period))
    y = capture(ctx, x, h, pre, nsym, start)
    noise = 0.0
    if ctx.rng.random() < 0.3:
        noise = float(ctx.pick(1e-3, 1e-2)) * np.std(y)
        y = y + noise * ctx.rng.normal(size=len(y))
    elif ctx.rng.random() < 0.12:                       # converter codes
        y = np.round(y / np.max(np.abs(y)) * float(ctx.pick(31, 127, 2000))).astype(np.int64)
        noise = 1.0
    norm = bool(ctx.rng.random() < 0.3)
    got, err = ctx.call('channel_estimation_prbs', prbs_enum(order), ctx.lay(y), const(name), channel_postcursor=epost, channel_precursor=epre, normalize=norm, **fl)
    got = np.asarray(got)
    want = np.zeros(epre + epost + 1)
    want[epre - pre:epre + post + 1] = h
    # the best estimate for the averaged capture, by the normal equations of the reference pattern
    avg = y[:period * reps].reshape(reps, period).mean(axis=0)
    n = np.arange(period)
    A = np.stack([x[(n + start + epre - k) % period] for k in range(epre + epost + 1)], axis=1)
    best = np.linalg.lstsq(A, avg, rcond=None)[0]
    if noise == 0:
        ctx.expect_close(best, want, 'reference solution is the channel', rtol=1e-6)
    w = best / np.max(best) if norm else best
    ctx.expect_close(got, w, 'estimated channel (%s PRBS%d, flags %r, normalize %r)' % (name, order, fl, norm), rtol=1e-6, scale=np.max(np.abs(w)), h=h)
    ssr = float(np.sum((A @ best - avg) ** 2))
    e = np.asarray(err, dtype=float).reshape(-1)
    ctx.expect(e.size == 1 and abs(e[0] - ssr) <= 1e-6 * ssr + 1e-15 * np.sum(avg ** 2), 'residual of the channel estimate', got=err, want=ssr)
    ctx.note(True, order=order, name=name, fl=fl, h=h, start=start, nsym=nsym, norm=norm, noise=noise)
    ctx.seen('chest', name, order, 'noisy' if noise else 'clean', norm, *[int(v) for v in fl.values()])


def estimate_of_real_link(ctx):
    """The estimate of a link built by the library itself: generator, coding, mapping and channel of CommDspy."""
    order = int(ctx.pick(7, 9))
    name = ctx.pick('NRZ', 'PAM4', 'OOK')
    m = 2 if name == 'PAM4' else 1
    gray = bool(ctx.rng.integers(0, 2))
    poly = ctx.call('get_polynomial', prbs_enum(order))
    period = 2 ** order - 1
    bits, _ = ctx.call('tx.prbs_gen', poly, np.ones(order, dtype=int), period * m * 4)
    s = ctx.call('tx.bin2symbol', bits, 2 ** m)
    if gray:
        s = ctx.call('tx.coding_gray', s, const(name))
    x = ctx.call('tx.mapping', s, const(name))
    pre, post = int(ctx.rng.integers(0, 5)), int(ctx.rng.integers(0, 12))
    h = channel_taps(ctx, pre, post)
    y, _ = ctx.call('channel.awgn_channel', x, h, 1)
    y = np.asarray(y)[period:]                          # steady state
    got, _ = ctx.call('channel_estimation_prbs', prbs_enum(order), y, const(name), channel_postcursor=post, channel_precursor=pre, gray_coding=gray)
    ctx.expect_close(got, h, 'channel estimate of a %s PRBS%d link' % (name, order), rtol=1e-6)
    ctx.note(True, order=order, name=name, gray=gray, h=h)
    ctx.seen('link', name, order, gray)


C20 = [('channel_estimate', channel_estimate, 5), ('real_link', estimate_of_real_link, 2)]


# -- C21 ---------------------------------------------------------------------------------------------------------------------
def design(refv, y, post, pre, nd):
    """Rows of the documented equalizer: sum_j ffe[j] y[n+post+pre-j] - sum_k dfe[k] ref[n-1-k] = ref[n]."""
    rows = len(y) - (post + pre + max(nd, 1))
    A = np.zeros((rows, post + pre + 1 + nd))
    for i in range(rows):
        n = nd + i
        A[i, :post + pre + 1] = y[n:n + post + pre + 1][::-1]
        for k in range(nd):
            A[i, post + pre + 1 + k] = -refv[n - 1 - k]
    return A, refv[nd:nd + rows].astype(float)


def isi_data(ctx, n, lv):
    x = lv[ctx.rng.integers(0, len(lv), n)]
    h = ctx.rng.normal(size=int(ctx.rng.integers(1, 6))) * 0.2
    h = np.concatenate([[1.0], h])
    y = np.convolve(x, h)[:n]
    return x, y, h


def equalizer_optimal(ctx):
    lv = ref.levels(ctx.pick('NRZ', 'PAM4', 'PAM4', 'OOK', 'PAM3'), bool(ctx.rng.integers(0, 2)))
    post, pre, nd = int(ctx.rng.integers(0, 9)), int(ctx.rng.integers(0, 5)), int(ctx.rng.integers(0, 6))
    if ctx.rng.random() < 0.25:
        post = 23
    if ctx.rng.random() < 0.25:
        pre = 4
    n = int(ctx.rng.integers(120, 400))
    if ctx.rng.random() < 0.1:
        n = 2 * (post + pre + nd) + int(ctx.rng.integers(20, 60))       # a short recording
    elif ctx.rng.random() < 0.01:
        n = int(ctx.rng.integers(2000, 12000))
    x, y, h = isi_data(ctx, n, lv)
    y = y + float(ctx.pick(0.05, 0.3)) * ctx.rng.normal(size=n)
    unit = 1.0
    if ctx.rng.random() < 0.15:                         # another unit for signal and reference
        unit = float(ctx.pick(1e-6, 1e-3, 250.0, 1e4))
        lv, x, y = lv * unit, x * unit, y * unit
    if ctx.rng.random() < 0.15 and unit == 1.0:
        y = np.round(y * 20).astype(int)                # converter codes
    d = int(ctx.rng.integers(0, post + pre + 1))        # the reference leads the signal window by up to its length
    refv = np.concatenate([x[d:], lv[ctx.rng.integers(0, len(lv), d)]])
    kw = dict(ffe_postcursor=post, ffe_precursor=pre, dfe_taps=nd)
    reg = ctx.pick('None', 'None', 'ridge', 'ridge', 'ridge0', 'none', 'lasso')
    if reg == 'lasso' and (unit != 1.0 or n < 100):
        reg = 'ridge'
    lam = 0.0
    if reg == 'ridge':
        lam = float(10 ** ctx.rng.uniform(-3, 3)) * unit ** 2
        kw.update(regularization='ridge', reg_lambda=lam)
    elif reg == 'ridge0':
        kw.update(regularization='ridge', reg_lambda=0)
    elif reg == 'none':
        kw.update(regularization='None', reg_lambda=ctx.pick(5.0, 0.1, 1))
    elif reg == 'lasso':
        kw.update(regularization='lasso', reg_lambda=float(10 ** ctx.rng.uniform(-3, -0.5)))
    norm = bool(ctx.rng.random() < 0.4)
    if norm:
        kw['normalize'] = True
    ffe, dfe, gain, err, mse = ctx.call('equalization_estimation', ctx.lay(refv), ctx.lay(y), **kw)
    A, b = design(refv, y, post, pre, nd)
    if reg == 'lasso':                                  # the taps reach the minimum of the documented objective
        lam, M = kw['reg_lambda'], len(b)
        if norm and not abs(gain) > 1e-3:               # every FFE tap vanishes: there is no cursor to normalize by
            return
        w = gain * np.concatenate([np.asarray(ffe), np.asarray(dfe) if nd else []])
        r = A @ w - b
        best = lasso_reference(A, b, lam)
        if best is not None:
            ctx.expect(0.5 * np.sum(r ** 2) + M * lam * np.sum(np.abs(w)) <= best + 1e-3 * np.sum(b ** 2), 'lasso equalizer is optimal', lam=lam, norm=norm)
        ctx.expect(abs(float(err) - np.sum(r ** 2)) < 1e-6 * np.sum(b ** 2), 'sum of squared residuals (lasso)', got=err, want=float(np.sum(r ** 2)))
        if np.sum((A @ w) ** 2) > 0:
            ctx.expect(abs(mse - 10 * np.log10(np.sum(r ** 2) / np.sum((A @ w) ** 2))) < 1e-4, 'normalized MSE in dB (lasso)', got=mse)
        ctx.note(True, post=post, pre=pre, nd=nd, reg=reg, lam=lam, norm=norm, y=y)
        ctx.seen('optimal', nd, reg, norm)
        return
    w = np.linalg.solve(A.T @ A + lam * np.eye(A.shape[1]), A.T @ b)
    g = np.max(w[:post + pre + 1]) if norm else 1.0
    if norm and abs(g) < 1e-3:
        return
    cond = np.linalg.cond(A.T @ A + lam * np.eye(A.shape[1]))
    tol = max(1e-8, 1e-13 * cond)
    ctx.expect_close(ffe, w[:post + pre + 1] / g, 'FFE taps (%d post, %d pre, %d DFE, %s)' % (post, pre, nd, reg), rtol=tol, scale=np.max(np.abs(w / g)))
    if nd:
        ctx.expect_close(dfe, w[post + pre + 1:] / g, 'DFE taps', rtol=tol, scale=np.max(np.abs(w / g)))
    else:
        ctx.expect(dfe is None or np.size(dfe) == 0, 'no DFE taps requested')
    ctx.expect_close(gain, g, 'digital gain', rtol=tol)
    r = A @ w - b
    ssr = float(np.sum(r ** 2))
    e = np.asarray(err, dtype=float).reshape(-1)
    ctx.expect(e.size == 1 and abs(e[0] - ssr) <= 1e-6 * ssr + 1e-12 * unit ** 2, 'sum of squared residuals', got=err, want=ssr)
    want = 10 * np.log10(np.mean(r ** 2) / np.mean((A @ w) ** 2))
    ctx.expect(abs(mse - want) < 1e-4, 'normalized MSE in dB', got=mse, want=want)
    ctx.note(True, post=post, pre=pre, nd=nd, reg=reg, lam=lam, norm=norm, y=y)
    ctx.seen('optimal', nd, reg, norm)


def equalizer_exact(ctx):
    """Inter-symbol interference of causal taps is removed completely by as many DFE taps."""
    lv = ref.levels(ctx.pick('NRZ', 'PAM4'), False)
    n = int(ctx.rng.integers(100, 300))
    x, y, h = isi_data(ctx, n, lv)
    nd = len(h) - 1 + int(ctx.rng.integers(0, 3))
    gain = float(ctx.pick(1.0, 0.5, 2.0))
    ffe, dfe, _, _, mse = ctx.call('equalization_estimation', x, y * gain, ffe_postcursor=0, ffe_precursor=0, dfe_taps=nd)
    ctx.expect_close(ffe, [1 / gain], 'FFE of a causal channel', rtol=1e-6)
    ctx.expect_close(dfe, np.concatenate([h[1:], np.zeros(nd - len(h) + 1)]), 'DFE taps are the post-cursors of the channel', atol=1e-6)
    ctx.expect(mse < -100, 'nothing is left', mse=mse)
    res = ctx.call('rx.ffe_dfe', y * gain, ffe_taps=np.asarray(ffe), dfe_taps=np.asarray(dfe), levels=lv)
    ctx.expect_close(res[0], x, 'equalized signal', atol=1e-6)
    ctx.note(True, h=h, nd=nd, x=x)
    ctx.seen('exact', nd, len(lv))


def equalizer_prbs(ctx):
    """A PRBS capture is equalized: slicing the FFE-DFE output gives the sent symbols."""
    order = int(ctx.pick(7, 9, 9))
    name = ctx.pick('NRZ', 'PAM4', 'PAM4', 'OOK')
    fl = dict(prbs_full_scale=bool(ctx.rng.integers(0, 2)), bit_order_inv=bool(ctx.rng.integers(0, 2)),
              pn_inv_precoding=bool(ctx.rng.integers(0, 2)), gray_coded=bool(ctx.rng.integers(0, 2)), pn_inv_postmapping=bool(ctx.rng.integers(0, 2)))
    x = prbs_levels(order, name, *fl.values())
    period = len(x)
    hpre, hpost = int(ctx.rng.integers(0, 2)), int(ctx.rng.integers(1, 5))
    h = channel_taps(ctx, hpre, hpost)
    reps = int(ctx.rng.integers(1, 4))
    if order <= 9 and ctx.rng.random() < 0.1:
        reps = int(ctx.rng.integers(4, 30))
    start = int(ctx.rng.integers(0, period))
    y = capture(ctx, x, h, hpre, period * reps + int(ctx.rng.integers(0, period)), start)
    pre, post = hpre + int(ctx.rng.integers(4, 8)), int(ctx.rng.integers(10, 16))
    nd = int(ctx.pick(0, 0, 1, 2, 4))
    norm = bool(ctx.rng.random() < 0.3)
    ffe, dfe, gain, err, mse = ctx.call('equalization_estimation_prbs', prbs_enum(order), ctx.lay(y), const(name), ffe_postcursor=post, ffe_precursor=pre,
                                        dfe_taps=nd, normalize=norm, **fl)
    ffe = np.asarray(ffe)
    ctx.expect(len(ffe) == post + pre + 1, 'number of FFE taps')
    ctx.expect(mse < -25, 'the equalizer removes the interference', mse=mse, h=h, pre=pre, post=post, nd=nd)
    lv = np.sort(ref.levels(name, fl['prbs_full_scale']) * (-1 if fl['pn_inv_postmapping'] else 1))
    if nd == 0:
        out = np.convolve(y, ffe)[:len(y)] * gain
        ctx.expect(dfe is None or np.size(dfe) == 0, 'no DFE')
    else:
        ctx.expect(len(dfe) == nd, 'number of DFE taps')
        out, lead = np.zeros(len(y)), post + pre
        sent = x[(np.arange(len(y)) + start - pre) % period]
        for n in range(lead + nd, len(y)):
            out[n] = gain * (np.dot(ffe, y[n - lead:n + 1][::-1]) - np.dot(dfe, sent[n - nd:n][::-1]))
    n = np.arange(post + pre + nd, len(y))
    got = lv[np.argmin(np.abs(out[n][:, None] - lv), axis=1)]
    ctx.expect_equal(got, x[(n + start - pre) % period], 'equalized and sliced symbols of a %s PRBS%d capture' % (name, order))
    ctx.note(True, order=order, name=name, fl=fl, h=h, nd=nd, norm=norm, start=start)
    ctx.seen('prbs', name, order, nd, norm, *[int(v) for v in fl.values()])


def equalizer_prbs_ls(ctx):
    """The estimate from a PRBS capture is the least squares solution against the locked reference, for any split into FFE and DFE taps."""
    order = int(ctx.pick(7, 9, 9)) if ctx.rng.random() < 0.97 else int(ctx.pick(11, 13))
    name = ctx.pick('NRZ', 'PAM4', 'PAM4', 'OOK')
    fl = dict(prbs_full_scale=bool(ctx.rng.integers(0, 2)), bit_order_inv=bool(ctx.rng.integers(0, 2)),
              pn_inv_precoding=bool(ctx.rng.integers(0, 2)), gray_coded=bool(ctx.rng.integers(0, 2)), pn_inv_postmapping=bool(ctx.rng.integers(0, 2)))
    x = prbs_levels(order, name, *fl.values())
    period = len(x)
    hpost = int(ctx.rng.integers(1, 5))
    hpre = int(ctx.rng.integers(0, 2))
    h = channel_taps(ctx, hpre, hpost)
    reps = int(ctx.rng.integers(0, 4)) if order >= 9 else int(ctx.rng.integers(1, 4))
    if order <= 9 and ctx.rng.random() < 0.1:
        reps = int(ctx.rng.integers(4, 30))
    start = int(ctx.rng.integers(0, period))
    n = period * reps + (int(ctx.rng.integers(0, period)) if reps else int(ctx.rng.integers(300, period)))
    y = capture(ctx, x, h, hpre, n, start)
    exact = hpre == 0 and ctx.rng.random() < 0.3        # the DFE alone removes causal interference
    if exact:
        post, pre, nd = 0, 0, hpost + int(ctx.rng.integers(0, 3))
    else:
        y = y + float(ctx.pick(0.02, 0.1)) * np.std(y) * ctx.rng.normal(size=n)
        post, pre, nd = int(ctx.rng.integers(0, 9)), int(ctx.rng.integers(0, 5)), int(ctx.rng.integers(0, 11))
        if ctx.rng.random() < 0.25:
            post = 23
        if ctx.rng.random() < 0.25:
            pre = 4
    kw, lam = {}, 0.0
    if not exact and ctx.rng.random() < 0.3:
        lam = float(10 ** ctx.rng.uniform(-3, 2))
        kw.update(regularization='ridge', reg_lambda=lam)
    norm = not exact and bool(ctx.rng.random() < 0.3)
    if norm:
        kw['normalize'] = True
    ffe, dfe, gain, err, mse = ctx.call('equalization_estimation_prbs', prbs_enum(order), ctx.lay(y), const(name), ffe_postcursor=post, ffe_precursor=pre,
                                        dfe_taps=nd, **kw, **fl)
    avg = y[:period * reps].reshape(reps, period).mean(axis=0) if reps else y
    refv = x[(np.arange(len(avg)) + start + post) % period]
    A, b = design(refv, avg, post, pre, nd)
    w = np.linalg.solve(A.T @ A + lam * np.eye(A.shape[1]), A.T @ b)
    tol = max(1e-7, 1e-13 * np.linalg.cond(A.T @ A + lam * np.eye(A.shape[1])))
    r, power = A @ w - b, np.mean((A @ w) ** 2)
    if norm:
        g = float(np.max(w[:post + pre + 1]))
        if abs(g) < 1e-3 * np.max(np.abs(w)):
            return
        ctx.expect_close(gain, g, 'digital gain from a PRBS capture', rtol=tol, scale=np.max(np.abs(w)))
        w, tol = w / g, tol * np.max(np.abs(w)) / abs(g)
    if not exact:
        e = np.asarray(err, dtype=float).reshape(-1)
        ctx.expect(e.size == 1 and abs(e[0] - np.sum(r ** 2)) < 1e-6 * np.sum(r ** 2) + 1e-12 * np.sum(b ** 2), 'sum of squared residuals of a PRBS capture', got=err, want=float(np.sum(r ** 2)))
        ctx.expect(abs(mse - 10 * np.log10(np.mean(r ** 2) / power)) < 1e-3, 'normalized MSE of a PRBS capture', got=mse)
    ctx.expect_close(ffe, w[:post + pre + 1], 'FFE taps from a PRBS capture (%d post, %d pre, %d DFE)' % (post, pre, nd), rtol=tol, scale=np.max(np.abs(w)), h=h, start=start)
    if nd:
        ctx.expect_close(dfe, w[post + pre + 1:], 'DFE taps from a PRBS capture', rtol=tol, scale=np.max(np.abs(w)), h=h, start=start)
    if exact:
        ctx.expect_close(dfe, np.concatenate([h[1:] / h[0], np.zeros(nd - hpost)]), 'DFE taps cancel the post-cursors', atol=1e-6)
        ctx.expect(mse < -80, 'nothing is left', mse=mse)
    ctx.expect(norm or gain == 1, 'gain without normalization')
    ctx.note(True, order=order, name=name, fl=fl, h=h, post=post, pre=pre, nd=nd, lam=lam, start=start, n=n)
    ctx.seen('prbs_ls', name, 'nd>post' if nd > post else 'nd<=post', 'ridge' if lam else 'ols', 'part' if reps == 0 else 'periods', 'exact' if exact else 'noisy')


def lasso_reference(A, b, lam):
    """Coordinate descent to high accuracy for |b - A w|^2 / (2 M) + lam |w|_1; returns the minimum of M times that."""
    M, N = A.shape
    G, c = A.T @ A, A.T @ b
    w = np.zeros(N)
    for _ in range(3000):
        old = w.copy()
        for j in range(N):
            r = c[j] - G[j] @ w + G[j, j] * w[j]
            w[j] = np.sign(r) * max(abs(r) - M * lam, 0) / G[j, j]
        if np.max(np.abs(w - old)) <= 1e-13 * max(1.0, np.max(np.abs(w))):
            break
    else:
        return None
    return 0.5 * np.sum((b - A @ w) ** 2) + M * lam * np.sum(np.abs(w))


def least_squares_case(ctx):
    M, N = int(ctx.rng.integers(10, 80)), int(ctx.rng.integers(1, 9))
    A, b = ctx.rng.normal(size=(M, N)), ctx.rng.normal(size=M) * 2
    A += float(ctx.pick(0, 0, 1.0))                     # columns with a common offset
    b += float(ctx.pick(0, 0, 2.0))
    mode = ctx.pick('None', 'ridge', 'lasso')
    lam = float(10 ** ctx.rng.uniform(-2, 1.5)) if mode == 'ridge' else float(10 ** ctx.rng.uniform(-2, 0))
    if mode == 'None':
        w, err = ctx.call('misc.least_squares:least_squares', A, b, *ctx.pick((), (), ('None', lam)))
    else:
        w, err = ctx.call('misc.least_squares:least_squares', A, b, mode, lam)
    w = np.asarray(w)
    r = b - A @ w
    e = np.asarray(err, dtype=float).reshape(-1)
    ctx.expect(e.size == 1 and abs(e[0] - np.sum(r ** 2)) < 1e-6 * np.sum(b ** 2), 'sum of squared residuals', got=err, want=float(np.sum(r ** 2)))
    g = A.T @ r
    sc = np.linalg.norm(A) * np.linalg.norm(b)
    if mode == 'None':
        ctx.expect(np.max(np.abs(g)) < 1e-7 * sc, 'least squares residual is orthogonal to the columns', got=g)
    elif mode == 'ridge':
        ctx.expect(np.max(np.abs(g - lam * w)) < 1e-6 * sc, 'ridge optimality', got=g - lam * w, lam=lam)
    else:
        ctx.expect(len(w) == N, 'lasso size')
        best = lasso_reference(A, b, lam)
        got = 0.5 * np.sum(r ** 2) + M * lam * np.sum(np.abs(w))
        ctx.expect(best is None or got <= best + 3e-4 * np.sum(b ** 2), 'lasso objective is minimal', got=got, want=best, lam=lam, M=M)
        w2, _ = ctx.call('misc.least_squares:least_squares', A, b, 'lasso', lam * 10)
        ctx.expect(np.sum(np.abs(w2)) <= np.sum(np.abs(w)) + 1e-3 * (1 + np.sum(np.abs(w))), 'more regularization shrinks the solution')
    if mode != 'lasso' and ctx.rng.random() < 0.3:
        if mode == 'None':
            wm, em = ctx.call('misc.least_squares:ols_manual', A, b)
        else:
            wm, em = ctx.call('misc.least_squares:ridge_regression_manual', A, b, lam)
        ctx.expect_close(wm, w, 'the spelled-out solution agrees with the library one', rtol=1e-6, scale=np.linalg.norm(w) + 1e-12)
        ctx.expect(abs(float(em) - np.sum(r ** 2)) < 1e-6 * np.sum(b ** 2), 'its sum of squared residuals', got=em)
    if mode == 'lasso' and ctx.rng.random() < 0.1:
        wm, em, _, path = ctx.call('misc.least_squares:lasso_regression_manual', A, b, lam, max_steps=int(ctx.pick(2, 5, 50)), return_path=True)
        ctx.expect(abs(float(em) - np.sum((b - A @ np.asarray(wm)) ** 2)) < 1e-6 * (float(em) + np.sum(b ** 2)), 'the descent returns the residual of its solution', got=em)
        ctx.expect_close(np.asarray(path)[:, -1], wm, 'the descent path ends at the solution', rtol=1e-9)
    if ctx.rng.random() < 0.1:
        ctx.call_raises('misc.least_squares:least_squares', ValueError, A, b, 'elastic', 1.0)
    ctx.note(True, A=A, b=b, mode=mode, lam=lam)
    ctx.seen('ls', mode, N)


C21 = [('optimal', equalizer_optimal, 6), ('exact', equalizer_exact, 2), ('prbs', equalizer_prbs, 4), ('prbs_ls', equalizer_prbs_ls, 4), ('least_squares', least_squares_case, 3)]


# -- C22 ---------------------------------------------------------------------------------------------------------------------
def gradients(ctx):
    soft = bool(ctx.rng.integers(0, 2))
    lv = ref.levels(ctx.pick('NRZ', 'PAM4', 'PAM3'), bool(ctx.rng.integers(0, 2)))
    n = ctx.length(8, 100, 2000, 20000)
    x = lv[ctx.rng.integers(0, len(lv), n)]
    out = x + 0.3 * ctx.rng.normal(size=n) * np.min(np.diff(lv))
    inp = ctx.rng.normal(size=n) + x
    wide = n > 60 and ctx.rng.random() < 0.1
    fi = ctx.rng.permutation(np.arange(-3, 6) if not wide else np.arange(-12, 40))[:int(ctx.rng.integers(0, 9))]
    di = 1 + ctx.rng.permutation(6 if not wide else 30)[:int(ctx.rng.integers(0, 7))]
    given = bool(ctx.rng.random() < 0.4)
    sigma = float(ctx.pick(1, 0.5, 2.0, 0.3, 0.05))
    if soft and ctx.rng.random() < 0.1:
        out = out * float(ctx.pick(3, 30))              # far outside the constellation
    if ctx.rng.random() < 0.2:                          # another unit
        u = float(ctx.pick(1e-6, 1e-3, 1e3))
        lv, x, out, inp, sigma = lv * u, x * u, out * u, inp * u, sigma * u
    kw = {}
    if len(fi) or ctx.rng.random() < 0.5:
        kw['ffe_tap_idx'] = np.array(fi, dtype=int)
    if len(di) or ctx.rng.random() < 0.5:
        kw['dfe_tap_idx'] = np.array(di, dtype=int)
    if given:
        kw['reference_vec'] = x
    if soft and (sigma != 1.0 or ctx.rng.random() < 0.5):
        kw['sigma'] = sigma
    elif soft:
        sigma = 1.0
    res = ctx.call('rx.soft_ddlms_grad' if soft else 'rx.ddlms_grad', ctx.lay(inp), ctx.lay(out), lv, **kw)
    th = (lv[1:] + lv[:-1]) / 2
    dec = x if given else lv[np.searchsorted(th, out)]
    if soft:
        q = (out[:, None] - lv) ** 2 / (2 * sigma ** 2)
        e2 = np.exp(q.min(axis=1, keepdims=True) - q)
        f = e2.sum(axis=1) / (len(lv) * np.sqrt(2 * np.pi * sigma ** 2))
        loss = float(np.mean(q.min(axis=1) - np.log(f)))
        e = np.sum((out[:, None] - lv) / sigma ** 2 * e2, axis=1) / f
    else:
        e = out - dec
        loss = float(np.mean(e ** 2))
    want = [loss]
    if len(fi):
        g = []
        for i in fi:
            v = [e[k] * inp[k - i] for k in range(n) if 0 <= k - i < n]
            g.append(0.5 * np.mean(v))
        want.append(np.array(g))
    if len(di):
        g = []
        for j in di:
            v = [e[k] * dec[k - j] for k in range(n) if k - j >= 0]
            g.append(-0.5 * np.mean(v))
        want.append(np.array(g))
    if len(want) == 1:
        res = (res,)
    ctx.expect(len(res) == len(want), 'loss plus one gradient per kind of tap asked for', got=len(res), want=len(want))
    sc = float(np.max(np.abs(e)) * (np.max(np.abs(inp)) + np.max(np.abs(lv)))) + 1e-300
    for i, (g, w) in enumerate(zip(res, want)):
        tol = 1e-11 * abs(loss) if i == 0 and not soft else 1e-9 * max(sc, abs(loss)) if i == 0 else 1e-10 * max(sc, abs(loss))
        ctx.expect_close(g, w, ('soft ' if soft else '') + ('loss' if i == 0 else 'gradient'), atol=tol, fi=fi, di=di)
    if not soft and ctx.rng.random() < 0.1:
        ctx.call_raises('rx.ddlms_grad', ValueError, inp, out, lv, reference_vec=x[:-1])
    ctx.note(True, soft=soft, fi=fi, di=di, given=given, out=out)
    ctx.seen('grad', 'soft' if soft else 'hard', len(fi) > 0, len(di) > 0, given, 'pre' if (fi < 0).any() else 'causal')


def descent(ctx):
    """Following the gradient with a small step lowers the MSE of a linear equalizer."""
    lv = ref.levels(ctx.pick('NRZ', 'PAM4'), True)
    n = 1500
    x = lv[ctx.rng.integers(0, len(lv), n)]
    h = np.array([1.0, float(ctx.rng.uniform(-0.15, 0.15)), float(ctx.rng.uniform(-0.1, 0.1))])
    y = np.convolve(x, h)[:n]
    idx = np.arange(4)
    ffe = np.array([1.0, 0, 0, 0])
    last = None
    for _ in range(25):
        out = np.convolve(y, ffe)[:n]
        mse, g = ctx.call('rx.ddlms_grad', y, out, lv, idx, reference_vec=x)
        if last is not None:
            ctx.expect(mse <= last * (1 + 1e-6) + 1e-9, 'the MSE decreases along the gradient', before=last, after=mse, h=h)
        last = mse
        ffe = ffe - 0.4 * np.asarray(g)
    ctx.note(True, h=h, n=ctx.rng.integers(0, 2 ** 31))
    ctx.seen('descent', len(lv))


def timing(ctx):
    lv = ref.levels(ctx.pick('NRZ', 'PAM4', 'OOK'), bool(ctx.rng.integers(0, 2)))
    n = ctx.length(3, 200, 3000, 40000)
    x = lv[ctx.rng.integers(0, len(lv), n)]
    pre, post = float(ctx.rng.uniform(-0.5, 0.5)), float(ctx.rng.uniform(-0.5, 0.5))
    if ctx.rng.random() < 0.2:
        post = pre
    y = x + np.concatenate([pre * x[1:], [0]]) + np.concatenate([[0], post * x[:-1]]) + 0.01 * ctx.rng.normal(size=n)
    if ctx.rng.random() < 0.15:                             # converter codes
        x, y = np.round(x * 10).astype(int), np.round(y * 30).astype(int)
    kw = {}
    u = 1.0
    if ctx.rng.random() < 0.2:
        u = float(ctx.pick(1e-2, 1e3, 1e5))
        x, y = x * u, y * u
    wp, wq, tol = 1.0, 1.0, 1e-3
    if ctx.rng.random() < 0.5:
        wp, wq = float(ctx.rng.uniform(0.2, 3)), float(ctx.rng.uniform(0.2, 3))
        if ctx.rng.random() < 0.4:                          # only one of them given
            wp, wq = (wp, 1.0) if ctx.rng.random() < 0.5 else (1.0, wq)
        kw.update({k: w for k, w in (('pre_weight', wp), ('post_weight', wq)) if w != 1.0})
    if ctx.rng.random() < 0.4:
        tol = float(ctx.pick(0, 0.05, 0.5, 10.0)) * u ** 2
        kw['tol'] = tol
    got = ctx.call('rx.mueller_muller_step', ctx.lay(y), ctx.lay(x), **kw)
    a = np.mean([x[k + 1] * y[k] for k in range(n - 1)])
    b = np.mean([x[k] * y[k + 1] for k in range(n - 1)])
    s = wq * b - wp * a
    want = 0 if abs(s) < tol else (1 if s > 0 else -1)
    if abs(abs(s) - tol) > 1e-9 * u ** 2 and abs(s) > 1e-12 * u ** 2:
        ctx.expect(got == want, 'timing step', got=int(got), want=want, pre=float(a), post=float(b), tol=tol)
    ctx.note(True, x=x, y=y, kw=kw)
    ctx.seen('timing', want, len(kw))


def timing_border(ctx):
    """A difference of exactly the tolerance (all means exact in binary) makes a step, the next smaller one does not."""
    n = 1 + 2 ** int(ctx.rng.integers(1, 9))
    x, y = ctx.rng.integers(-3, 4, n), ctx.rng.integers(-30, 31, n)
    s = (int(np.dot(x[:-1], y[1:])) - int(np.dot(x[1:], y[:-1]))) / (n - 1)
    if s == 0:
        ctx.note(False)
        return
    cast = ctx.pick(int, float)
    wp = {} if ctx.rng.random() < 0.5 else {'pre_weight': 1.0, 'post_weight': 1.0}
    got = ctx.call('rx.mueller_muller_step', y.astype(cast), x.astype(cast), tol=abs(s), **wp)
    ctx.expect(got == np.sign(s), 'a difference equal to the tolerance is a step', got=int(got), difference=s)
    got = ctx.call('rx.mueller_muller_step', y.astype(cast), x.astype(cast), tol=abs(s) * (1 + 1e-6), **wp)
    ctx.expect(got == 0, 'a difference below the tolerance is no step', got=int(got), difference=s)
    ctx.note(True, x=x, y=y)
    ctx.seen('timing_border', int(np.sign(s)), n)


def timing_direction(ctx):
    """Early and late sampling of a symmetric pulse pull the timing in opposite directions; the centre stays put."""
    osr, span = 16, 8
    lv = ref.levels(ctx.pick('NRZ', 'PAM4'), True)
    n = 4000
    x = lv[ctx.rng.integers(0, len(lv), n)]
    sh, _ = ctx.call('channel.pulse_shape', x, osr, span, 'rcos', 0.8)
    sh = np.asarray(sh)
    off = int(ctx.rng.integers(3, 6))
    k = np.arange(0, n - 2 * span - 2)
    steps = []
    for d in (-off, 0, off):
        steps.append(int(ctx.call('rx.mueller_muller_step', sh[(span + 1 + k) * osr + d], x[k + 1], tol=0.05)))
    ctx.expect(steps[1] == 0, 'no step at the symbol centre', steps=steps)
    ctx.expect(steps[0] == -steps[2] and steps[0] != 0, 'opposite steps for early and late sampling', steps=steps)
    ctx.expect(steps[0] == 1, 'early sampling sees the larger postcursor and steps later', steps=steps)
    ctx.note(True, off=off, n=ctx.rng.integers(0, 2 ** 31))
    ctx.seen('direction', off)


C22 = [('gradients', gradients, 8), ('descent', descent, 1), ('timing', timing, 5), ('timing_border', timing_border, 1), ('timing_direction', timing_direction, 1)]


# -- C23 ---------------------------------------------------------------------------------------------------------------------
def welch_ref(x, fs, nwin, nfft, nover, window):
    from scipy.signal import get_window
    w = get_window(window, nwin)
    step = nwin - nover
    acc, cnt = 0.0, 0
    real = not np.iscomplexobj(x)
    for s in range(0, len(x) - nwin + 1, step):
        seg = x[s:s + nwin]
        seg = (seg - np.mean(seg)) * w
        acc = acc + np.abs(np.fft.fft(seg, nfft)) ** 2
        cnt += 1
    p = acc / cnt / np.sum(w) ** 2
    f = np.fft.fftfreq(nfft, 1 / fs)
    if real:
        half = nfft // 2 + 1
        p = p[:half].copy()
        p[1:-1] *= 2
        f = np.abs(f[:half])
    return f, p


def spectrum(ctx):
    fs = float(ctx.pick(1.0, 1e3, 2.5e9))
    x = ctx.rng.normal(size=int(ctx.rng.integers(2000, 6000)) if ctx.rng.random() < 0.995 else int(ctx.rng.integers(6000, 70000)))
    k = ctx.rng.integers(0, 3)
    n = np.arange(len(x))
    if k == 1:
        x = 0.1 * x + np.sin(2 * np.pi * 0.123 * n) + 0.5
    elif k == 2:
        x = x + 1j * ctx.rng.normal(size=len(x)) + np.exp(2j * np.pi * 0.2 * n)
        if ctx.rng.random() < 0.4:                          # in-phase only for a while
            lo = int(ctx.rng.integers(1, len(x) - 1))
            x[lo:lo + int(ctx.rng.integers(1, len(x) // 2))].imag = 0
    if k == 0 and ctx.rng.random() < 0.4:
        x = np.round(x * ctx.pick(20, 500)).astype(int)     # converter codes
    if x.dtype.kind != 'i' and ctx.rng.random() < 0.15:
        x = x * float(ctx.pick(1e-6, 1e-3, 1e3, 1e6))
    mode = ctx.pick('dB', 'dBm', 'dBm/Hz', 'dBuv', 'dBuv/sqrt(Hz)', 'dBc', 'dBFs', 'default', 'obw')
    kw = {} if mode in ('default', 'obw') else {'mode': mode}
    rbw = fs / 1000
    if ctx.rng.random() < 0.6:
        rbw = fs / float(ctx.pick(50, 100.5, 333.3, np.round(ctx.rng.uniform(4, 900), 1) + 0.05))
        kw['rbw'] = rbw
        if ctx.rng.random() < 0.3:                          # few segments, down to one
            nwin = int(1.9 * np.ceil(fs / rbw))
            x = x[:int(ctx.pick(nwin, nwin + 1, nwin + int(ctx.rng.integers(0, 400))))]
    else:
        rbw = max(fs / 1000, 2 * fs / len(x) / 10)
    obw = None
    if mode == 'obw':
        obw = kw['obw'] = rbw * ctx.pick(7, 1.0, 0.3)
        mode = 'dBc'
        if ctx.rng.random() < 0.4:                          # the mode is considered to be dBc whatever is given
            kw['mode'] = ctx.pick('dB', 'dBm', 'dBm/Hz', 'dBuv', 'dBuv/sqrt(Hz)', 'dBc', 'dBFs')
    r = 50.0
    if ctx.rng.random() < 0.3:
        r = kw['r'] = ctx.pick(75.0, 100, 0.5)
    full = 1.0
    if ctx.rng.random() < 0.3:
        full = kw['fullscale'] = ctx.pick(2.5, 0.4, 2)
    sb = 'DSB'
    if ctx.rng.random() < 0.3:
        sb = kw['sb_mode'] = 'SSB'
    osr, over, window = 4, 0.75, 'blackmanharris'
    if ctx.rng.random() < 0.3:
        osr, over, window = int(ctx.pick(1, 2, 8, 3, 5, 16, 64)), float(ctx.pick(0, 0.5, 0.25, 0.9)), ctx.pick('hann', 'boxcar', 'hamming', 'flattop', ('kaiser', 8))
        if ctx.rng.random() < 0.3:                          # only one of them given
            osr, over, window = ctx.pick((osr, 0.75, 'blackmanharris'), (4, over, 'blackmanharris'), (4, 0.75, window))
        kw.update({k: w for k, w, d in (('osr', osr, 4), ('overlap', over, 0.75), ('window', window, 'blackmanharris')) if w != d})
    plot = ctx.rng.random() < 0.01
    if plot:
        kw['plot'] = True
    shaped = x.reshape(2, -1) if len(x) % 2 == 0 and ctx.rng.random() < 0.2 else x
    f, p = ctx.call('psa:psa', ctx.lay(shaped), fs, **kw)
    if plot:
        import matplotlib.pyplot as plt
        plt.close('all')
    eff = fs / 2 if not np.iscomplexobj(x) and sb == 'DSB' else fs
    rms = np.sqrt(np.mean(np.abs(x * 1.0) ** 2))
    c = {'dB': 1, 'default': 1, 'dBm': 1000 / r * rbw / eff, 'dBm/Hz': 1000 / r / eff, 'dBuv': rbw / eff * 1e12, 'dBuv/sqrt(Hz)': 1e12 / eff,
         'dBc': (obw or rbw) / eff / rms ** 2, 'dBFs': (obw or rbw) / eff / full ** 2}[mode]
    nwin = int(1.9 * np.ceil(fs / rbw))
    nfft = int(2 ** np.ceil(np.log2(nwin * osr)))
    fr, pr = welch_ref(x, fs, nwin, nfft, int(np.floor(nwin * over)), window)
    ctx.expect_close(f, fr, 'frequency axis', rtol=1e-9, scale=fs)
    # (narrow integer types are analysed in single precision)
    ctx.expect_close(p, pr * c, 'power spectrum (%s)' % mode, **({'rtol': 1e-8} if x.dtype.kind != 'i' else {'rtol': 1e-5, 'scale': float(np.max(pr * c))}))
    ctx.note(True, mode=mode, kw={k: str(v) for k, v in kw.items()}, x=x)
    ctx.seen('psa', mode, x.dtype.kind, sb, 'rbw' if 'rbw' in kw else 'auto', 'plot' if plot else '')


def tone(ctx):
    """A tone shows up at its frequency with its power."""
    fs = float(ctx.pick(1.0, 1e6))
    amp, f0 = float(ctx.rng.uniform(0.1, 5)), float(ctx.rng.uniform(0.05, 0.45))
    n = np.arange(6000)
    x = amp * np.cos(2 * np.pi * f0 * n + float(ctx.rng.uniform(0, 6)))
    f, p = ctx.call('psa:psa', x, fs, rbw=fs / 200)
    f, p = np.asarray(f), np.asarray(p)
    k = int(np.argmax(p))
    ctx.expect(abs(f[k] - f0 * fs) < fs / 400, 'tone frequency', got=float(f[k]), want=f0 * fs)
    ctx.expect(abs(p[k] / (amp ** 2 / 2) - 1) < 0.05, 'tone power', got=float(p[k]), want=amp ** 2 / 2)
    ctx.note(True, amp=amp, f0=f0, fs=fs)
    ctx.seen('tone', fs)


def psa_bad(ctx):
    ctx.call_raises('psa:psa', ValueError, ctx.rng.normal(size=3000), 1.0, mode=ctx.pick('dbm', 'watt', ''))
    ctx.note(False)
    ctx.seen('refused')


C23 = [('spectrum', spectrum, 8), ('tone', tone, 3), ('psa_bad', psa_bad, 1)]
