"""C25: a complete link of library blocks recovers the sent bits.  C26: the example simulation's blocks."""
import numpy as np
from harness import ref
from harness.core import TARGET
from harness.props.symbols import const
from harness.props.est import prbs_enum
from harness.props import filters

SIM = 'example_simulation.simulation_parts.'


# -- C25 ---------------------------------------------------------------------------------------------------------------------
def transmit(ctx, order, name, nsym, cfg):
    """Library transmitter: (bits, mapped symbols)."""
    m = 2 if name == 'PAM4' else 1
    poly = ctx.call('get_polynomial', prbs_enum(order))
    seed = ctx.rng.integers(0, 2, order)
    seed[int(ctx.rng.integers(0, order))] = 1
    bits, _ = ctx.call('tx.prbs_gen', poly, seed, nsym * m)
    bits = np.asarray(bits)
    s = ctx.call('tx.bin2symbol', bits.copy(), 2 ** m, *cfg['flags'])
    if cfg['diff']:
        s = ctx.call('tx.coding_differential', s, const(name))
    if cfg['gray']:
        s = ctx.call('tx.coding_gray', s, const(name))
    x = ctx.call('tx.mapping', s, const(name), full_scale=cfg['fs'], pn_inv=cfg['pn'])
    return bits, np.asarray(x)


def receive(ctx, y, name, cfg):
    """Library receiver after the slicer input."""
    m = 2 if name == 'PAM4' else 1
    lv = ctx.call('get_levels', const(name), cfg['fs'])
    sl = np.asarray(ctx.call('rx.slicer', y, levels=lv))
    s = ctx.call('rx.demapping', sl, const(name), full_scale=cfg['fs'], pn_inv=cfg['pn'])
    if cfg['gray']:
        s = ctx.call('rx.decoding_gray', s, const(name))
    if cfg['diff']:
        s = ctx.call('rx.decoding_differential', s, const(name))
    return sl, np.asarray(ctx.call('rx.symbol2bin', np.asarray(s).astype(int), 2 ** m, *cfg['flags']))


def config(ctx, name, prbs_est=False):
    f = [bool(ctx.rng.integers(0, 2)) for _ in range(4)]
    if name != 'PAM4':
        f = [False, False, False, f[3]]
    return {'flags': f, 'gray': bool(ctx.rng.integers(0, 2)), 'diff': bool(ctx.rng.random() < 0.3),
            'fs': bool(ctx.rng.integers(0, 2)), 'pn': bool(ctx.rng.integers(0, 2)) and name != 'OOK'}


def check_stream(ctx, order, bits_rx, bits_tx, what):
    """The genie checker reports exactly the bits which differ from what was sent."""
    want = (np.asarray(bits_rx) != np.asarray(bits_tx))
    lost, good, err = ctx.call('rx.prbs_checker', prbs_enum(order), np.asarray(bits_rx), False)
    ctx.expect_equal(np.asarray(err).astype(int), want.astype(int), what + ': errors reported by the checker')
    ctx.expect(int(good) == len(want) - int(want.sum()), what + ': correct bit count', got=good)
    ctx.expect(bool(lost) == (int(want.sum()) >= 100), what + ': lost lock', got=lost)


def link_clean(ctx):
    """Transmitter, pulse shaping, sampling, receiver: no noise, no errors; then symbol errors are injected."""
    order = int(ctx.pick(7, 7, 9)) if ctx.rng.random() < 0.98 else int(ctx.pick(11, 11, 13))
    name = ctx.pick('NRZ', 'OOK', 'PAM4', 'PAM4', 'PAM4')
    m = 2 if name == 'PAM4' else 1
    P = 2 ** order - 1
    nsym = -(-P // m) + int(ctx.rng.integers(0, P))
    cfg = config(ctx, name)
    bits, x = transmit(ctx, order, name, nsym, cfg)
    osr, span = int(ctx.rng.integers(1, 9)), int(ctx.rng.integers(1, 9))
    pulse = ctx.pick('rcos', 'rcos', 'sinc', 'imp', 'rect')
    delay = 0 if pulse == 'imp' else span
    y, _ = ctx.call('channel.pulse_shape', np.concatenate([x, np.zeros(delay)]), osr=osr, span=span, pulse=pulse, beta=float(ctx.pick(0.1, 0.5, 0.9)))
    y = np.asarray(y)[delay * osr::osr][:nsym]
    gain = np.max(np.abs(x)) / max(np.max(np.abs(y)), 1e-12) if pulse == 'rect' else 1.0
    ctx.expect_close(y * gain, x, 'a %s shaped signal sampled at the symbol instants' % pulse, rtol=1e-6)
    sl, got = receive(ctx, y * gain, name, cfg)
    what = '%s PRBS%d link %r' % (name, order, cfg)
    ctx.expect_equal(got, bits, what + ': recovered bits')
    check_stream(ctx, order, got, bits, what)
    # symbol errors
    k = int(ctx.rng.integers(1, 9))
    pos = ctx.rng.choice(nsym, k, replace=False)
    lv = np.sort(np.unique(ref.levels(name, cfg['fs'])))
    bad = (y * gain).copy()
    for i in pos:
        j = int(np.argmin(np.abs(lv - bad[i])))
        j2 = ctx.pick(*[q for q in (j - 1, j + 1) if 0 <= q < len(lv)])
        bad[i] = lv[j2]
    _, got = receive(ctx, bad, name, cfg)
    if cfg['gray'] and not cfg['diff']:
        ctx.expect(int(np.sum(got != bits)) == k, what + ': %d adjacent symbol errors of a Gray coded link are %d bit errors' % (k, int(np.sum(got != bits))))
    ctx.expect(k <= int(np.sum(got != bits)) if not cfg['diff'] else np.any(got != bits), what + ': symbol errors show up as bit errors')
    check_stream(ctx, order, got, bits, what + ' with %d symbol errors' % k)
    ctx.note(True, order=order, name=name, cfg=cfg, pos=pos, osr=osr, span=span, pulse=pulse, bits=bits)
    ctx.seen('clean', name, pulse, *[int(v) for v in cfg['flags']], cfg['gray'], cfg['diff'], cfg['fs'], cfg['pn'])


def link_equalized(ctx):
    """The README receiver: pulse, ISI (+ low noise), optional CTLE, phase search, FFE-DFE, slicer, decoding, checker."""
    order = int(ctx.pick(7, 9, 9)) if ctx.rng.random() < 0.98 else 11
    name = ctx.pick('NRZ', 'PAM4', 'PAM4')
    m = 2 if name == 'PAM4' else 1
    P = 2 ** order - 1
    cfg = config(ctx, name)
    cfg['diff'] = False
    cfg['flags'] = [cfg['flags'][0], False, False, cfg['flags'][3]]      # the estimator knows these flags only
    nsym = 2 * P + int(ctx.rng.integers(60, 200))
    bits, x = transmit(ctx, order, name, nsym, cfg)
    osr, span = int(ctx.pick(2, 4, 4, 8)), int(ctx.rng.integers(4, 9))
    y, _ = ctx.call('channel.pulse_shape', x, osr=osr, span=span, pulse='rcos', beta=float(ctx.pick(0.35, 0.5, 0.9)))
    h = np.concatenate([[1.0], ctx.rng.normal(size=int(ctx.rng.integers(0, 4)))])
    h[1:] *= 0.35 / max(np.sum(np.abs(h[1:])), 1e-9)
    b, a = ctx.call('upsample', h, osr), [1]
    if ctx.rng.random() < 0.3:
        a = ctx.call('upsample', [1, float(ctx.pick(-0.2, 0.15))], osr)
    snr = ctx.pick(None, None, 40.0)
    gain = float(ctx.pick(1.0, 0.5, 3.0))
    y, _ = ctx.call('channel.awgn_channel', np.asarray(y), gain * np.asarray(b), a, snr=snr)
    y = np.asarray(y)[(span + 8) * osr:]
    use_ctle = bool(ctx.rng.random() < 0.4)
    if use_ctle:
        y = np.asarray(ctx.call('rx.ctle', y, [5e8, 11e9], [1e9, 20e9, 25e9], float(ctx.pick(-4, 0)), fs=53.125e9, osr=osr))[20 * osr:]
    mat = np.asarray(ctx.call('buffer', y, osr, 0, 0, True))
    nd = int(ctx.pick(0, 1, 1, 2))
    pre, post = 6, 16
    best = None
    for ph, v in enumerate(mat.T):
        r = ctx.call('equalization_estimation_prbs', prbs_enum(order), v.copy(), const(name), prbs_full_scale=cfg['fs'], ffe_postcursor=post, ffe_precursor=pre,
                     dfe_taps=nd, bit_order_inv=cfg['flags'][0], pn_inv_precoding=cfg['flags'][3], gray_coded=cfg['gray'], pn_inv_postmapping=cfg['pn'])
        if best is None or r[-1] < best[0]:
            best = (r[-1], ph, r)
    mse, ph, r = best
    ctx.expect(mse < -25, 'the best sampling phase can be equalized (MSE %.1f dB)' % mse, h=h, nd=nd)
    ffe = np.asarray(r[0])
    lv = ref.levels(name, cfg['fs'])
    what = '%s PRBS%d equalized link (nd=%d ctle=%r)' % (name, order, nd, use_ctle)
    # the equalizer with the sent symbols as its past decisions: with every sample inside its decision region, the real one,
    # started from the sent symbols, cannot err (started from zeros it may propagate wrong first decisions for ever)
    v = mat[:, ph]
    lead = pre + post + 40
    lin = np.convolve(v, ffe)[:len(v)]
    best = None
    for off in range(-pre - post - 2, 60):
        n = np.arange(lead, len(v))
        n = n[(n + off - nd >= 0) & (n + off < len(x))]
        if len(n) < len(v) // 2 or n[0] != lead:
            continue
        ideal = lin[n] - (sum(r[1][k] * x[n + off - 1 - k] for k in range(nd)) if nd else 0.0)
        e = np.max(np.abs(ideal - x[n + off]))
        if best is None or e < best[0]:
            best = (e, off, n)
    ctx.expect(best is not None, what + ': no alignment of the equalized signal with the sent one')
    gap = np.min(np.diff(np.sort(np.unique(lv))))
    ctx.expect(best[0] < 0.45 * gap, what + ': the equalized eye is open', peak_error=best[0], gap=gap, mse=mse)
    off, n = best[1], best[2]
    kw = {'ffe_taps': ffe, 'levels': lv, 'zi_ffe': v[lead - len(ffe):lead].copy()}
    if nd:
        kw.update(dfe_taps=np.asarray(r[1]), zi_dfe=x[lead + off - nd:lead + off][::-1].astype(float))
    z = np.asarray(ctx.call('rx.ffe_dfe', v[lead:n[-1] + 1].copy(), **kw)[0])
    if osr > 1 and nd == 0:
        # without decision feedback the over-sampled FFE, sampled at the phase, is the FFE at one sample per symbol
        up = np.asarray(ctx.call('upsample', ffe, osr))
        zo = np.asarray(ctx.call('rx.ffe_dfe', y, ffe_taps=up)[0])[ph::osr][lead:lead + len(z)]
        ctx.expect_close(zo, z, 'over-sampled FFE at the sampling phase', rtol=1e-8, scale=np.max(np.abs(z)))
    sl, got = receive(ctx, z, name, cfg)
    lost, good, err = ctx.call('rx.prbs_checker', prbs_enum(order), got, False)
    ctx.expect(int(np.sum(err)) == 0 and not lost and int(good) == len(got), what + ': bit errors on a clean link', errors=int(np.sum(err)), good=good, lost=lost)
    k = (lead + off) * m
    ctx.expect_equal(got.astype(int), bits[k:k + len(got)], what + ': the received bits are the sent ones')
    ctx.note(True, order=order, name=name, cfg=cfg, h=h, nd=nd, osr=osr, ctle=use_ctle)
    ctx.seen('equalized', name, nd, 'ctle' if use_ctle else 'no ctle', 'noise' if snr else 'clean', osr)


def link_coded(ctx):
    """Block or convolutional code around a mapped link: errors within the code's power do not reach the user."""
    cd = TARGET.load()
    kind = ctx.pick('hamming', 'rep', 'conv', 'manchester', 'mlt3', 'bipolar')
    bits = ctx.bits(ctx.length(8, 120, 400))
    if kind in ('hamming', 'rep'):
        G = np.array([[1, 1, 0, 1], [1, 0, 1, 1], [1, 0, 0, 0], [0, 1, 1, 1], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]).T if kind == 'hamming' else np.ones((1, 3), dtype=int)
        k, n = G.shape
        bits = bits[:len(bits) // k * k]
        c = np.asarray(ctx.call('tx.coding_linear', bits, G))
    elif kind == 'conv':
        G = {0: np.array([[1, 1, 1], [1, 0, 1]])}
        bits = bits[:len(bits) // 8 * 8]
        c = np.asarray(ctx.call('tx.coding_conv', bits, G))
    else:
        c = np.asarray(ctx.call('tx.coding_' + kind, bits))
    name = {'mlt3': 'PAM3', 'bipolar': 'PAM3'}.get(kind, ctx.pick('NRZ', 'OOK'))
    fs = bool(ctx.rng.integers(0, 2))
    x = np.asarray(ctx.call('tx.mapping', c.astype(int), const(name), full_scale=fs))
    gap = np.min(np.diff(np.sort(np.unique(ref.levels(name, fs)))))
    y = x + ctx.rng.uniform(-0.45, 0.45, len(x)) * gap                  # any noise below half the level distance
    lv = ctx.call('get_levels', const(name), fs)
    errs = 0
    if kind in ('hamming', 'rep'):
        blocks = y.reshape(-1, n)
        for row in range(blocks.shape[0]):
            if ctx.rng.random() < 0.5:
                j = int(ctx.rng.integers(0, n))
                blocks[row, j] = np.sum(lv) - blocks[row, j]
                errs += 1
    elif kind == 'conv' and len(y) >= 48:
        j = int(ctx.rng.integers(16, len(y) - 16))      # away from both ends, where the state is unknown
        y[j] = np.sum(lv) - y[j]
        errs = 1
    s = ctx.call('rx.demapping', ctx.call('rx.slicer', y, levels=lv), const(name), full_scale=fs)
    s = np.asarray(s).astype(int)
    if kind in ('hamming', 'rep'):
        got = ctx.call('rx.decoding_linear', s, G)
    elif kind == 'conv':
        got = ctx.call('rx.decoding_conv_viterbi', s, G, len(s))[0] if len(s) else bits
    else:
        got = ctx.call('rx.decoding_' + kind, s)
    ctx.expect_equal(np.asarray(got).astype(int), bits, '%s coded link with %d symbol errors' % (kind, errs), y=y, bits=bits)
    ctx.note(len(bits) > 4, kind=kind, name=name, fs=fs, y=y)
    ctx.seen('coded', kind, name, fs, 'errors' if errs else 'clean')


C25 = [('clean', link_clean, 6), ('equalized', link_equalized, 3), ('coded', link_coded, 4)]


# -- C26 ---------------------------------------------------------------------------------------------------------------------
def data(ctx, cls, *a, **k):
    return ctx.call(SIM + 'data_objects:' + cls, *a, **k)


def coding_setup(ctx):
    """(bits per symbol, constellation name, chunk size in bits, coding flags) of a valid loop-back configuration."""
    r = ctx.rng
    name = ctx.pick('NRZ', 'OOK', 'PAM3', 'PAM4', 'PAM4')
    kw, n = {}, 4 * ctx.length(2, 40)
    if name == 'PAM3':
        kw['coding_' + ctx.pick('bipolar', 'mlt3')] = True
        for c in ('bin_differential', 'manchester'):
            if r.random() < 0.3:
                kw['coding_' + c] = True
        bps = np.log2(3)
    else:
        bps = {'PAM4': ctx.pick(2, np.log2(4))}.get(name, ctx.pick(1, 1.0))
        inner = ctx.pick(None, None, 'linear', 'conv')
        if inner:
            kw['coding_' + inner] = True
        for c in ('bin_differential', 'manchester', 'diff_manchester'):
            if r.random() < 0.25:
                kw['coding_' + c] = True
        if inner == 'linear':
            kw['G'] = np.array([[1, 0, 0, 0, 1, 1, 0, 1], [0, 1, 0, 0, 1, 0, 1, 1], [0, 0, 1, 0, 0, 1, 1, 1], [0, 0, 0, 1, 1, 1, 1, 0]])
            if r.random() < 0.5:                            # another code: repetition, or systematic of another size
                k, m = ctx.pick((1, 2), (1, 3), (1, 4), (2, 4), (2, 6), (4, 8), (4, 8), (4, 6))
                kw['G'] = np.concatenate([np.eye(k, dtype=int), np.ones((1, m - 1), dtype=int) if k == 1 else r.integers(0, 2, (k, m - k))], axis=1)
        if inner == 'conv':
            G, fb, uf = ctx.pick((({0: np.array([[1, 1, 1, 1], [1, 1, 0, 1]])}), None, None), ({0: np.array([[1, 0, 0], [1, 0, 1]])}, {0: np.array([1, 1, 1])}, np.array([[0, 1]])),
                                 ({0: np.array([[1, 0], [0, 1]])}, {0: np.array([1, 1])}, np.array([[0, 1]])),
                                 ({0: np.array([[1, 1, 1], [1, 0, 1]])}, None, None))
            kw.update(G=G, feedback=fb, use_feedback=uf)
        if name == 'PAM4':
            for f in ('bit_order_inv', 'inv_msb', 'inv_lsb'):
                kw[f] = bool(r.integers(0, 2))
        kw['coding_gray'] = bool(r.integers(0, 2))
    kw['pn_inv'] = bool(r.integers(0, 2))
    kw['coding_differential'] = bool(r.random() < 0.4)
    coded = n * 2 ** sum(bool(kw.get('coding_' + c)) for c in ('manchester', 'diff_manchester', 'conv'))
    # a conv code is decoded in blocks of the chunk size given to the decoder
    chunk = coded if kw.get('coding_conv') else n
    return name, bps, n, chunk, kw


def sim_codec(ctx):
    """Encoder followed by decoder is the identity for every coding configuration."""
    name, bps, n, chunk, kw = coding_setup(ctx)
    cd = data(ctx, 'CodingData', bps, const(name), chunk, **kw)
    enc = ctx.call(SIM + 'transmitter:Encoder', cd)
    dec = ctx.call(SIM + 'receiver:Decoder', cd)
    for _ in range(int(ctx.rng.integers(1, 4))):
        bits = ctx.bits(n)
        keep = bits.copy()
        c = np.asarray(ctx.invoke('Encoder', enc, bits))
        ctx.expect_equal(bits, keep, 'the encoder leaves the pattern alone')
        lim = {'PAM4': 4, 'PAM3': 3}.get(name, 2)
        ctx.expect(np.all((c >= 0) & (c < lim)), 'encoded %s symbols' % name, c=c)
        k2 = c.copy()
        got = np.asarray(ctx.invoke('Decoder', dec, c))
        ctx.expect_equal(c, k2, 'the decoder leaves the pattern alone')
        ctx.expect_equal(got.astype(int), bits, 'encoder and decoder of %s %r' % (name, {k: v for k, v in kw.items() if v is True}), bits=bits)
        ctx.note(True, name=name, kw=kw, bits=bits)
        plain = dict(kw, coding_gray=False, coding_differential=False)
        two = [np.asarray(ctx.invoke('Encoder', ctx.call(SIM + 'transmitter:Encoder', data(ctx, 'CodingData', bps, const(name), chunk, **dict(plain, pn_inv=q))), bits)) for q in (False, True)]
        ctx.expect_equal(two[0] + two[1], np.full(len(two[0]), lim - 1), 'polarity inversion of %s symbols' % name, bits=bits)
        s = two[int(kw['pn_inv'])]
        if kw['coding_differential']:
            s = np.cumsum(s) % lim
        if kw.get('coding_gray') and lim == 4:
            s = np.array([0, 1, 3, 2])[s]
        ctx.expect_equal(c, s, 'differential and Gray coding of %s symbols come last' % name, bits=bits)
    ctx.seen('codec', name, *sorted(k for k, v in kw.items() if v is True))


def sim_tx(ctx):
    """Chunks of the transmitter are one continuous PRBS, coded and mapped."""
    order = int(ctx.pick(7, 9, 11, ctx.pick(13, 15, 31)))
    chunk = 2 * ctx.length(2, 60)
    name = ctx.pick('NRZ', 'OOK', 'PAM4')
    bps = 2 if name == 'PAM4' else 1
    seed = None
    if ctx.rng.random() < 0.5:
        seed = ctx.rng.integers(0, 2, order)
        seed[0] = 1
    pd = data(ctx, 'PrbsData', prbs_enum(order), chunk, **({} if seed is None else {'init_seed': seed.copy()}))
    kw = {'coding_gray': bool(ctx.rng.integers(0, 2)), 'pn_inv': bool(ctx.rng.integers(0, 2))}
    cd = data(ctx, 'CodingData', bps, const(name), chunk, **kw)
    amp = float(ctx.pick(2, 750, 0.4))
    lvin = None if ctx.rng.random() < 0.3 else ref.levels(name, bool(ctx.rng.integers(0, 2)))
    if lvin is not None and ctx.rng.random() < 0.4:                  # uneven levels, the largest may be the lowest one
        lvin = np.sort(ctx.rng.uniform(-4, 4, len(lvin)))
    md = data(ctx, 'MappingData', const(name), lvin, amp)
    lv = ref.levels(name) if lvin is None else lvin / np.max(np.abs(lvin)) * amp / 2
    tx = ctx.call(SIM + 'transmitter:Transmitter', pd, cd, md)
    k = int(ctx.rng.integers(1, 9))
    out = [np.asarray(ctx.invoke('Transmitter.generate', tx.generate)).copy() for _ in range(k)]
    taps = np.asarray(ctx.call('get_polynomial', prbs_enum(order)))
    bits, _ = ctx.call('tx.prbs_gen', taps, np.ones(order, dtype=int) if seed is None else seed, chunk * k)
    s = ref.bits_to_symbols(np.asarray(bits), bps, False, False, False, kw['pn_inv'])
    if kw['coding_gray'] and bps == 2:
        s = np.array([0, 1, 3, 2])[s]
    ctx.expect_close(np.concatenate(out), np.asarray(lv)[s], 'transmitted chunks', rtol=1e-9, scale=np.max(np.abs(lv)))
    ctx.note(k > 1, order=order, chunk=chunk, k=k, name=name, kw=kw, seed=seed)
    ctx.seen('tx', name, order, kw['coding_gray'], kw['pn_inv'], 'levels' if lvin is not None else 'default', min(k, 4))


def sim_stream(ctx):
    """Channel, CTLE and FFE-DFE objects fed chunk by chunk equal the library functions on the whole signal."""
    which = ctx.pick('channel', 'ctle', 'ffe_dfe')
    if which == 'channel':
        osr, span = int(ctx.rng.integers(1, 6)), int(ctx.rng.integers(1, 5))
        pulse, beta = ctx.pick('rect', 'rcos', 'rrc', 'sinc'), float(ctx.pick(0.35, 0.7))
        x = filters.sig(ctx, ctx.length(2, 60, 300))
        b, a = filters.stable_ab(ctx)
        typ = ctx.pick('pulse', 'isi_awgn', 'isi_awgn')
        kw = {}
        if typ == 'pulse' and ctx.rng.random() < 0.3:       # parameters of the other channel types do not matter
            kw = {'fir_coefs': b, 'iir_coefs': a, 'snr': float(ctx.pick(3.0, 10.0))}
        if typ == 'isi_awgn':
            kw = {'fir_coefs': b, 'snr': None}
            how = ctx.pick('given', 'given', 'given', 'default', 'scalar')
            if how == 'given':
                kw['iir_coefs'] = a
            else:
                a = np.array([1.0])
                if how == 'scalar':
                    a = np.array([float(ctx.pick(1, 1, 2))])
                    kw['iir_coefs'] = ctx.pick(int(a[0]), float(a[0]), np.float64(a[0]))
        dev = ctx.call(SIM + 'channel:Channel', data(ctx, 'ChannelData', pulse, span, typ, rolloff=beta, osr=osr, **kw))
        whole = np.asarray(ctx.call('channel.pulse_shape', x, osr=osr, span=span, pulse=pulse, beta=beta)[0])
        sc = np.max(np.abs(whole)) + np.max(np.abs(x))
        if typ == 'isi_awgn':
            whole = np.asarray(ctx.call('channel.awgn_channel', whole, b, a)[0])
            sc = np.max(np.abs(whole)) + sc * np.sum(np.abs(b)) / abs(a[0])
        unit = 1
    elif which == 'ctle':
        z, p, g, fs, osr = filters.ctle_params(ctx)
        x = filters.sig(ctx, ctx.length(2, 80, 800))
        dev = ctx.call(SIM + 'receiver:Ctle', data(ctx, 'CtleData', z, p, g, fs, osr))
        whole = np.asarray(ctx.call('rx.ctle', x, z, p, g, fs=fs, osr=osr))
        sc = np.max(np.abs(whole)) + np.max(np.abs(x)) * 10 ** (g / 20)
    else:
        ffe, dfe, lv = filters.eq_setup(ctx)
        lv = np.array([-3., -1, 1, 3]) if lv is None else lv
        pre = int(ctx.rng.integers(0, len(ffe)))
        x = filters.sig(ctx, ctx.length(2, 80, 400))
        nd = 0 if dfe is None else len(dfe)
        kw = {} if dfe is None else {'dfe_vec': dfe}
        dev = ctx.call(SIM + 'receiver:FfeDfe', data(ctx, 'FfeDfeData', pre, len(ffe) - 1 - pre, nd, ffe_vec=ffe, levels=lv, **kw))
        whole, margin = None, None
        res = ctx.call('rx.ffe_dfe', x, **filters.ffe_kw(ffe, dfe, lv))
        whole = filters.unpack(ctx, res, ffe, dfe)[0]
        if dfe is not None and np.min(ref.slicer_margin(whole, lv)) <= 1e-9:
            ctx.seen('ambiguous decision')
            return
        sc = np.max(np.abs(whole)) + np.max(np.abs(x))
    parts = [np.asarray(ctx.invoke(which + ' block', dev, c)) for c in filters.chunks(ctx, x)]
    ctx.expect_close(np.concatenate(parts), whole, 'simulation %s block chunk by chunk' % which, rtol=1e-8, scale=sc, x=x)
    ctx.note(len(parts) > 1, which=which, x=x, parts=[len(p) for p in parts])
    ctx.seen('stream', which, min(len(parts), 4))


def sim_adc(ctx):
    """The ADC takes the samples of its phase and rounds them to its grid."""
    osr = int(ctx.pick(1, 2, 4, 8))
    rate = int(ctx.pick(*[q for q in (1, 2, 4) if osr % q == 0]))
    phase = ctx.pick(None, int(ctx.rng.integers(0, osr)))
    total, frac, typ = int(ctx.rng.integers(3, 11)), int(ctx.rng.integers(-3, 12)), ctx.pick('ss', 's', 'u')
    x = ctx.rng.normal(size=osr * ctx.length(1, 40)) * 2.0 ** (total - 2)
    dev = ctx.call(SIM + 'receiver:Adc', data(ctx, 'AdcData', total, frac, typ, osr, rate, **({} if phase is None else {'phase': phase})))
    got = np.asarray(ctx.invoke('Adc', dev, x))
    ph = osr // 2 if phase is None else phase
    smp = x[ph::osr // rate]
    lo, hi = {'u': (0, 2 ** total - 1), 's': (-2 ** (total - 1), 2 ** (total - 1) - 1), 'ss': (-2 ** (total - 1) + 1, 2 ** (total - 1) - 1)}[typ]
    grid = np.arange(lo, hi + 1)
    want = grid[np.argmin(np.abs(smp[:, None] - grid[None, :]), axis=1)]
    ok = np.abs(got * 2.0 ** frac - smp) <= np.abs(want - smp) + 1e-9
    ctx.expect(got.shape == smp.shape and np.all(ok) and np.all(np.isin(np.round(got * 2.0 ** frac), grid)), 'ADC output', x=smp, got=got, typ=typ, total=total, frac=frac)
    ctx.note(len(smp) > 1, x=x, osr=osr, rate=rate, phase=phase, total=total)
    ctx.seen('adc', typ, osr, rate, 'phase' if phase is not None else 'default')


def sim_link(ctx):
    """The complete simulated link, with a fine ADC and a clean channel, returns the sent bits chunk by chunk."""
    order = int(ctx.pick(7, 9, ctx.pick(7, 11, 15, 31)))
    name = ctx.pick('NRZ', 'PAM4', 'PAM4', 'OOK', 'PAM3')
    bps = 2 if name == 'PAM4' else 1
    chunk = 2 * ctx.length(4, 64)
    osr = int(ctx.pick(1, 2, 4, 7))
    pd = data(ctx, 'PrbsData', prbs_enum(order), chunk)
    kw = {'coding_gray': bool(ctx.rng.integers(0, 2)), 'pn_inv': bool(ctx.rng.integers(0, 2))}
    if name == 'PAM4':
        kw.update(bit_order_inv=bool(ctx.rng.integers(0, 2)), inv_msb=bool(ctx.rng.integers(0, 2)), inv_lsb=bool(ctx.rng.integers(0, 2)))
    if name == 'PAM3':
        kw.update(coding_bipolar=True, coding_gray=False)
    cd = data(ctx, 'CodingData', np.log2(3) if name == 'PAM3' else bps, const(name), chunk, **kw)
    amp = float(ctx.pick(200, 2000, 500))
    rxf = float(ctx.pick(1, 0.75, 0.5))
    lv = ref.levels(name)
    md = data(ctx, 'MappingData', const(name), lv, amp, rxf)
    # one tap FFE brings the ADC output (amp/2 * 2^-frac at the outer level) to the slicer levels (rxf at the outer level)
    total, frac = 13, int(ctx.pick(6, 8))
    chd = data(ctx, 'ChannelData', 'rect', 1, 'pulse', osr=osr)
    delay = osr                                                          # span 1: the pulse peaks one symbol later
    adc = data(ctx, 'AdcData', total, frac, 'ss', osr, 1, phase=0)
    # an all-pass CTLE: its zero sits on its pole
    ctle = data(ctx, 'CtleData', [1e9], [1e9], 0, 50e9, osr)
    tap = rxf / (amp / 2 * 2.0 ** -frac)
    fd = data(ctx, 'FfeDfeData', 0, 0, 0, ffe_vec=np.array([tap]), levels=lv / np.max(lv) * rxf)
    link = ctx.call(SIM + 'full_link:FullLink', data(ctx, 'FullLinkData', pd, cd, md, chd, ctle, adc, fd))
    k = int(ctx.rng.integers(2, 7))
    rx, tx = [], []
    for _ in range(k):
        rx.append(np.asarray(ctx.invoke('FullLink', link)).copy())
        tx.append(np.asarray(link.Tx.prbs_chunk).copy())
        ctx.expect(len(rx[-1]) == chunk, 'bits per chunk', got=len(rx[-1]), want=chunk)
    rx, tx = np.concatenate(rx), np.concatenate(tx)
    poly = np.asarray(ctx.call('get_polynomial', prbs_enum(order)))
    ctx.expect_equal(tx, ctx.call('tx.prbs_gen', poly, np.ones(order, dtype=int), len(tx))[0], 'the sent chunks are one PRBS')
    ctx.expect_equal(rx[bps:], tx[:-bps], 'the simulated %s link returns the sent bits one symbol later (%r)' % (name, kw))
    ctx.note(True, name=name, kw=kw, chunk=chunk, k=k, osr=osr, amp=amp, rxf=rxf)
    ctx.seen('link', name, osr, kw['coding_gray'], kw['pn_inv'], amp, rxf)


def sim_checker(ctx):
    """The analyzer accumulates exactly the errors of the chunks it was shown."""
    order = int(ctx.pick(7, 7, 9, 9, 11, 13, 15))
    P = 2 ** order - 1
    seed = None
    if ctx.rng.random() < 0.5:
        seed = ctx.rng.integers(0, 2, order)
        seed[int(ctx.rng.integers(0, order))] = 1
    pd = data(ctx, 'PrbsData', prbs_enum(order), 64, **({} if seed is None else {'init_seed': seed}))
    chk = ctx.call('example_simulation.analyzer.analyzer_classes:Checker', pd)
    poly = np.asarray(ctx.call('get_polynomial', prbs_enum(order)))
    per = np.asarray(ctx.call('tx.prbs_gen', poly, np.ones(order, dtype=int), P)[0])
    errs = total = 0
    shown = []
    for _ in range(int(ctx.rng.integers(1, 5))):
        n = P + int(ctx.rng.integers(0, P))
        most = 6
        if order < 13 and ctx.rng.random() < 0.4:                    # less than a period: as in the simulation
            n = int(ctx.rng.integers(4 * order, P))
            most = 3
        off = int(ctx.rng.integers(0, P))
        d = np.tile(np.roll(per, -off), 3)[:n].copy()
        pos = ctx.rng.choice(n, int(ctx.rng.integers(0, most)), replace=False)
        d[pos] ^= 1
        if n < P:                                                    # the right alignment has to be the best one
            best = np.sum(np.lib.stride_tricks.sliding_window_view(np.tile(per, 2), n)[:P] != d, axis=1)
            if np.sum(best <= len(pos)) > 1:
                ctx.seen('checker', 'ambiguous alignment')
                continue
        ber = float(ctx.invoke('Checker.check_ber', chk.check_ber, d))
        errs += len(pos)
        total += n
        shown.append(d.copy())
        d[:] = 1 - d
        ctx.expect(len(chk.check_sequences) == len(shown) and all(np.array_equal(u, w) for u, w in zip(chk.check_sequences, shown)), 'the analyzer keeps the sequences it was shown')
        ctx.expect(abs(ber - len(pos) / n) < 1e-12, 'chunk bit error rate', got=ber, want=len(pos) / n)
        ctx.expect(int(chk.acc_errors) == errs and int(chk.acc_symbols) == total, 'accumulated errors', got=[chk.acc_errors, chk.acc_symbols], want=[errs, total])
    ctx.note(True, order=order, errs=errs, total=total)
    ctx.seen('checker', order, min(errs, 3))


def sim_config(ctx):
    """Data objects: defaults, initial memories, refused vectors; the objects built from them start from exactly these."""
    r = ctx.rng
    which = ctx.pick('ffe_dfe', 'ffe_dfe', 'channel', 'channel', 'noise', 'jitter', 'prbs', 'ctle')
    if which == 'jitter':
        sigma, m = float(ctx.pick(0.02, 0.05, 0.1)), 3000
        typ = ctx.pick('pulse', 'isi_awgn')
        kw = {'pulse_rj_sigma': sigma}
        if typ == 'isi_awgn':
            kw.update(fir_coefs=[1.0], snr=None)
        dev = ctx.call(SIM + 'channel:Channel', data(ctx, 'ChannelData', 'imp', 1, typ, **kw))
        ramp = np.arange(2 * m, dtype=float)
        d = np.concatenate([np.asarray(ctx.invoke('Channel', dev, ramp[:m])), np.asarray(ctx.invoke('Channel', dev, ramp[m:]))]) - ramp
        d = np.concatenate([d[4:m - 4], d[m + 4:2 * m - 4]])     # the waveform is not known beyond the ends of a chunk
        ctx.expect(abs(np.std(d) / sigma - 1) < 7 / np.sqrt(2 * len(d)) + 0.02 and abs(np.mean(d)) < 7 * sigma / np.sqrt(len(d)), 'jitter of the channel block', got=float(np.std(d)), want=sigma)
        ctx.note(True, sigma=sigma, n=r.integers(0, 2 ** 31))
        ctx.seen('config', which, typ, sigma)
        return
    if which == 'ffe_dfe':
        pre, post, nd = int(r.integers(0, 4)), int(r.integers(0, 5)), int(r.integers(0, 4))
        nf = pre + post + 1
        lv = np.array([-3.0, -1, 1, 3])
        kw = {}
        ffe, dfe, zf, zd = np.eye(nf)[pre], np.zeros(nd), np.zeros(nf), np.zeros(nd)
        if r.random() < 0.6:
            ffe = kw['ffe_vec'] = r.normal(size=nf)
        if r.random() < 0.6:
            dfe = kw['dfe_vec'] = r.normal(size=nd) * 0.3
        if r.random() < 0.5:
            zf = kw['zi_ffe'] = r.normal(size=nf)
        if r.random() < 0.5:
            zd = kw['zi_dfe'] = r.choice(lv, nd)
        if nd or r.random() < 0.5:
            kw['levels'] = lv
        what = 'FFE-DFE block (%d,%d,%d) %r' % (pre, post, nd, sorted(kw))
        dev = ctx.call(SIM + 'receiver:FfeDfe', data(ctx, 'FfeDfeData', pre, post, nd, **{k: np.array(v, dtype=float) for k, v in kw.items()}))
        x = filters.sig(ctx, ctx.length(2, 60))
        if r.random() < 0.5:
            f2, d2 = r.normal(size=nf), r.normal(size=nd) * 0.3
            ctx.invoke('set_ffe', dev.set_ffe, f2.copy())
            ctx.invoke('set_dfe', dev.set_dfe, d2.copy())
            ffe, dfe = f2, d2
            for setter, n in ((dev.set_ffe, nf), (dev.set_dfe, nd)):
                try:
                    setter(np.zeros(n + int(ctx.pick(1, 2))) if n == 0 or r.random() < 0.5 else np.zeros(n - 1))
                except ValueError:
                    ctx.stats['oracle'] += 1
                else:
                    ctx.expect(False, what + ': %s accepts a vector of another length' % setter.__name__)
        parts = filters.chunks(ctx, x)
        got = np.concatenate([np.asarray(ctx.invoke('FfeDfe', dev, c)) for c in parts])
        want, margin, _ = ref.ffe_dfe(x, ffe, dfe if nd else None, lv, hist=zf if nf > 1 else None, mem=zd)
        if nd and margin <= 1e-9:
            ctx.seen('ambiguous decision')
            return
        ctx.expect_close(got, want, what, rtol=1e-8, scale=np.max(np.abs(want)) + np.max(np.abs(x)), x=x)
        bad = dict(kw)
        key = ctx.pick('ffe_vec', 'zi_ffe', 'dfe_vec', 'zi_dfe')
        n = nf if 'ffe' in key else nd
        bad[key] = np.zeros(n + 1 if n == 0 or r.random() < 0.5 else n - 1)
        bad['levels'] = lv
        ctx.call_raises(SIM + 'data_objects:FfeDfeData', ValueError, pre, post, nd, **bad)
        if nd:
            kw.pop('levels')
            ctx.call_raises(SIM + 'data_objects:FfeDfeData', ValueError, pre, post, nd, **kw)
        ctx.note(True, kw=kw, x=x, shape=(pre, post, nd))
        ctx.seen('config', which, nd > 0, nf > 1, *sorted(kw))
        return
    if which == 'prbs':
        order, chunk = int(ctx.pick(7, 9, 11, 13, 15)), ctx.length(1, 80)
        seed = None
        if r.random() < 0.5:
            seed = r.integers(0, 2, order)
            seed[int(r.integers(0, order))] = 1
        gen = iter(ctx.call(SIM + 'transmitter:PrbsGen', data(ctx, 'PrbsData', prbs_enum(order), chunk, **({} if seed is None else {'init_seed': seed.copy()}))))
        poly = np.asarray(ctx.call('get_polynomial', prbs_enum(order)))
        s0 = np.ones(order, dtype=int) if seed is None else seed
        k = int(r.integers(1, 6))
        whole = np.asarray(ctx.call('tx.prbs_gen', poly, s0.copy(), chunk * k)[0])
        for i in range(k):
            before = np.array(ctx.invoke('get_seed', gen.get_seed))
            ctx.expect_equal(ctx.invoke('next', next, gen), whole[i * chunk:(i + 1) * chunk], 'chunk %d of the PRBS generator' % i)
            ctx.expect_equal(ctx.invoke('get_prev_seed', gen.get_prev_seed), before, 'the previous seed')
            for sd, at in ((gen.get_prev_seed(), i), (gen.get_seed(), i + 1)):
                nx = np.asarray(ctx.call('tx.prbs_gen', poly, np.array(sd), order + 3)[0])
                ctx.expect_equal(nx, np.asarray(ctx.call('tx.prbs_gen', poly, s0.copy(), at * chunk + order + 3)[0])[at * chunk:], 'the seed reproduces the stream from there on')
        ctx.note(True, order=order, chunk=chunk, k=k, seed=seed)
        ctx.seen('config', which, order, seed is None)
        return
    if which == 'ctle':
        z, p, g, fs, osr = filters.ctle_params(ctx)
        x = filters.sig(ctx, ctx.length(4, 80))
        n = int(r.integers(1, len(x)))
        whole = np.asarray(ctx.call('rx.ctle', x, z, p, g, fs=fs, osr=osr))
        _, zi = ctx.call('rx.ctle', x[:n], z, p, g, fs=fs, osr=osr, zi=np.zeros(max(len(z), len(p))))
        dev = ctx.call(SIM + 'receiver:Ctle', data(ctx, 'CtleData', z, p, g, fs, osr, zi=np.array(zi)))
        got = np.concatenate([np.asarray(ctx.invoke('Ctle', dev, c)) for c in filters.chunks(ctx, x[n:])])
        ctx.expect_close(got, whole[n:], 'CTLE block started from a given memory', rtol=1e-8, scale=np.max(np.abs(whole)) + np.max(np.abs(x)) * 10 ** (g / 20))
        ctx.note(True, x=x, n=n, p=(z, p, g, fs, osr))
        ctx.seen('config', which)
        return
    # channel: given memories, defaults, noise
    osr, span = int(r.integers(1, 6)), int(r.integers(1, 5))
    pulse = ctx.pick('rect', 'rcos', 'rrc', 'sinc')
    kw = {}
    if r.random() < 0.7:
        kw['osr'] = osr
    else:
        osr = 1
    beta = float(ctx.pick(0.35, 0.2, 0.8))
    if beta != 0.35 or r.random() < 0.5:
        kw['rolloff'] = beta
    if which == 'noise':
        x = r.choice([-3.0, -1, 1, 3], 3000)
        typ = ctx.pick('awgn', 'isi_awgn')
        snr = ctx.pick(None, 10.0, 22.0, 35.0)          # None: the documented default of 22 dB
        if snr is not None:
            kw['snr'] = snr
        snr = 22.0 if snr is None else snr
        b, a = np.array([1.0]), np.array([1.0])
        if typ == 'isi_awgn' and r.random() < 0.7:
            b, a = np.array([1.0, 0.3, -0.1]), np.array([1.0, -0.4])
            kw.update(fir_coefs=b, iir_coefs=a)
        elif typ == 'awgn' and r.random() < 0.3:            # plain noise: no interference, whatever coefficients are given
            kw.update(fir_coefs=np.array([1.0, 0.5]), iir_coefs=np.array([1.0, -0.4]))
        dev = ctx.call(SIM + 'channel:Channel', data(ctx, 'ChannelData', pulse, span, typ, **kw))
        clean = np.asarray(ctx.call('channel.pulse_shape', x, osr=osr, span=span, pulse=pulse, beta=beta)[0])
        if typ == 'isi_awgn':
            clean = np.asarray(ctx.call('channel.awgn_channel', clean, b, a)[0])
        y = []
        for c in np.split(x, 3):
            y.append(np.asarray(ctx.invoke('Channel', dev, c)))
            ctx.expect_equal(dev.ch_out, y[-1], 'the channel block keeps its last output')
        y = np.concatenate(y)
        noise = y - clean
        got = 10 * np.log10(np.mean(clean ** 2) / np.mean(noise ** 2))
        ctx.expect(abs(got - snr) < 1.0 and abs(np.mean(noise)) < 8 * np.std(noise) / np.sqrt(len(noise)), 'SNR of the %s channel block' % typ, got=got, want=snr, kw=str(kw))
        ctx.note(True, x=x, kw=str(kw), typ=typ)
        ctx.seen('config', which, typ, snr, 'default' if 'snr' not in kw else 'given')
        return
    x = filters.sig(ctx, ctx.length(4, 60, 200))
    b, a = filters.stable_ab(ctx)
    if r.random() < 0.3:
        a = np.array([1.0])
    typ = ctx.pick('pulse', 'isi_awgn', 'isi_awgn')
    if typ == 'isi_awgn':
        kw.update(fir_coefs=ctx.pick(b, list(b)), snr=None)
        if len(a) > 1 or a[0] != 1:
            kw['iir_coefs'] = ctx.pick(a, list(a))
    n = int(r.integers(1, len(x)))
    whole = np.asarray(ctx.call('channel.pulse_shape', x, osr=osr, span=span, pulse=pulse, beta=beta)[0])
    first, pz = ctx.call('channel.pulse_shape', x[:n], osr=osr, span=span, pulse=pulse, beta=beta, zi=np.zeros(2 * span * osr - 1))
    sc = np.max(np.abs(whole)) + np.max(np.abs(x))
    kw['pulse_zi'] = np.array(pz)
    if typ == 'isi_awgn':
        whole = np.asarray(ctx.call('channel.awgn_channel', whole, b, a)[0])
        _, cz = ctx.call('channel.awgn_channel', np.asarray(first), b, a, zi=np.zeros(max(len(a), len(b)) - 1))
        kw['ch_zi'] = np.array(cz)
        sc = np.max(np.abs(whole)) + sc * np.sum(np.abs(b)) / abs(a[0])
    dev = ctx.call(SIM + 'channel:Channel', data(ctx, 'ChannelData', pulse, span, typ, **kw))
    parts = filters.chunks(ctx, x[n:])
    got = []
    for c in parts:
        got.append(np.asarray(ctx.invoke('Channel', dev, c)))
        ctx.expect_equal(dev.ch_out, got[-1], 'the channel block keeps its last output')
    ctx.expect_close(np.concatenate(got), whole[n * osr:], 'channel block started from given memories', rtol=1e-8, scale=sc, x=x)
    ctx.note(True, x=x, n=n, kw=str(kw), typ=typ)
    ctx.seen('config', which, typ, pulse, 'list' if isinstance(kw.get('iir_coefs'), list) else 'array')


C26 = [('codec', sim_codec, 8), ('tx', sim_tx, 4), ('stream', sim_stream, 8), ('adc', sim_adc, 3), ('link', sim_link, 4), ('checker', sim_checker, 2), ('config', sim_config, 6)]
