"""C27: the example receiver's adaptation loops (timing, equalizer, gain) and the simulation's record of them."""
import numpy as np
from harness import ref
from harness.core import TARGET
from harness.props.symbols import const
from harness.props.est import prbs_enum
from harness.props import filters
from harness.props.link import SIM, data

EPS = 1e-9


def near(x, lv):
    return lv[np.argmin(np.abs(np.asarray(x)[:, None] - lv[None, :]), axis=1)]


def rx_setup(ctx, quiet=False):
    """A receiver configuration: data objects, the plain parameters and the number of samples per chunk."""
    r = ctx.rng
    name = ctx.pick('NRZ', 'PAM4', 'PAM4', 'OOK', *([] if quiet else ['PAM3']))
    osr = int(ctx.pick(1, 2, 3, 4, 8, 8, 16, 33, 48))
    pre, post = int(r.integers(0, 5)), int(r.integers(0, 6))
    nd = int(ctx.pick(0, 0, 1, 2, 3))
    nsym = pre + post + nd + 4 + ctx.length(1, 60)
    nsym += nsym % 2
    amp, rxf = float(ctx.pick(2, 500, 750)), float(ctx.pick(1, 0.75, 0.5))
    lv = ref.levels(name)
    plain = r.random() < 0.25 and not (quiet and nd)                                       # the standard levels, taken as they are
    if plain:
        amp = 2.0
    total = int(ctx.pick(6, 8, 10, 12))
    frac = total - int(ctx.pick(1, 1, 2, 3))
    if quiet:
        frac = 26                                                     # ADC steps far below the timing tolerance
    z, p, g, fs, o = filters.ctle_params(ctx)
    z, p = [v * osr / o for v in z], [v * osr / o for v in p]         # the roots stay where they are relative to this rate
    g = float(r.uniform(-6, 6))
    fvec = None if r.random() < 0.3 else r.normal(size=pre + post + 1) * 0.3
    if fvec is not None:
        fvec[pre] += 1.0
    dvec = None if nd == 0 or r.random() < 0.3 else r.normal(size=nd) * 0.2
    phase = ctx.pick(None, 0, int(r.integers(0, osr)), osr - 1)
    cfg = {'name': name, 'osr': osr, 'pre': pre, 'post': post, 'nd': nd, 'nsym': nsym, 'amp': amp, 'rxf': rxf, 'total': total, 'frac': frac,
           'ctle': (z, p, g, fs, osr), 'phase': osr // 2 if phase is None else phase, 'lv': lv / (1.0 if plain else np.max(lv)) * rxf,
           'tx': lv if plain else lv / np.max(lv) * amp / 2}
    ctle = data(ctx, 'CtleData', z, p, g, fs, osr)
    adc = data(ctx, 'AdcData', total, frac, 'ss', osr, 1, **({} if phase is None else {'phase': phase}))
    kw = {'levels': cfg['lv'].copy()}
    if fvec is not None:
        kw['ffe_vec'] = fvec.copy()
    if dvec is not None:
        kw['dfe_vec'] = dvec.copy()
    cfg['zf'], cfg['zd'], cfg['zc'] = np.zeros(pre + post + 1), np.zeros(nd), np.zeros(max(len(z), len(p)))
    if r.random() < 0.25 and not quiet:                               # memories left by an earlier signal
        if pre + post:
            kw['zi_ffe'] = r.normal(size=pre + post + 1) * 2.0 ** (total - 1 - frac) * 0.5
            cfg['zf'] = kw['zi_ffe'].copy()
        if nd:
            kw['zi_dfe'] = r.choice(cfg['lv'], nd)
            cfg['zd'] = kw['zi_dfe'].copy()
        cfg['zc'] = r.normal(size=len(cfg['zc'])) * 2.0 ** (total - 1) * 0.1
        ctle = data(ctx, 'CtleData', z, p, g, fs, osr, zi=cfg['zc'].copy())
    fd = data(ctx, 'FfeDfeData', pre, post, nd, **kw)
    cfg['kw'] = kw
    cfg['ffe'] = np.eye(pre + post + 1)[pre] if fvec is None else fvec
    cfg['dfe'] = np.zeros(nd) if dvec is None else dvec
    bps = {'PAM4': 2, 'PAM3': 1.5}.get(name, 1)
    flags = {k: True for k in ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv', 'coding_differential') if r.random() < 0.3}
    flags['coding_gray'] = name != 'PAM3' and bool(r.integers(0, 2))
    coding = data(ctx, 'CodingData', bps, const(name), int(nsym * bps), **flags)
    cfg['flags'] = flags
    mapping = data(ctx, 'MappingData', const(name), None if plain else lv, amp, rxf)
    return cfg, ctle, adc, fd, coding, mapping


def rx_signal(ctx, cfg, n):
    """n symbols of an over-sampled, slightly smeared and noisy level signal which fits the ADC."""
    r = ctx.rng
    x = np.repeat(r.choice(cfg['lv'], n), cfg['osr']) / np.max(cfg['lv'])
    x = np.convolve(x, [0.7, 0.2, 0.1])[:len(x)] + r.normal(size=len(x)) * float(ctx.pick(0, 0.05, 0.2))
    return x * 2.0 ** (cfg['total'] - 1) * 0.6


def decoded(ctx, cfg, symbols):
    """The bits of a chunk of symbols, by the library functions."""
    fl, name = cfg['flags'], cfg['name']
    if fl['coding_gray']:
        symbols = ctx.call('rx.decoding_gray', symbols, const(name))
    if fl.get('coding_differential'):
        symbols = ctx.call('rx.decoding_differential', symbols, const(name))
    if name == 'PAM4':
        return ctx.call('rx.symbol2bin', symbols, 4, **{k: v for k, v in fl.items() if not k.startswith('coding')})
    return len(cfg['lv']) - 1 - np.asarray(symbols) if fl.get('pn_inv') else symbols


def adapt(ctx):
    """Every chunk of an adapting receiver: what it puts out and how phase, taps and gain move."""
    r = ctx.rng
    cfg, ctle, adc, fd, coding, mapping = rx_setup(ctx)
    lr, gain = float(ctx.pick(2.0 ** -10, 2.0 ** -7, 2.0 ** -13)), float(ctx.pick(1, 1, 0.5, 0.1))
    rx = ctx.call(SIM + 'receiver:Receiver', ctle, adc, fd, mapping, coding, lms_lr=lr, digital_gain=gain)
    nch = int(r.integers(2, 9))
    x = rx_signal(ctx, cfg, nch * cfg['nsym'])
    z, p, g, fs, osr = cfg['ctle']
    cz = cfg['zc'].copy()
    nf = cfg['pre'] + cfg['post'] + 1
    hist, mem = cfg['zf'].copy(), cfg['zd'].copy()
    ffe, dfe, phase, mse_last = cfg['ffe'].copy(), cfg['dfe'].copy(), int(cfg['phase']), None
    lv = cfg['lv']
    conv = cdr = lms = False
    start = int(ctx.pick(1, 1, 2))
    prev_adc, done, prev = None, False, {}
    fidx, didx = np.arange(-cfg['pre'], cfg['post'] + 1), np.arange(1, cfg['nd'] + 1)
    steps = []
    for k in range(nch):
        if k == start:
            conv = True
            cdr, lms = ctx.pick((True, True), (True, True), (True, False), (False, True))
            rx.converge, rx.converge_cdr, rx.converge_lms = True, cdr, lms
        chunk = x[k * cfg['nsym'] * osr:(k + 1) * cfg['nsym'] * osr]
        keep = chunk.copy()
        bits = np.asarray(ctx.invoke('Receiver', rx, chunk))
        ctx.expect_equal(chunk, keep, 'the receiver leaves its input alone')
        what = 'adapting receiver, chunk %d of %d' % (k, nch)
        # the data path
        want, cz = ctx.call('rx.ctle', chunk, z, p, g, fs=fs, osr=osr, zi=cz)
        cout, aout = np.asarray(rx.ctle_out), np.asarray(rx.adc_out)
        ctx.expect_close(cout, want, what + ': CTLE output', rtol=1e-8, scale=np.max(np.abs(want)) + np.max(np.abs(x)) * 4)
        smp = cout[phase::osr]
        top = 2 ** (cfg['total'] - 1) - 1
        ctx.expect(aout.shape == smp.shape and np.max(np.abs(aout * 2.0 ** cfg['frac'] - np.clip(smp, -top, top))) <= 0.5 + 1e-6,
                   what + ': ADC output is the CTLE output at the sampling phase', got=aout, want=smp, phase=phase, cfg=str(cfg))
        lin = np.convolve(np.concatenate([hist, aout]), ffe)[nf:nf + len(aout)]
        hist = np.concatenate([hist, aout])[-nf:]
        out = np.zeros(len(aout))
        for n in range(len(aout)):
            out[n] = lin[n] - (float(np.dot(dfe, mem)) if cfg['nd'] else 0.0)
            if cfg['nd']:
                if np.min(ref.slicer_margin(out[n:n + 1], lv)) <= EPS:
                    ctx.seen('adapt', 'ambiguous decision')
                    return
                mem = np.concatenate([near(out[n:n + 1], lv), mem[:-1]])
        sin, sout = np.asarray(rx.slicer_in), np.asarray(rx.slicer_out)
        ctx.expect_close(sin, gain * out, what + ': slicer input is gain times the equalizer output', rtol=1e-8,
                         scale=(np.max(np.abs(out)) + np.max(np.abs(aout)) + 1e-3) * max(abs(gain), 1e-6), ffe=ffe, dfe=dfe, gain=gain)
        ok = ref.slicer_margin(sin, lv) > EPS
        ctx.expect(sout.shape == sin.shape and np.allclose(sout[ok], near(sin, lv)[ok], rtol=1e-9, atol=0), what + ': slicer output is the nearest level', got=sout, sin=sin)
        ctx.expect_equal(np.asarray(rx.demapped_chunk).astype(int), np.argmin(np.abs(sout[:, None] - lv[None, :]), axis=1), what + ': demapped chunk')
        ctx.expect_equal(bits, decoded(ctx, cfg, np.asarray(rx.demapped_chunk)), what + ': decoded bits')
        # the loops
        if k:
            for key, old in prev.items():
                if hasattr(rx, key + '_last'):
                    ctx.expect_equal(getattr(rx, key + '_last'), old, what + ': %s of the previous chunk' % key)
        prev = {key: np.array(getattr(rx, key)) for key in ('ctle_out', 'adc_out', 'slicer_in', 'slicer_out', 'demapped_chunk', 'decoded_chunk')}
        if conv:
            d = cfg['pre']
            vec = np.concatenate([prev_adc[len(prev_adc) - d:], aout[:len(aout) - d]]) if d else aout
            gain = gain + 100 * lr * (np.mean(lv ** 2) - np.mean(sin ** 2))
            if abs(gain) > 1e3 or np.max(np.abs(sin)) > 1e4:
                ctx.seen('adapt', 'diverging')                        # rounding decides what follows
                return
            step = 0
            if cdr:
                mm = np.dot(sout[:-1], vec[1:]) / (len(sout) - 1) - np.dot(sout[1:], vec[:-1]) / (len(sout) - 1)
                if abs(abs(mm) - 1e-3) < EPS or np.min(ref.slicer_margin(sin, lv)) <= EPS:
                    ctx.seen('adapt', 'ambiguous step')
                    return
                step = 0 if abs(mm) < 1e-3 else int(np.sign(mm))
                phase = (phase + step) % osr
                cdr = step != 0
                steps.append(step)
            if lms:
                e = gain * sin
                if np.min(ref.slicer_margin(e, lv)) <= EPS:
                    ctx.seen('adapt', 'ambiguous error')
                    return
                dec = near(e, lv)
                e = e - dec
                N = len(e)
                gf = np.array([0.5 * np.mean([e[n] * vec[n - i] for n in range(max(0, i), min(N, N + i))]) for i in fidx])
                gd = np.array([-0.5 * np.mean([e[n] * dec[n - j] for n in range(j, N)]) for j in didx])
                mse = float(np.mean(e ** 2))
                ffe = ffe - lr * gf
                dfe = dfe - lr * gd if cfg['nd'] else dfe
                last = 1e3 if mse_last is None else mse_last
                if abs(abs(mse - last) - 0.01) < EPS:
                    ctx.seen('adapt', 'ambiguous stop')
                    return
                lms = not abs(mse - last) < 0.01
                mse_last = mse
                ctx.expect_close(rx.lms_mse_last, mse, what + ': MSE kept for the next chunk', rtol=1e-6, scale=max(mse, 1e-3))
            if not cdr and not lms:
                conv, done = False, True
        ctx.expect_close(rx.dig_gain, gain, what + ': digital gain', rtol=1e-8, scale=1 + abs(gain))
        ctx.expect(int(rx.phase) == phase and int(rx.adc.phase) == phase, what + ': sampling phase', got=[rx.phase, rx.adc.phase], want=phase, osr=osr, steps=steps)
        sc = np.max(np.abs(ffe)) + lr * np.max(np.abs(aout)) + 1e-3
        ctx.expect_close(rx.ffe_dfe.ffe_vec, ffe, what + ': FFE taps', rtol=1e-7, scale=sc)
        ctx.expect_close(rx.ffe_dfe.dfe_vec, dfe, what + ': DFE taps', rtol=1e-7, scale=sc)
        ctx.expect(bool(rx.converge) == conv and bool(rx.converge_cdr) == cdr and bool(rx.converge_lms) == lms and bool(rx.converge_done) == done,
                   what + ': convergence flags', got=[rx.converge, rx.converge_cdr, rx.converge_lms, rx.converge_done], want=[conv, cdr, lms, done])
        if not all(np.isfinite([gain, np.max(np.abs(ffe))])) or abs(gain) > 1e6 or np.max(np.abs(ffe)) > 1e6:
            ctx.seen('adapt', 'diverged')
            break
        # continue from what was observed, so that rounding does not add up
        gain, ffe, dfe = float(rx.dig_gain), np.array(rx.ffe_dfe.ffe_vec, dtype=float), np.array(rx.ffe_dfe.dfe_vec, dtype=float)
        prev_adc = aout.copy()
    for key, want in (('ffe_vec', cfg['ffe']), ('dfe_vec', cfg['dfe']), ('levels', cfg['lv']), ('zi_ffe', cfg['zf']), ('zi_dfe', cfg['zd'])):
        if key in cfg['kw']:
            ctx.expect_equal(cfg['kw'][key], want, 'adaptation leaves the configured %s alone' % key)
        if hasattr(fd, key):
            ctx.expect_equal(getattr(fd, key), want, 'adaptation leaves the %s of the configuration alone' % key)
    ctx.note(True, cfg=str(cfg), lr=lr, x=x, start=start)
    ctx.seen('adapt', cfg['name'], 'osr%d' % osr, 'pre%d' % min(cfg['pre'], 2), 'dfe%d' % min(cfg['nd'], 2), 'done' if done else 'running', *sorted(set(steps)))


def record(ctx):
    """The simulation's memory holds one independent entry per chunk for every signal, and convergence comes to an end."""
    r = ctx.rng
    cfg, ctle, adc, fd, coding, mapping = rx_setup(ctx, quiet=True)
    order = int(ctx.pick(7, 9, 9, ctx.pick(11, 13, 15)))
    bps = 2 if cfg['name'] == 'PAM4' else 1
    chunk = cfg['nsym'] * bps
    pd = data(ctx, 'PrbsData', prbs_enum(order), chunk)
    span = int(r.integers(1, 4))
    snr = ctx.pick(None, None, None, 40.0)
    chd = data(ctx, 'ChannelData', 'rcos', span, 'isi_awgn', fir_coefs=[1.0, 0.2], osr=cfg['osr'], snr=snr)
    sim = ctx.call(SIM + 'simulation:Simulation', data(ctx, 'FullLinkData', pd, coding, mapping, chd, ctle, adc, fd))
    keys = {'tx_prbs_chunks': ('Tx', 'prbs_chunk'), 'tx_encoded_prbs_chunks': ('Tx', 'encoded_prbs_chunk'), 'tx_mapped_prbs_chunks': ('Tx', 'mapped_prbs_chunk'),
            'ch_out_chunks': ('Ch', 'ch_out'), 'rx_ctle_out_chunks': ('Rx', 'ctle_out'), 'rx_adc_out_chunks': ('Rx', 'adc_out'),
            'rx_slicer_in_chunks': ('Rx', 'slicer_in'), 'rx_slicer_out_chunks': ('Rx', 'slicer_out'), 'rx_demapped_chunks': ('Rx', 'demapped_chunk'),
            'rx_decoded_chunks': ('Rx', 'decoded_chunk')}
    extra = ('cdr_phase_vec', 'lms_mse_vec', 'lms_ffe_vecs', 'lms_dfe_vecs')

    def snapshot():
        s = {k: np.array(getattr(getattr(sim.Link, a), b)) for k, (a, b) in keys.items()}
        s['cdr_phase_vec'], s['lms_mse_vec'] = sim.Link.Rx.phase, sim.Link.Rx.lms_mse_last
        s['lms_ffe_vecs'], s['lms_dfe_vecs'] = np.array(sim.Link.Rx.ffe_dfe.ffe_vec), np.array(sim.Link.Rx.ffe_dfe.dfe_vec)
        return s

    snaps = []
    for _ in range(int(r.integers(1, 5))):
        got = np.asarray(ctx.invoke('FullLink', sim.Link))
        snaps.append(snapshot())
        ctx.expect_equal(got, snaps[-1]['rx_decoded_chunks'], 'the link returns the decoded chunk')
        ctx.expect_equal(sim.Link.ch_out, snaps[-1]['ch_out_chunks'], 'the channel output of the link')
        ctx.invoke('Simulation.gather_memory', sim.gather_memory)

    def compare(what):
        for k in list(keys) + list(extra):
            rec = getattr(sim.Memory, k)
            ctx.expect(len(rec) == len(snaps), what + ': entries of %s' % k, got=len(rec), want=len(snaps))
            for i, s in enumerate(snaps):
                ctx.expect_equal(rec[i], s[k], what + ': %s of chunk %d' % (k, i))
    compare('recorded chunks')
    # the whole record is one continuous run of the library functions
    sent = np.concatenate([s['tx_prbs_chunks'] for s in snaps])
    poly = np.asarray(ctx.call('get_polynomial', prbs_enum(order)))
    ctx.expect_equal(sent, ctx.call('tx.prbs_gen', poly, np.ones(order, dtype=int), len(sent))[0], 'recorded PRBS')
    mapped = np.concatenate([s['tx_mapped_prbs_chunks'] for s in snaps])
    enc = np.concatenate([s['tx_encoded_prbs_chunks'] for s in snaps]).astype(int)
    ctx.expect_close(mapped, cfg['tx'][enc], 'recorded mapped chunks', rtol=1e-9)
    y = np.asarray(ctx.call('channel.pulse_shape', mapped, osr=cfg['osr'], span=span, pulse='rcos', beta=0.35)[0])
    y = y + 0.2 * np.concatenate([[0.0], y[:-1]])
    sc = np.max(np.abs(mapped)) * 4
    if snr is None:
        ctx.expect_close(np.concatenate([s['ch_out_chunks'] for s in snaps]), y, 'recorded channel output', rtol=1e-8, scale=sc)
    else:                                                             # the record is that of the noisy signal the receiver got
        clean, y = y, np.concatenate([s['ch_out_chunks'] for s in snaps])
        ctx.expect(y.shape == clean.shape and np.mean((y - clean) ** 2) <= np.mean(clean ** 2) * 0.05, 'noise of the recorded channel output')
    want = np.asarray(ctx.call('rx.ctle', y, *cfg['ctle']))
    b, a = ctx.call('rx.get_ctle_filter', *cfg['ctle'])
    boost = float(np.sum(np.abs(ref.difference_equation(np.asarray(b, dtype=float), np.asarray(a, dtype=float), np.eye(1, 300)[0]))))
    ctx.expect_close(np.concatenate([s['rx_ctle_out_chunks'] for s in snaps]), want, 'recorded CTLE output', rtol=1e-8, scale=sc * (4 + boost))
    for s in snaps:
        ctx.expect(int(s['cdr_phase_vec']) == cfg['phase'] and np.array_equal(s['lms_ffe_vecs'], cfg['ffe']) and np.array_equal(s['lms_dfe_vecs'], cfg['dfe']),
                   'nothing adapts before convergence is started')
    # convergence: the timing loop of this link is inside its tolerance from the start, so it ends as soon as the MSE settles
    seen, gather = [], sim.gather_memory

    def watched():
        gather()
        seen.append(snapshot())
    sim.gather_memory = watched
    ctx.invoke('Simulation.perform_convergence', sim.perform_convergence)
    sim.gather_memory = gather
    n = len(sim.Memory.cdr_phase_vec)
    rxo = sim.Link.Rx
    ctx.expect(bool(rxo.converge_done) and not rxo.converge and not rxo.converge_cdr and not rxo.converge_lms, 'convergence is over')
    for k in list(keys) + list(extra):
        ctx.expect(len(getattr(sim.Memory, k)) == n, 'entries of %s during convergence' % k, got=len(getattr(sim.Memory, k)), want=n)
    last = snapshot()
    for k in list(keys) + list(extra):
        ctx.expect_equal(getattr(sim.Memory, k)[-1], last[k], 'the last entry of %s is the state after convergence' % k)
    if len(seen) == n:
        snaps = seen
        compare('during convergence')
    m = np.array(sim.Memory.lms_mse_vec, dtype=float)
    ctx.expect(n >= 1 and abs(m[-1] - (m[-2] if n > 1 else 1e3)) < 0.01 + EPS, 'the MSE has settled at the end of convergence', mse=m)
    for i in range(1, n - 1):
        ctx.expect(abs(m[i] - m[i - 1]) >= 0.01 - EPS, 'convergence ends when the MSE has settled', mse=m)
    P = ctx.call('tx.prbs_gen', poly, np.ones(order, dtype=int), len(sent) + chunk * (n + 1))[0]
    ctx.expect_equal(np.concatenate(sim.Memory.tx_prbs_chunks), np.asarray(P)[len(sent) + chunk:], 'the PRBS goes on during convergence')
    snaps = []
    ctx.invoke('Memory.reset', sim.Memory.reset)
    compare('after reset')
    ctx.invoke('FullLink', sim.Link)
    snaps.append(snapshot())
    ctx.invoke('Simulation.gather_memory', sim.gather_memory)
    compare('after convergence')
    # convergence can be run again: it ends when the loops have stopped, after at least one more chunk
    if cfg['nd'] == 0:                                                # (with a DFE the growing gain can take long to settle)
        was = len(sim.Memory.cdr_phase_vec)
        ctx.invoke('Simulation.perform_convergence', sim.perform_convergence)
        m = np.array(sim.Memory.lms_mse_vec, dtype=float)
        ctx.expect(len(m) >= 1 and bool(rxo.converge_done) and not rxo.converge and not rxo.converge_cdr and not rxo.converge_lms, 'convergence run again', got=[len(m), was, rxo.converge, rxo.converge_cdr, rxo.converge_lms])
        snaps = []
        ctx.invoke('Memory.reset', sim.Memory.reset)
        ctx.invoke('FullLink', sim.Link)
        snaps.append(snapshot())
        ctx.invoke('Simulation.gather_memory', sim.gather_memory)
        compare('after convergence run again')
    # convergence can be started again: all loops run
    ctx.invoke('FullLink.start_convergence', sim.Link.start_convergence)
    ctx.expect(bool(rxo.converge) and bool(rxo.converge_cdr) and bool(rxo.converge_lms), 'a started convergence runs all loops', got=[rxo.converge, rxo.converge_cdr, rxo.converge_lms])
    ctx.expect(not rxo.converge_done, 'a started convergence is not done')
    for a, b in keys.values():
        arr = getattr(getattr(sim.Link, a), b)
        if isinstance(arr, np.ndarray) and arr.flags.writeable:
            arr[...] = 77
    sim.Link.Rx.ffe_dfe.ffe_vec[...] = 77
    compare('record after the live signals were overwritten')
    ctx.note(True, cfg=str(cfg), span=span, n=n)
    ctx.seen('record', cfg['name'], cfg['osr'], 'converged in %d' % min(n, 5))


C27 = [('adapt', adapt, 4), ('record', record, 1)]
