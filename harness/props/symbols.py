"""C04: bits <-> symbols.  C05: mapping and demapping.  C06: slicing and quantization."""
import itertools
import numpy as np
from harness import ref
from harness.core import TARGET

CONST = ['NRZ', 'OOK', 'PAM3', 'PAM4']


def const(name):
    return getattr(TARGET.load().ConstellationEnum, name)


def shaped(ctx, flat):
    """Give the flat data a random 1-D/2-D/3-D shape of the same size."""
    n = len(flat)
    divs = [d for d in range(1, n + 1) if n % d == 0] if n else [1]
    k = ctx.rng.integers(0, 4)
    if n == 0 or k <= 1:
        return flat
    d = int(divs[int(ctx.rng.integers(0, len(divs)))])
    if k == 2:
        return flat.reshape(d, n // d)
    e = n // d
    divs2 = [q for q in range(1, e + 1) if e % q == 0]
    q = int(divs2[int(ctx.rng.integers(0, len(divs2)))])
    return flat.reshape(d, q, e // q)


# -- C04 ---------------------------------------------------------------------------------------------------------------------
def bit_symbol(ctx):
    m = int(ctx.pick(1, 2, 2, 2, 3, 4, 5, 8, int(ctx.rng.integers(6, 21)), int(ctx.rng.integers(21, 53))))
    n = ctx.length(1, 80, 5000, 70000) if ctx.rng.random() < 0.99 else 0
    flat = ctx.bits(n)
    if ctx.rng.random() < 0.2:
        flat = flat.astype(ctx.pick(np.int32, bool))
    data = shaped(ctx, flat)
    flags = [bool(v) for v in ctx.rng.integers(0, 2, 4)]
    kw = dict(zip(['bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv'], flags))
    arg = ctx.lay(data)
    sym = ctx.call('tx.bin2symbol', arg, 2 ** m, **kw)
    want = ref.bits_to_symbols(flat, m, *flags)
    ctx.expect_equal(sym, want, 'bits to symbols, %d bits per symbol, flags %r' % (m, flags))
    ctx.expect(np.asarray(sym).dtype.kind in 'iu', 'symbols are integers')
    if len(want):
        back = ctx.call('rx.symbol2bin', sym, 2 ** m, **kw)
        ctx.expect_equal(back, flat[:len(want) * m], 'symbols back to bits, %d bits per symbol, flags %r' % (m, flags))
    ctx.note(n > 1, m=m, flags=flags, data=data)
    ctx.seen('b2s', m, flags)
    ctx.seen('trim', n % m, 'ndim', data.ndim)


def symbol_bit(ctx):
    m = int(ctx.pick(1, 2, 2, 3, 4, 6, 8, int(ctx.rng.integers(5, 21)), int(ctx.rng.integers(21, 53))))
    n = ctx.length(1, 60, 3000, 20000)
    sym = ctx.rng.integers(0, 2 ** m, n) if ctx.rng.random() < 0.8 else np.full(n, int(ctx.pick(0, 2 ** m - 1)))
    data = shaped(ctx, sym)
    flags = [bool(v) for v in ctx.rng.integers(0, 2, 4)]
    kw = dict(zip(['bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv'], flags))
    bits = ctx.call('rx.symbol2bin', ctx.lay(data), 2 ** m, **kw)
    ctx.expect_equal(bits, ref.symbols_to_bits(sym, m, *flags), 'symbols to bits, %d bits per symbol, flags %r' % (m, flags))
    back = ctx.call('tx.bin2symbol', bits, 2 ** m, **kw)
    ctx.expect_equal(back, sym, 'bits back to symbols, %d bits per symbol, flags %r' % (m, flags))
    ctx.note(True, m=m, flags=flags, data=data)
    ctx.seen('s2b', m, flags, min(n, 2))


def exhaustive_flags(ctx):
    """Every flag combination, positional arguments, on every single symbol and on all symbols in a row."""
    m = int(ctx.pick(1, 2, 3, 4))
    for flags in itertools.product([False, True], repeat=4):
        for sym in [np.array([v]) for v in range(2 ** m)] + [np.arange(2 ** m)]:
            bits = ctx.call('rx.symbol2bin', sym, 2 ** m, *flags)
            ctx.expect_equal(bits, ref.symbols_to_bits(sym, m, *flags), 'symbol %r to bits, flags %r' % (sym.tolist(), flags))
            ctx.expect_equal(ctx.call('tx.bin2symbol', bits, 2 ** m, *flags), sym, 'round trip of symbol %r, flags %r' % (sym.tolist(), flags))
    ctx.note(True, m=m)
    ctx.seen('exhaustive', m)


def bad_size(ctx):
    n = int(ctx.pick(3, 5, 6, 7, 9, 12))
    ctx.call_raises('tx.bin2symbol', ValueError, ctx.bits(int(ctx.rng.integers(1, 30))), n)
    ctx.note(False, n=n)
    ctx.seen('refused', n)


C04 = [('bit_symbol', bit_symbol, 8), ('symbol_bit', symbol_bit, 6), ('exhaustive_flags', exhaustive_flags, 1), ('bad_size', bad_size, 1)]


# -- C05 ---------------------------------------------------------------------------------------------------------------------
def level_tables(ctx):
    for name in CONST:
        lv = ctx.call('get_levels', const(name))
        ctx.expect_equal(lv, ref.LEVELS[name], 'levels of %s' % name)
        fs = ctx.call('get_levels', const(name), True)
        ctx.expect_close(np.mean(np.asarray(fs) ** 2), 1.0, 'full scale %s has unit mean power' % name, rtol=1e-10)
        ctx.expect_close(fs, ref.levels(name, True), 'full scale levels of %s' % name, rtol=1e-10)
        ctx.seen('table', name)
    ctx.call_raises('get_levels', ValueError, 'no such constellation')
    ctx.note(False)


def map_demap(ctx):
    name = ctx.pick(*CONST)
    lv = np.array(ref.LEVELS[name])
    n = ctx.length(1, 100, 4000, 70000)
    flat = ctx.rng.integers(0, len(lv), n) if ctx.rng.random() < 0.8 else np.full(n, int(ctx.pick(0, len(lv) - 1)))
    sym = shaped(ctx, flat)
    fs, pn = bool(ctx.rng.integers(0, 2)), bool(ctx.rng.integers(0, 2))
    kw = {'full_scale': fs, 'pn_inv': pn}
    out = ctx.call('tx.mapping', ctx.lay(sym), const(name), **kw)
    want = ref.levels(name, fs)[sym] * (-1 if pn else 1)
    ctx.expect_close(out, want, 'mapping %s full_scale=%r pn_inv=%r' % (name, fs, pn), rtol=1e-10)
    rx = np.asarray(out)
    if ctx.rng.random() < 0.3:
        rx = rx * (1 + 1e-10 * ctx.rng.normal(size=rx.shape))
        if ctx.rng.random() < 0.3:
            rx = rx.astype(np.float32)
    back = ctx.call('rx.demapping', ctx.lay(rx, unsigned=False), const(name), **kw)
    ctx.expect_equal(back, sym, 'demapping inverts mapping %s full_scale=%r pn_inv=%r' % (name, fs, pn))
    ctx.expect(np.asarray(back).dtype.kind in 'iu', 'demapped symbols are integers')
    ctx.note(n > 1, name=name, fs=fs, pn=pn, sym=sym)
    ctx.seen('map', name, fs, pn, sym.ndim)


def custom_levels(ctx):
    name = ctx.pick(*CONST)
    k = len(ref.LEVELS[name])
    lv = np.sort(np.round(ctx.rng.normal(size=k) * 10, 2)) if ctx.rng.random() < 0.7 else np.sort(ctx.rng.integers(-20, 20, k))
    if ctx.rng.random() < 0.2:                              # the caller's order counts
        lv = np.ascontiguousarray(lv[::-1]) if ctx.rng.random() < 0.5 else ctx.rng.permutation(lv)
    if ctx.rng.random() < 0.2:                              # millivolts, microvolts, ADC codes
        lv = lv * float(ctx.pick(1e-9, 1e-6, 1e-3, 100.0, 1e6))
    sym = shaped(ctx, ctx.rng.integers(0, k, ctx.length(1, 60, 500, 70000)))
    pn, fs = bool(ctx.rng.integers(0, 2)), bool(ctx.rng.integers(0, 2))
    out = ctx.call('tx.mapping', ctx.lay(sym), const(name), full_scale=fs, levels=lv, pn_inv=pn)
    ctx.expect_close(out, lv[sym] * (-1 if pn else 1), 'mapping with custom levels', rtol=1e-10, scale=max(float(np.max(np.abs(lv))), 1e-300))
    if ctx.rng.random() < 0.2:
        ctx.call_raises('tx.mapping', ValueError, sym, const(name), levels=np.arange(k + int(ctx.pick(-1, 1, 3))))
    # afterwards the standard levels still apply
    std = ctx.call('tx.mapping', sym, const(name))
    ctx.expect_equal(std, np.array(ref.LEVELS[name])[sym], 'standard mapping after a custom one')
    ctx.note(True, name=name, lv=lv, sym=sym, pn=pn)
    ctx.seen('custom', name, pn)


def sliced_demap(ctx):
    """Noisy full-scale or plain constellation -> slicer on the same levels -> demapping gives the sent symbols."""
    name = ctx.pick(*CONST)
    fs = bool(ctx.rng.integers(0, 2))
    lv = np.asarray(ctx.call('get_levels', const(name), fs), dtype=float)
    sym = ctx.rng.integers(0, len(lv), ctx.length(1, 100, 2000, 70000))
    d = np.min(np.diff(lv))
    tx = np.asarray(ctx.call('tx.mapping', sym, const(name), full_scale=fs))
    rx = tx + d * 0.49 * (2 * ctx.rng.random(len(sym)) - 1)
    sl = ctx.call('rx.slicer', rx, lv)
    ctx.expect_equal(ctx.call('rx.demapping', sl, const(name), full_scale=fs), sym, 'slice and demap %s full_scale=%r' % (name, fs))
    ctx.note(True, name=name, fs=fs, sym=sym)
    ctx.seen('sliced', name, fs)


C05 = [('level_tables', level_tables, 1), ('map_demap', map_demap, 8), ('custom_levels', custom_levels, 3), ('sliced_demap', sliced_demap, 3)]


# -- C06 ---------------------------------------------------------------------------------------------------------------------
def nearest_oracle(ctx, x, out, lv, what):
    x = np.asarray(x, dtype=float)
    out = np.asarray(out)
    ctx.expect(out.shape == x.shape, what + ': shape %s kept' % (x.shape,), got=list(out.shape))
    lv = np.asarray(lv, dtype=float)
    ctx.expect(bool(np.all(np.isin(out.astype(float), lv))), what + ': every output is one of the levels', got=out, levels=lv)
    d = np.abs(x.reshape(-1, 1) - lv)
    best = d.min(axis=1)
    got = np.abs(x.reshape(-1) - out.reshape(-1).astype(float))
    tol = 1e-12 * (np.abs(x.reshape(-1)) + np.max(np.abs(lv)))
    bad = np.flatnonzero(got > best + tol)
    ctx.expect(len(bad) == 0, what + ': nearest level', x=x.reshape(-1)[bad], got=out.reshape(-1)[bad], levels=lv)


def sample_values(ctx, lv, n):
    """Values on, between, exactly at the thresholds of and far outside the levels."""
    lv = np.asarray(lv, dtype=float)
    lo, hi = lv[0], lv[-1]
    span = hi - lo if hi > lo else max(abs(hi), 1.0)
    k = ctx.rng.integers(0, 6, n)
    x = lo + span * (1.4 * ctx.rng.random(n) - 0.2)
    x = np.where(k == 1, lv[ctx.rng.integers(0, len(lv), n)], x)
    th = (lv[1:] + lv[:-1]) / 2 if len(lv) > 1 else lv
    t = th[ctx.rng.integers(0, len(th), n)]
    x = np.where(k == 2, t, x)
    x = np.where(k == 3, t + ctx.rng.choice([-1, 1], n) * span * 1e-6, x)
    x = np.where(k == 4, ctx.rng.choice([-1, 1], n) * span * 10.0 ** ctx.rng.integers(0, 6, n), x)
    return x


def slice_case(ctx):
    r = ctx.rng
    kind = r.integers(0, 4)
    if kind == 0:
        lv, arg = np.array([-3., -1, 1, 3]), None
    elif kind == 1:
        lv = np.asarray(ref.levels(ctx.pick(*CONST), bool(r.integers(0, 2))))
        arg = lv
    elif kind == 2:
        lv = np.unique(np.round(r.normal(size=int(r.integers(1, 20) if r.random() < 0.9 else ctx.pick(64, 128, 200, 256, 300))) * 5, 3))
        if r.random() < 0.25:
            lv = lv * float(ctx.pick(1e-9, 1e-6, 1e-3, 100.0, 1e6))
        arg = lv
    else:
        lv = np.unique(r.integers(-30, 30, int(r.integers(1, 12))))
        arg = lv
    x = shaped(ctx, sample_values(ctx, lv, ctx.length(1, 60, 3000, 70000)))
    if r.random() < 0.2:
        x = np.round(x).astype(int)
    elif r.random() < 0.15:
        x = x.astype(np.float32)
    given = ctx.lay(x) if r.random() < 0.9 else x.tolist()
    out = ctx.call('rx.slicer', given) if arg is None else ctx.call('rx.slicer', given, arg)
    nearest_oracle(ctx, x, out, lv, 'slicer')
    again = ctx.call('rx.slicer', np.asarray(out)) if arg is None else ctx.call('rx.slicer', np.asarray(out), arg)
    ctx.expect_equal(again, out, 'slicing a sliced signal changes nothing')
    ctx.note(True, lv=lv, x=x)
    ctx.seen('slice', int(kind), x.ndim, len(lv) if len(lv) < 6 else 'many', x.dtype.kind)


def quant_levels(total, frac, typ):
    lv = np.arange(2 ** total, dtype=float)
    if typ == 's':
        lv = lv - 2 ** (total - 1)
    elif typ == 'ss':
        lv = lv[1:] - 2 ** (total - 1)
    return lv / 2.0 ** frac


def quant_case(ctx):
    total = int(ctx.pick(*range(1, 10), *range(1, 10), 10, 11, 12, 13, 14, ctx.pick(15, 16, 13, 10)))
    frac = int(ctx.rng.integers(-3, 13))
    typ = ctx.pick('u', 's', 'ss', 'default')
    lv = quant_levels(total, frac, 'u' if typ == 'default' else typ)
    x = shaped(ctx, sample_values(ctx, lv, ctx.length(1, 60, 1500 if total < 10 else 150, 70000 if total < 7 else None)))
    if ctx.rng.random() < 0.1:
        x = x.astype(np.float32)
    elif ctx.rng.random() < 0.1 and np.max(np.abs(x)) < 2 ** 40:
        x = np.round(x).astype(np.int64)                    # codes of another converter
    args = (ctx.lay(x), total, frac) if typ == 'default' else (ctx.lay(x), total, frac, typ)
    out = ctx.call('rx.quantize', *args)
    nearest_oracle(ctx, x, out, lv, 'quantizer %d.%d%s' % (total, frac, typ))
    again = ctx.call('rx.quantize', *((np.asarray(out),) + args[1:]))
    ctx.expect_equal(again, out, 'quantizing a quantized signal changes nothing')
    ctx.note(True, total=total, frac=frac, typ=typ, x=x)
    ctx.seen('quant', typ, 'neg' if frac < 0 else ('zero' if frac == 0 else 'pos'), total)


def quant_bad(ctx):
    ctx.call_raises('rx.quantize', ValueError, np.zeros(3), 4, 0, ctx.pick('unsigned', 'x', 'S', ''))
    ctx.note(False)
    ctx.seen('refused')


C06 = [('slice', slice_case, 8), ('quant', quant_case, 8), ('quant_bad', quant_bad, 1)]
