"""C07: line code round trips.  C08: line code structure and error detection."""
import numpy as np
from harness import ref
from harness.props.symbols import const, shaped

DIFF_M = {'NRZ': 2, 'OOK': 2, 'PAM3': 3, 'PAM4': 4}
GRAY_FINDING = ('Gray coding of PAM3 symbol 2 gives 3, which is not a PAM3 symbol '
                '(coding_gray([2], PAM3) cannot be decoded or mapped)')


def bit_block(ctx):
    flat = ctx.bits(ctx.length(1, 80, 6000) if ctx.rng.random() < 0.98 else int(ctx.rng.integers(20000, 90000)))
    return flat, shaped(ctx, flat)


def doubled(shape):
    s = list(shape)
    s[-1] *= 2
    return tuple(s)


def rt_symbols(ctx):
    """Gray and differential round trips on symbol streams."""
    name = ctx.pick('NRZ', 'OOK', 'PAM4', 'PAM4')
    m = DIFF_M[name]
    n = ctx.length(1, 80, 6000) if ctx.rng.random() < 0.98 else int(ctx.rng.integers(20000, 90000))
    if ctx.rng.random() < 0.0005:                           # sums which single precision can not hold any more
        n = int(ctx.rng.integers(7, 20)) * 10 ** 6 + int(ctx.rng.integers(0, 3))
    flat = ctx.rng.integers(0, m, n)
    if ctx.rng.random() < 0.2 or (len(flat) > 10000 and ctx.rng.random() < 0.5):
        flat = np.full(len(flat), int(ctx.rng.integers(0, m)))
    x = shaped(ctx, flat)
    code = ctx.pick('gray', 'differential', 'both')
    y = ctx.lay(x)
    if code in ('differential', 'both'):
        if code == 'differential' and ctx.rng.random() < 0.3:
            name, m = 'PAM3', 3
            x = x % 3
            y = ctx.lay(x)
        y = ctx.call('tx.coding_differential', y, const(name))
    if code in ('gray', 'both'):
        y = ctx.call('tx.coding_gray', y, const(name))
    y = np.asarray(y)
    ctx.expect(y.shape == x.shape, '%s coding keeps the shape' % code)
    ctx.expect(bool(np.all((y >= 0) & (y < m))), '%s coded symbols are symbols of %s' % (code, name), got=y)
    z = y.copy()
    if code in ('gray', 'both'):
        z = ctx.call('rx.decoding_gray', z, const(name))
    if code in ('differential', 'both'):
        z = ctx.call('rx.decoding_differential', z, const(name))
    ctx.expect_equal(z, x, '%s %s round trip' % (name, code))
    ctx.note(x.size > 1, name=name, code=code, x=x)
    ctx.seen('rt', code, name, x.ndim)


def rt_binary(ctx):
    """Manchester, differential Manchester, bipolar and MLT-3 round trips."""
    code = ctx.pick('manchester', 'differential_manchester', 'bipolar', 'mlt3')
    flat, x = bit_block(ctx)
    y = np.asarray(ctx.call('tx.coding_' + code, ctx.lay(x)))
    ctx.expect(y.shape == (doubled(x.shape) if 'manchester' in code else x.shape), '%s coded shape' % code, got=list(y.shape), src=list(x.shape))
    top = 1 if 'manchester' in code else 2
    ctx.expect(bool(np.all((y >= 0) & (y <= top))), '%s coded alphabet' % code, got=y)
    z = ctx.call('rx.decoding_' + code, ctx.lay(y))
    ctx.expect_equal(z, x, '%s round trip' % code)
    if code == 'bipolar':
        ctx.expect_equal(ctx.call('rx.decoding_bipolar', ctx.lay(y), True), x, 'bipolar round trip with error detection')
    ctx.note(x.size > 1, code=code, x=x)
    ctx.seen('rt', code, x.ndim, 'long' if x.size > 1000 else 'short')


def rt_mapped(ctx):
    """Line code -> constellation levels -> inverted or scaled line -> demapping -> decoding."""
    code = ctx.pick('bipolar', 'mlt3', 'manchester', 'differential_manchester', 'gray_diff')
    pn = bool(ctx.rng.integers(0, 2))
    fs = bool(ctx.rng.integers(0, 2))
    if code == 'gray_diff':
        x = ctx.rng.integers(0, 4, ctx.length(1, 60, 800))
        y = ctx.call('tx.coding_gray', ctx.call('tx.coding_differential', x, const('PAM4')), const('PAM4'))
        cname = 'PAM4'
    else:
        x = ctx.bits(ctx.length(1, 60, 800))
        y = ctx.call('tx.coding_' + code, x)
        cname = 'PAM3' if code in ('bipolar', 'mlt3') else ctx.pick('NRZ', 'OOK')
    line = ctx.call('tx.mapping', y, const(cname), full_scale=fs, pn_inv=pn)
    y2 = ctx.call('rx.demapping', line, const(cname), full_scale=fs, pn_inv=pn)
    if code == 'gray_diff':
        z = ctx.call('rx.decoding_differential', ctx.call('rx.decoding_gray', y2, const('PAM4')), const('PAM4'))
    else:
        z = ctx.call('rx.decoding_' + code, y2)
    ctx.expect_equal(z, x, '%s over %s levels' % (code, cname))
    ctx.note(True, code=code, pn=pn, fs=fs, x=x)
    ctx.seen('mapped', code, cname, pn, fs)


def gray_pam3(ctx):
    """Known finding: Gray coding on a constellation whose size is not a power of two."""
    x = ctx.rng.integers(0, 3, 20)
    x[0] = 2
    try:
        y = np.asarray(ctx.call('tx.coding_gray', x, const('PAM3')))
        ok = bool(np.all((y >= 0) & (y < 3))) and np.array_equal(ctx.call('rx.decoding_gray', y, const('PAM3')), x)
    except Exception:
        ok, y = False, None
    if not ok:
        if y is not None and np.array_equal(y, np.array([0, 1, 3])[x]):
            ctx.known.append(GRAY_FINDING)
        else:
            ctx.expect(False, 'PAM3 Gray round trip fails in a new way', x=x, got=y)
    ctx.seen('gray_pam3', ok)


C07 = [('rt_symbols', rt_symbols, 7), ('rt_binary', rt_binary, 8), ('rt_mapped', rt_mapped, 4), ('gray_pam3', gray_pam3, 1)]


# -- C08 ---------------------------------------------------------------------------------------------------------------------
def gray_structure(ctx):
    bits = int(ctx.rng.integers(1, 11))
    n = 2 ** bits
    t = np.asarray(ctx.call('get_gray_level_vec', n))
    ctx.expect_equal(np.sort(t), np.arange(n), 'Gray table of %d levels is a permutation' % n)
    ctx.expect(all(bin(int(a) ^ int(b)).count('1') == 1 for a, b in zip(t[:-1], t[1:])), 'neighbouring Gray levels differ in one bit', got=t)
    k = int(ctx.rng.integers(2, 200))
    t = np.asarray(ctx.call('get_gray_level_vec', k))
    ctx.expect(t.shape == (k,) and len(set(t.tolist())) == k and bool(np.all(t >= 0)), 'Gray table of %d levels has %d different entries' % (k, k), got=t)
    ctx.expect(all(bin(int(a) ^ int(b)).count('1') == 1 for a, b in zip(t[:-1], t[1:])), 'neighbouring Gray levels differ in one bit', got=t)
    for name in ('NRZ', 'OOK', 'PAM4'):
        m = DIFF_M[name]
        y = np.asarray(ctx.call('tx.coding_gray', np.arange(m), const(name)))
        ctx.expect_equal(np.sort(y), np.arange(m), 'Gray code of %s is a permutation' % name)
        ctx.expect(all(bin(int(a) ^ int(b)).count('1') == 1 for a, b in zip(y[:-1], y[1:])), 'Gray code of %s: neighbours differ in one bit' % name, got=y)
    ctx.note(True, bits=bits)
    ctx.seen('gray', bits)


def gray_link(ctx):
    """A slicer error to a neighbouring level costs exactly one bit."""
    x = ctx.rng.integers(0, 4, ctx.length(2, 100, 2000))
    y = np.asarray(ctx.call('tx.coding_gray', x, const('PAM4')))
    # levels are the positions of the decoded table: an adjacent index error at the mapper input
    step = ctx.rng.choice([-1, 1], len(x))
    hit = ctx.rng.random(len(x)) < 0.3
    bad = np.where(hit & (x + step >= 0) & (x + step < 4), x + step, x)
    yb = np.asarray(ctx.call('tx.coding_gray', bad, const('PAM4')))
    dist = np.array([bin(int(a) ^ int(b)).count('1') for a, b in zip(y, yb)])
    ctx.expect_equal(dist, (bad != x).astype(int), 'one neighbour error is one bit error')
    ctx.note(True, x=x)
    ctx.seen('gray_link', bool((bad != x).any()))


def encoders(ctx):
    """Exact encoder outputs: differential, Manchester, bipolar, MLT-3 against their state machines."""
    code = ctx.pick('differential', 'manchester', 'bipolar', 'mlt3')
    flat, x = bit_block(ctx)
    if code == 'differential':
        name = ctx.pick('NRZ', 'OOK', 'PAM3', 'PAM4')
        m = DIFF_M[name]
        if ctx.rng.random() < 0.03:                      # long enough for the running sum to leave a narrow type
            flat = x = np.zeros(int(ctx.rng.integers(20000, 90000)), dtype=int)
        flat = ctx.rng.integers(0, m, len(flat)) if ctx.rng.random() < 0.8 else np.full(len(flat), m - 1)
        x = flat.reshape(x.shape)
        y = ctx.call('tx.coding_differential', ctx.lay(x), const(name))
        want = ref.enc_differential(flat, m)
    else:
        y = ctx.call('tx.coding_' + code, ctx.lay(x))
        want = getattr(ref, 'enc_' + code)(flat)
    ctx.expect_equal(np.reshape(np.asarray(y), -1), want, '%s encoder' % code)
    ctx.note(x.size > 1, code=code, x=x)
    ctx.seen('enc', code, x.ndim, 'long' if x.size > 1000 else 'short')


def diff_manchester_structure(ctx):
    """Transition at every bit boundary; the two halves are equal exactly for 1 bits (either starting polarity)."""
    flat, x = bit_block(ctx)
    y = np.asarray(ctx.call('tx.coding_differential_manchester', ctx.lay(x))).reshape(-1)
    ctx.expect(bool(np.all(np.isin(y, [0, 1]))), 'differential Manchester is binary')
    ctx.expect_equal((y[::2] == y[1::2]).astype(int), flat, 'differential Manchester: halves equal exactly for ones')
    ctx.expect(bool(np.all(y[1:-1:2] != y[2::2])), 'differential Manchester: transition at every bit boundary', got=y)
    # polarity independence of the decoder
    z = ctx.call('rx.decoding_differential_manchester', 1 - y)
    ctx.expect_equal(z, flat, 'differential Manchester decoding ignores the line polarity')
    ctx.note(True, x=x)
    ctx.seen('diffman', x.ndim)


def manchester_errors(ctx):
    flat, _ = bit_block(ctx)
    y = ref.enc_manchester(flat)
    k = int(ctx.rng.integers(0, len(flat) + 1))
    pos = ctx.rng.choice(len(flat), k, replace=False)
    half = ctx.rng.integers(0, 3, k)                     # 0/1: one half hit, 2: both halves hit (bit flips)
    y2 = y.copy()
    want = flat.astype(float)
    for p, h in zip(pos, half):
        if h < 2:
            y2[2 * p + h] ^= 1
            want[p] = 0.5
        else:
            y2[2 * p:2 * p + 2] ^= 1
            want[p] = 1 - flat[p]
    shape2d = ctx.rng.random() < 0.3 and len(flat) % 2 == 0
    arg = y2.reshape(2, -1) if shape2d else y2
    got = np.asarray(ctx.call('rx.decoding_manchester', ctx.lay(arg)))
    ctx.expect_equal(got.reshape(-1), want, 'Manchester decoding marks exactly the bits without a mid-bit transition')
    ctx.note(k > 0, flat=flat, pos=pos, half=half)
    ctx.seen('man_err', min(k, 3), shape2d)


def bipolar_errors(ctx):
    flat, _ = bit_block(ctx)
    y = ref.enc_bipolar(flat)
    if ctx.rng.random() < 0.3:
        y = 2 - y                                        # opposite polarity is valid too
    k = int(ctx.pick(0, 1, 2, int(ctx.rng.integers(0, len(flat) + 1))))
    pos = ctx.rng.choice(len(flat), min(k, len(flat)), replace=False)
    y2 = y.copy()
    y2[pos] = ctx.rng.integers(0, 3, len(pos))
    arg = shaped(ctx, y2)
    got = np.asarray(ctx.call('rx.decoding_bipolar', ctx.lay(arg), True))
    ctx.expect_equal(got, ref.dec_bipolar_marks(y2).reshape(arg.shape), 'bipolar error detection marks exactly the repeated marks', line=y2)
    plain = np.asarray(ctx.call('rx.decoding_bipolar', ctx.lay(arg)))
    ctx.expect_equal(plain, np.abs(arg - 1), 'bipolar decoding without error detection')
    ctx.note(True, y2=y2)
    ctx.seen('bip_err', min(len(pos), 3), 'flagged' if (np.abs(got) == 0.5).any() else 'clean', int(y2[np.flatnonzero(y2 != 1)[0]]) if (y2 != 1).any() else 'none')


def diff_errors(ctx):
    """A single symbol error after differential coding corrupts exactly that symbol and the next one."""
    name = ctx.pick('NRZ', 'OOK', 'PAM3', 'PAM4')
    m = DIFF_M[name]
    x = ctx.rng.integers(0, m, ctx.length(1, 100, 1000))
    y = ref.enc_differential(x, m)
    p = int(ctx.rng.integers(0, len(x)))
    y2 = y.copy()
    y2[p] = (y2[p] + int(ctx.rng.integers(1, m))) % m
    z = np.asarray(ctx.call('rx.decoding_differential', ctx.lay(y2), const(name)))
    ctx.expect_equal(z, ref.dec_differential(y2, m), 'differential decoding of a corrupted stream')
    bad = np.flatnonzero(z != x)
    ctx.expect(list(bad) == [q for q in (p, p + 1) if q < len(x)], 'a single error corrupts exactly two symbols', bad=bad, p=p)
    # an offset of the whole line only changes the first symbol
    off = int(ctx.rng.integers(1, m)) if m > 1 else 0
    z = np.asarray(ctx.call('rx.decoding_differential', (y + off) % m, const(name)))
    ctx.expect_equal(z[1:], x[1:], 'differential decoding ignores a constant offset of the line')
    ctx.note(True, name=name, x=x, p=p)
    ctx.seen('diff_err', name)


def refuse_nonbinary(ctx):
    """Binary-only encoders refuse data that is not binary."""
    code = ctx.pick('manchester', 'bipolar', 'mlt3', 'differential_manchester')
    n = ctx.length(1, 40)
    bad = ctx.pick(2, 3, -1, 7)
    x = ctx.bits(n)
    kind = ctx.rng.integers(0, 3)
    if kind == 0:
        x = np.full(n, bad)
    elif kind == 1:
        x[int(ctx.rng.integers(0, n))] = bad
    else:
        x = np.where(x == int(ctx.rng.integers(0, 2)), bad, x)
        x[0] = bad
    ctx.call_raises('tx.coding_' + code, ValueError, x)
    if code in ('manchester', 'differential_manchester') and n % 2 == 0:
        ctx.call_raises('rx.decoding_' + code, ValueError, x)
    ctx.note(True, code=code, x=x)
    ctx.seen('refused', code, int(kind))


C08 = [('gray_structure', gray_structure, 1), ('gray_link', gray_link, 2), ('encoders', encoders, 6),
       ('diff_manchester', diff_manchester_structure, 3), ('manchester_errors', manchester_errors, 3),
       ('bipolar_errors', bipolar_errors, 5), ('diff_errors', diff_errors, 3), ('refuse_nonbinary', refuse_nonbinary, 3)]
