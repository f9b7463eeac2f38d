"""C09: linear block codes.  C10: convolutional encoding.  C11: convolutional decoding."""
import numpy as np
from harness import ref


def rank2(G):
    M = np.array(G, dtype=int) % 2
    r = 0
    for c in range(M.shape[1]):
        p = [i for i in range(r, M.shape[0]) if M[i, c]]
        if not p:
            continue
        M[[r, p[0]]] = M[[p[0], r]]
        for i in range(M.shape[0]):
            if i != r and M[i, c]:
                M[i] ^= M[r]
        r += 1
        if r == M.shape[0]:
            break
    return r


HAMMING74 = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])


def _golay():
    g = [1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 1, 1]
    return np.array([[0] * i + g + [0] * (11 - i) for i in range(12)])


def _hamming1511():
    cols = [c for c in range(1, 16) if c & (c - 1)]
    return np.hstack([np.eye(11, dtype=int), np.array([[(c >> b) & 1 for b in range(4)] for c in cols])])


def block_code(ctx):
    kind = ctx.rng.integers(0, 8)
    if ctx.rng.random() < 0.06:                                                         # large codes
        big = ctx.rng.integers(0, 5)
        if big == 0:
            return _golay()
        if big == 1:
            return _hamming1511()
        if big == 2:
            return np.ones((1, int(ctx.rng.integers(120, 700))), dtype=int)
        if big == 3:
            k = int(ctx.rng.integers(9, 13))
            return np.hstack([np.eye(k, dtype=int), ctx.rng.integers(0, 2, (k, int(ctx.rng.integers(1, 12))))])
        return ctx.rng.integers(0, 2, (int(ctx.rng.integers(2, 6)), int(ctx.rng.integers(250, 600))))
    if kind == 0:
        G = HAMMING74.copy()
    elif kind == 1:
        G = np.ones((1, int(ctx.rng.integers(1, 10))), dtype=int)                       # repetition
    elif kind == 2:
        k = int(ctx.rng.integers(1, 8))
        G = np.hstack([np.eye(k, dtype=int), np.ones((k, 1), dtype=int)])               # parity
    elif kind == 3:
        k = int(ctx.rng.integers(1, 7))
        G = np.hstack([np.eye(k, dtype=int), ctx.rng.integers(0, 2, (k, int(ctx.rng.integers(1, 7))))])
    elif kind == 4:
        k = int(ctx.rng.integers(1, 6))
        G = ctx.rng.integers(0, 2, (k, int(ctx.rng.integers(k, k + 6))))[:, ::-1].copy()
    else:
        k = int(ctx.rng.integers(1, 9))
        G = ctx.rng.integers(0, 2, (k, int(ctx.rng.integers(1, 13))))
    return G


def block_encode(ctx):
    G = block_code(ctx)
    k, n = G.shape
    bits = ctx.bits(ctx.length(1, 60, 4000, 40000) if ctx.rng.random() < 0.98 else 0)
    out = ctx.call('tx.coding_linear', ctx.lay(bits), ctx.lay(G))
    ctx.expect_equal(out, ref.gf2_block_encode(bits, G), 'block encoding %dx%d' % (k, n), G=G, bits=bits)
    other = ctx.bits(len(bits))
    o2 = np.asarray(ctx.call('tx.coding_linear', other, G))
    o3 = np.asarray(ctx.call('tx.coding_linear', bits ^ other, G))
    ctx.expect_equal(o3, np.asarray(out) ^ o2, 'the code is linear')
    ctx.note(len(bits) > 1, G=G, bits=bits)
    ctx.seen('enc', k, n, len(bits) % k)


def ml_check(ctx, what, data, blocks, book, inputs):
    """Every decoded block is an input whose code word is at the minimum Hamming distance of the received block."""
    k = inputs.shape[1]
    data = np.asarray(data)
    ctx.expect(data.shape == (len(blocks) * k,), what + ': %d decoded bits for %d blocks' % (len(blocks) * k, len(blocks)), got=list(data.shape))
    d = np.sum(book[:, None, :] != blocks[None, :, :], axis=2)
    best = d.min(axis=0)
    for i in range(len(blocks)):
        w = data[i * k:(i + 1) * k]
        hit = np.flatnonzero(np.all(inputs == w, axis=1))
        ctx.expect(len(hit) > 0, what + ': decoded bits are binary', got=w)
        ctx.expect(d[hit, i].min() == best[i], what + ': block %d is decoded to a word at distance %d, the nearest is at %d' % (i, d[hit, i].min(), best[i]),
                   block=blocks[i], got=w)
    return best, np.sum(d == best, axis=0)


def block_decode(ctx):
    G = block_code(ctx)
    k, n = G.shape
    inputs = ref.all_words(k)
    book = inputs.dot(G) % 2
    nb = ctx.length(1, 12, 150 if k < 9 and n < 100 else 12)
    extra = int(ctx.rng.integers(0, n))
    if ctx.rng.random() < 0.5:
        rx = ctx.bits(nb * n)
    else:
        rx = ref.gf2_block_encode(ctx.bits(nb * k), G) ^ (ctx.rng.random(nb * n) < ctx.pick(0, 0.02, 0.1)).astype(int)
    pat = np.concatenate([rx, ctx.rng.integers(0, 2, extra)]).astype(int)
    blocks = rx.reshape(nb, n)
    dec = ctx.call('rx.decoding_linear', ctx.lay(pat), ctx.lay(G))
    best, count = ml_check(ctx, 'block decoding', dec, blocks, book, inputs)
    dec2, perr = ctx.call('rx.decoding_linear', ctx.lay(pat), G, True)
    best, count = ml_check(ctx, 'block decoding with error probability', dec2, blocks, book, inputs)
    full = rank2(G) == k
    for i in range(nb):
        if best[i] > 0:
            ctx.expect(abs(perr[i] - 1 / count[i]) < 1e-12, 'error probability is 1/number of nearest code words', got=perr[i], count=int(count[i]), block=blocks[i])
        elif full:
            ctx.expect(perr[i] == 0, 'error probability of a code word is 0', got=perr[i])
    ctx.expect(len(perr) == nb, 'one error probability per block')
    ctx.note(True, G=G, pat=pat)
    ctx.seen('dec', k, n, 'trail' if extra else 'exact', 'ties' if (count[best > 0] > 1).any() else 'unique', 'noncode' if (best > 0).any() else 'code')


def block_link(ctx):
    """Coded data is recovered exactly when each block has at most t errors."""
    G = block_code(ctx)
    while rank2(G) < G.shape[0]:
        G = block_code(ctx)
    k, n = G.shape
    book = ref.all_words(k).dot(G) % 2
    w = book.sum(axis=1)
    dmin = int(w[w > 0].min())
    t = (dmin - 1) // 2
    bits = ctx.bits(k * ctx.length(1, 20, 300 if k < 9 and n < 100 else 20))
    code = np.asarray(ctx.call('tx.coding_linear', bits, G)).copy()
    nb = len(bits) // k
    ctx.expect(code.shape == (nb * n,), 'coded length')
    errs = 0
    for b in range(nb):
        e = int(ctx.rng.integers(0, t + 1))
        pos = ctx.rng.choice(n, e, replace=False)
        code[b * n + pos] ^= 1
        errs += e
    if ctx.rng.random() < 0.5:
        dec = ctx.call('rx.decoding_linear', code, G)
    else:
        dec, perr = ctx.call('rx.decoding_linear', code, G, error_prob=True)
    ctx.expect_equal(dec, bits, 'block link with at most %d errors per block' % t, G=G)
    ctx.note(True, G=G, bits=bits, errs=errs)
    ctx.seen('link', k, n, 't', t, 'errors' if errs else 'clean')


def block_refuse(ctx):
    G = block_code(ctx)
    x = ctx.bits(20)
    if ctx.rng.random() < 0.5:
        x = x.copy()
        x[int(ctx.rng.integers(0, 20))] = ctx.pick(2, -1, 5)
    else:
        G = G.copy()
        G[int(ctx.rng.integers(0, G.shape[0])), int(ctx.rng.integers(0, G.shape[1]))] = ctx.pick(2, -1, 5)
    ctx.call_raises(ctx.pick('tx.coding_linear', 'rx.decoding_linear'), ValueError, x, G)
    ctx.note(False)
    ctx.seen('refused')


C09 = [('block_encode', block_encode, 5), ('block_decode', block_decode, 6), ('block_link', block_link, 4), ('block_refuse', block_refuse, 1)]


# -- C10 ---------------------------------------------------------------------------------------------------------------------
KNOWN = [
    ({0: [[1, 1, 1], [1, 1, 0]]}, None, None),
    ({0: [[1, 0, 1], [1, 1, 1]]}, None, None),
    ({0: [[1, 1, 1, 1, 0, 0, 1], [1, 0, 1, 1, 0, 1, 1]]}, None, None),
    ({0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0, 0], [1, 0, 0], [0, 0, 1]]}, None, None),
    ({0: [[1, 0], [0, 1]]}, {0: [1, 1]}, [[0, 1]]),
    ({0: [[1, 0, 0], [1, 0, 1]]}, {0: [1, 1, 1]}, [[0, 1]]),
]


def conv_code(ctx, max_mem, max_in=2, max_out=4, total_mem=None, feedback=True):
    """Random or textbook convolutional code: (G, feedback, use_feedback)."""
    r = ctx.rng
    while True:
        if r.random() < 0.2:
            G, fb, uf = KNOWN[int(r.integers(0, len(KNOWN)))]
            G = {i: np.array(v) for i, v in G.items()}
            fb = None if fb is None else {i: np.array(v) for i, v in fb.items()}
            uf = None if uf is None else np.array(uf)
        else:
            n_in = int(r.integers(1, max_in + 1))
            n_out = int(r.integers(max(1, n_in), max_out + 1))
            fb, uf = None, None
            G = {}
            with_fb = feedback and r.random() < 0.5
            if with_fb:
                fb, uf = {}, np.zeros((n_in, n_out), dtype=int)
            for i in range(n_in):
                m = int(r.integers(1, max_mem + 1)) if with_fb or r.random() < 0.9 else 0
                g = r.integers(0, 2, (n_out, m + 1))
                if with_fb and r.random() < 0.8:
                    fb[i] = np.concatenate([[1], r.integers(0, 2, m)])
                    uf[i] = r.integers(0, 2, n_out)
                    for j in range(n_out):
                        if not uf[i, j]:
                            g[j, 1:] = 0
                G[i] = g
            if with_fb and not fb:
                continue
        if feedback is False and fb is not None:
            continue
        mem = [G[i].shape[1] - 1 for i in G]
        if max(mem) > max_mem or len(G) > max_in or (total_mem is not None and not 1 <= sum(mem) <= total_mem):
            continue
        if r.random() < 0.2:                                # the order of the dictionary entries carries no meaning
            G = {i: G[i] for i in reversed(sorted(G))}
        return G, fb, uf


def code_args(fb, uf):
    return {} if fb is None else {'feedback': fb, 'use_feedback': uf}


def conv_encode(ctx):
    G, fb, uf = conv_code(ctx, 6, 3, 4) if ctx.rng.random() < 0.9 else conv_code(ctx, 14, 4, 8)
    bits = ctx.bits(ctx.length(1, 60, 5000, 40000))
    zi = None
    if ctx.rng.random() < 0.4:
        zi = {i: ctx.rng.integers(0, 2, G[i].shape[1] - 1) for i in G if ctx.rng.random() < 0.8}
    kw = code_args(fb, uf)
    if zi is not None:
        kw['zi'] = zi
    out = ctx.call('tx.coding_conv', ctx.lay(bits), G, **kw)
    want, _ = ref.conv_encode(bits, G, fb, uf, zi)
    ctx.expect_equal(out, want, 'convolutional encoding', G=G, fb=fb, uf=uf, zi=zi, bits=bits)
    ctx.note(len(bits) > 2, G=G, fb=fb, uf=uf, zi=zi, bits=bits)
    ctx.seen('conv', len(G), G[0].shape[0], 'fb' if fb else 'ff', 'zi' if zi else '0', 'long' if len(bits) > 500 else 'short', 'pad' if len(bits) % len(G) else 'even')


def conv_stream(ctx):
    """Encoding block by block, handing over the register contents, equals encoding at once."""
    G, fb, uf = conv_code(ctx, 5, 2, 4) if ctx.rng.random() < 0.9 else conv_code(ctx, 12, 4, 6)
    n_in = len(G)
    bits = ctx.bits(n_in * ctx.length(2, 60, 600))
    kw = code_args(fb, uf)
    whole = np.asarray(ctx.call('tx.coding_conv', bits, G, **kw))
    parts, pos, zi = [], 0, None
    for c in ctx.split(len(bits) // n_in):
        seg = bits[pos:pos + c * n_in]
        parts.append(np.asarray(ctx.call('tx.coding_conv', seg, G, **kw, **({} if zi is None else {'zi': zi}))))
        _, regs = ref.conv_encode(seg, G, fb, uf, zi)
        zi = {i: np.array(regs[i], dtype=int) for i in regs}
        pos += c * n_in
    ctx.expect_equal(np.concatenate(parts), whole, 'block-wise encoding with handed over memory', G=G, fb=fb, bits=bits)
    ctx.note(True, G=G, fb=fb, bits=bits, parts=len(parts))
    ctx.seen('stream', n_in, 'fb' if fb else 'ff', min(len(parts), 5))


def conv_linear(ctx):
    """Superposition over F2 and causality."""
    G, fb, uf = conv_code(ctx, 6, 3, 4)
    n_in, n_out = len(G), G[0].shape[0]
    n = n_in * ctx.length(1, 80, 1500)
    a, b = ctx.bits(n), ctx.rng.integers(0, 2, n)
    kw = code_args(fb, uf)
    ya, yb, yab = [np.asarray(ctx.call('tx.coding_conv', v, G, **kw)) for v in (a, b, a ^ b)]
    ctx.expect_equal(yab, ya ^ yb, 'convolutional encoding is linear over F2', G=G, fb=fb)
    cut = int(ctx.rng.integers(0, n // n_in + 1)) * n_in
    c = np.concatenate([a[:cut], b[cut:]])
    yc = np.asarray(ctx.call('tx.coding_conv', c, G, **kw))
    ctx.expect_equal(yc[:cut // n_in * n_out], ya[:cut // n_in * n_out], 'convolutional encoding is causal', G=G, fb=fb)
    ctx.note(True, G=G, fb=fb, a=a, b=b)
    ctx.seen('linear', n_in, n_out, 'fb' if fb else 'ff')


def conv_refuse(ctx):
    G = {0: np.array([[1, 0, 0], [1, 1, 1]])}
    fb, uf = {0: np.array([1, 0, 1])}, np.array([[0, 1]])
    x = ctx.bits(12)
    kind = int(ctx.rng.integers(0, 7))
    if kind == 0:
        x = x.copy()
        x[int(ctx.rng.integers(0, 12))] = ctx.pick(2, -1)
    elif kind == 6:
        fb[0][int(ctx.rng.integers(0, 3))] = ctx.pick(2, -1, 3)
    elif kind == 1:
        G = {0: G[0] * 2 - 1}
    elif kind == 2:
        uf = None
    elif kind == 3:
        uf = np.array([[0, 1, 0]])
    elif kind == 4:
        uf = np.array([[0, 0]])
    else:
        fb = {}
    name = ctx.pick('tx.coding_conv', 'rx.decoding_conv_ml', 'rx.decoding_conv_viterbi')
    if name == 'tx.coding_conv':
        ctx.call_raises(name, ValueError, x, G, fb, uf)
    else:
        ctx.call_raises(name, ValueError, x, G, 6, fb, uf)
    ctx.note(False, kind=kind)
    ctx.seen('refused', kind, name)


C10 = [('conv_encode', conv_encode, 8), ('conv_stream', conv_stream, 4), ('conv_linear', conv_linear, 3), ('conv_refuse', conv_refuse, 1)]


# -- C11 ---------------------------------------------------------------------------------------------------------------------
def received(ctx, G, fb, uf, nbits_out):
    """A received stream: random, or a code word with errors."""
    n_in, n_out = len(G), G[0].shape[0]
    if ctx.rng.random() < 0.3:
        return ctx.bits(nbits_out)
    bits = ctx.bits(-(-nbits_out // n_out) * n_in)
    zi = {i: ctx.rng.integers(0, 2, G[i].shape[1] - 1) for i in G}
    code, _ = ref.conv_encode(bits, G, fb, uf, zi)
    code = code[:nbits_out]
    return code ^ (ctx.rng.random(len(code)) < ctx.pick(0, 0.02, 0.08, 0.2)).astype(int)


def metric_check(ctx, mach, what, dec, blocks, n_chunks):
    nb = len(blocks)
    dec = np.asarray(dec)
    k = n_chunks * mach.n_in
    ctx.expect(dec.shape == (nb * k,), what + ': decoded length', got=list(dec.shape), want=nb * k)
    ctx.expect(bool(np.all((dec == 0) | (dec == 1))), what + ': decoded bits are binary')
    ends = []
    for i in range(nb):
        best, acc = mach.best_metric(blocks[i])
        got, _ = mach.word_metric(dec[i * k:(i + 1) * k], blocks[i])
        ctx.expect(got.min() == best, what + ': block %d is decoded to a word at distance %d, the nearest is at %d' % (i, got.min(), best),
                   block=blocks[i], got=dec[i * k:(i + 1) * k])
        ends.append(acc)
    return ends


def viterbi(ctx):
    big = ctx.rng.random()
    if big < 0.04:                                          # many states
        G, fb, uf = conv_code(ctx, 8, 2, 4, total_mem=8)
    elif big < 0.12:                                        # three or four inputs
        while True:
            G, fb, uf = conv_code(ctx, 2, 4, 6, total_mem=5)
            if len(G) > 2:
                break
    else:
        G, fb, uf = conv_code(ctx, 4, 2, 4, total_mem=5)
    mach = ref.ConvMachine(G, fb, uf)
    n_out = mach.n_out
    n_chunks = ctx.length(1, 20, 60)
    if mach.ns <= 16 and ctx.rng.random() < 0.03:           # distances beyond 255
        n_chunks = int(ctx.rng.integers(300, 1200))
    tb = n_chunks * n_out
    nb = int(ctx.rng.integers(1, 6 if n_chunks < 100 else 3))
    rx = received(ctx, G, fb, uf, nb * tb)
    extra = int(ctx.rng.integers(0, tb)) if ctx.rng.random() < 0.4 else 0
    pat = np.concatenate([rx, ctx.rng.integers(0, 2, extra)]).astype(int)
    kw = code_args(fb, uf)
    blocks = rx.reshape(nb, tb)
    ep = bool(ctx.rng.integers(0, 2))
    res = ctx.call('rx.decoding_conv_viterbi', ctx.lay(pat), G, tb, **kw, **({'error_prob': True} if ep else {}))
    ends = metric_check(ctx, mach, 'Viterbi decoding', res[0], blocks, n_chunks)
    if len(res) > 1 and np.ndim(res[1]) == 0 and 0 <= res[1] < mach.ns:
        ctx.expect(ends[-1][int(res[1])] == ends[-1].min(), 'the returned last state ends a nearest word', got=int(res[1]), metrics=ends[-1])
    else:
        ctx.expect(False, 'Viterbi decoding returns the last state', got=repr(res[1:]))
    if ep:
        perr = np.asarray(res[2])
        want = []
        for acc in ends:
            c = int(np.sum(acc == acc.min()))
            want.append(1 / c if c > 1 else 0.0)
        ctx.expect_close(perr, want, 'Viterbi error probability counts the best end states', atol=1e-12)
    ctx.note(True, G=G, fb=fb, uf=uf, pat=pat, tb=tb)
    ctx.seen('viterbi', mach.n_in, n_out, mach.ns, 'fb' if fb else 'ff', 'trail' if extra else 'exact', ep)


def ml(ctx):
    G, fb, uf = conv_code(ctx, 2, 2, 3, total_mem=3)
    mach = ref.ConvMachine(G, fb, uf)
    n_chunks = int(ctx.rng.integers(1, max(2, 7 // mach.n_in) + 1))
    tb = n_chunks * mach.n_out
    nb = int(ctx.rng.integers(1, 5))
    rx = received(ctx, G, fb, uf, nb * tb)
    extra = int(ctx.rng.integers(0, tb)) if ctx.rng.random() < 0.4 else 0
    pat = np.concatenate([rx, ctx.rng.integers(0, 2, extra)]).astype(int)
    blocks = rx.reshape(nb, tb)
    kw = code_args(fb, uf)
    if ctx.rng.random() < 0.5:
        metric_check(ctx, mach, 'maximum likelihood decoding', ctx.call('rx.decoding_conv_ml', pat, G, tb, **kw), blocks, n_chunks)
    else:
        dec, perr = ctx.call('rx.decoding_conv_ml', pat, G, tb, error_prob=True, **kw)
        metric_check(ctx, mach, 'maximum likelihood decoding with error probability', dec, blocks, n_chunks)
        inputs = ref.all_words(n_chunks * mach.n_in)
        for i in range(nb):
            best, _ = mach.best_metric(blocks[i])
            c = sum(int(np.sum(mach.word_metric(u, blocks[i])[0] == best)) for u in inputs)
            if best > 0:
                ctx.expect(abs(perr[i] - 1 / c) < 1e-12, 'error probability is 1/number of nearest words', got=perr[i], count=c)
            else:
                ctx.expect(perr[i] == 0, 'error probability of a code word is 0', got=perr[i])
    ctx.note(True, G=G, fb=fb, uf=uf, pat=pat, tb=tb)
    ctx.seen('ml', mach.n_in, mach.n_out, mach.ns, 'fb' if fb else 'ff')


GOOD = [({0: [[1, 1, 1], [1, 0, 1]]}, None, None, 5),
        ({0: [[1, 1, 1, 1], [1, 0, 1, 1]]}, None, None, 6),
        ({0: [[1, 0, 0], [1, 0, 1]]}, {0: [1, 1, 1]}, [[0, 1]], 5),
        ({0: [[1, 1, 1, 1, 0, 0, 1], [1, 0, 1, 1, 0, 1, 1]]}, None, None, 10),
        ({0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0, 0], [1, 0, 0], [0, 0, 1]]}, None, None, 1)]


def conv_link(ctx):
    """Textbook codes recover the data: noise-free always, and with few enough errors inside one block."""
    G, fb, uf, dfree = GOOD[int(ctx.rng.integers(0, len(GOOD)))]
    G = {i: np.array(v) for i, v in G.items()}
    fb = None if fb is None else {i: np.array(v) for i, v in fb.items()}
    uf = None if uf is None else np.array(uf)
    n_in, n_out = len(G), G[0].shape[0]
    kw = code_args(fb, uf)
    m = max(G[i].shape[1] for i in G) - 1
    n = ctx.length(6 * (m + 1), 60, 120 if m < 6 else 60)
    bits = ctx.bits(n * n_in)
    code = np.asarray(ctx.call('tx.coding_conv', bits, G, **kw))
    rx = code.copy()
    t = (dfree - 1) // 2
    k = int(ctx.rng.integers(0, t + 1))
    lo, hi = n_out * (5 * m) // 2, len(rx) - 5 * m * n_out // 2
    noisy = k > 0 and hi > lo + k
    if noisy:                                          # away from both ends, where the start and end state are unknown
        rx[lo + ctx.rng.choice(hi - lo, k, replace=False)] ^= 1
    dec = np.asarray(ctx.call('rx.decoding_conv_viterbi', rx, G, len(rx), **kw)[0])
    if noisy:
        mach = ref.ConvMachine(G, fb, uf)
        best, _ = mach.best_metric(rx)
        ctx.expect(mach.word_metric(dec, rx)[0].min() == best, 'Viterbi reaches the minimum distance')
        ctx.expect(best <= k, 'a word at the number of channel errors exists')
    else:
        ctx.expect_equal(dec, bits, 'noise-free convolutional link', G=G, fb=fb)
    ctx.note(True, G=G, bits=bits, rx=rx)
    ctx.seen('link', n_in, n_out, m, 'noisy' if noisy else 'clean')


def trellis(ctx):
    """The trellis object describes the encoder: every branch of it is a step of the shift register."""
    G, fb, uf = conv_code(ctx, 3, 2, 4, total_mem=4)
    n_in, n_out = len(G), G[0].shape[0]
    mem = [G[i].shape[1] - 1 for i in range(n_in)]
    t = ctx.call('misc.ml_decoding:Trellis', G, **code_args(fb, uf))
    if not all(hasattr(t, k) for k in ('trellis', 'input_tensor', 'output_tensor')):
        return                                          # not the documented object: judged through the decoders only
    ns = 2 ** sum(mem)
    states, inputs = ref.all_words(sum(mem)), ref.all_words(n_in)
    ctx.expect(len(t.trellis) == ns * 2 ** n_in, 'one branch per state and input', got=len(t.trellis))
    itens, otens = np.asarray(t.input_tensor), np.asarray(t.output_tensor)
    ctx.expect(itens.shape == (ns, ns, n_in) and otens.shape == (ns, ns, n_out), 'size of the state transition tables', got=[list(itens.shape), list(otens.shape)])
    reach = {}
    for si, s in enumerate(states):
        zi, pos = {}, 0
        for i in range(n_in):
            zi[i] = s[pos:pos + mem[i]]
            pos += mem[i]
        for u in inputs:
            out, regs = ref.conv_encode(u, G, fb, uf, zi)
            nxt = [int(v) for i in range(n_in) for v in regs[i]]
            o, n = t.trellis[(tuple(u), tuple(s))]
            ctx.expect(list(map(int, o)) == list(map(int, out)) and list(map(int, n)) == nxt, 'branch of the trellis', state=s, input=u, got=[list(o), list(n)], want=[out, nxt], G=G, fb=fb)
            reach.setdefault((si, int(''.join(map(str, nxt)) or '0', 2)), []).append((list(map(int, u)), list(map(int, out))))
    for si in range(ns):
        for sj in range(ns):
            br = (list(map(int, itens[si, sj])), list(map(int, otens[si, sj])))
            if (si, sj) in reach:
                ctx.expect(br in reach[(si, sj)], 'transition table entry is a branch', got=br, want=reach[(si, sj)])
            else:
                ctx.expect(br == ([-1] * n_in, [-1] * n_out), 'no entry where there is no transition', got=br)
    ctx.note(True, G=G, fb=fb, uf=uf)
    ctx.seen('trellis', n_in, n_out, ns, 'fb' if fb else 'ff')


C11 = [('trellis', trellis, 2), ('viterbi', viterbi, 8), ('ml', ml, 4), ('conv_link', conv_link, 3)]
