"""C12: framing, rate change and binary helpers."""
import itertools
import numpy as np


def values(ctx, n):
    k = ctx.rng.integers(0, 4)
    if k == 0:
        return ctx.rng.integers(-50, 50, n) if ctx.rng.random() < 0.8 else ctx.rng.integers(-2 ** 60, 2 ** 60, n)
    if k == 1:
        return np.arange(1, n + 1)
    if k == 2:
        return ctx.rng.normal(size=n) + 1j * ctx.rng.normal(size=n)
    return ctx.rng.normal(size=n)


def frames(x, length, overlap, delay, clip):
    full = [0] * delay + list(x)
    L = len(full)
    rows, start = [], 0
    while start < L - max(overlap, 0):
        row = full[start:start + length]
        if len(row) < length:
            if clip:
                break
            row = row + [0] * (length - len(row))
        rows.append(row)
        start += length - overlap
    return np.array(rows, dtype=x.dtype).reshape(-1, length)


def buffer_case(ctx):
    length = int(ctx.rng.integers(1, 20)) if ctx.rng.random() < 0.93 else int(ctx.rng.integers(20, 300))
    overlap = int(ctx.rng.integers(-6, length)) if ctx.rng.random() < 0.8 else 0
    if ctx.rng.random() < 0.05:
        overlap = -int(ctx.rng.integers(1, 3 * length + 2))
    delay = int(ctx.rng.integers(0, 2 * length + 3)) if ctx.rng.random() < 0.4 else 0
    n = max(ctx.length(1, 60, 400, 12000), max(overlap, 0) + 1)
    x = values(ctx, n)
    clip = bool(ctx.rng.integers(0, 2))
    kw = {}
    if overlap or ctx.rng.random() < 0.5:
        kw['overlap'] = overlap
    if delay or ctx.rng.random() < 0.5:
        kw['delay'] = delay
    if clip or ctx.rng.random() < 0.5:
        kw['clip'] = clip
    got = ctx.call('buffer', ctx.lay(x), length, **kw)
    want = frames(x, length, overlap, delay, clip)
    ctx.expect_equal(got, want, 'framing length=%d overlap=%d delay=%d clip=%r' % (length, overlap, delay, clip), x=x)
    if overlap == 0 and not clip:
        flat = np.asarray(got).reshape(-1)
        ctx.expect_equal(flat[delay:delay + n], x, 'frames without overlap hold the signal in order')
    ctx.note(True, length=length, overlap=overlap, delay=delay, clip=clip, x=x)
    ctx.seen('buffer', 'ov' if overlap > 0 else ('under' if overlap < 0 else 'none'), 'delay' if delay else '0', clip,
             'partial' if (n + delay) % length else 'whole', x.dtype.kind)


def rate_case(ctx):
    x = values(ctx, ctx.length(1, 80, 3000, 70000))
    r = int(ctx.rng.integers(1, 17)) if ctx.rng.random() < 0.93 else int(ctx.rng.integers(17, 130))
    if len(x) < 5000 and ctx.rng.random() < 0.02:
        r = int(ctx.rng.integers(130, 1500))
    if len(x) > 100000:
        r = min(r, 8)
    up = ctx.call('upsample', ctx.lay(x), r)
    want = np.zeros(len(x) * r, dtype=x.dtype)
    want[::r] = x
    ctx.expect_equal(up, want, 'up-sampling by %d' % r)
    ctx.expect_equal(ctx.call('zoh', ctx.lay(x), r), np.repeat(x, r), 'zero order hold by %d' % r)
    ctx.note(len(x) > 1, x=x, r=r)
    ctx.seen('rate', r, x.dtype.kind)


def binary_case(ctx):
    nb = int(ctx.rng.integers(1, 41)) if ctx.rng.random() < 0.7 else int(ctx.rng.integers(41, 63))
    shape = ctx.pick((1,), (ctx.length(1, 40),), (1, 1), (2, 3), (int(ctx.rng.integers(1, 6)), int(ctx.rng.integers(1, 6))), (2, 1, 3))
    v = ctx.rng.integers(0, 2 ** nb, shape)
    k = ctx.rng.integers(0, 4)
    if k == 0:
        v = np.full(shape, 2 ** nb - 1)
    elif k == 1:
        v = np.zeros(shape, dtype=int)
    bits = np.asarray(ctx.call('uint2bin', ctx.lay(v), nb))
    want = np.array([[(int(u) >> (nb - 1 - i)) & 1 for i in range(nb)] for u in v.reshape(-1)]).reshape(shape + (nb,))
    ctx.expect_equal(bits, want, 'unsigned to %d bits' % nb, v=v)
    ctx.expect_equal(ctx.call('bin2uint', ctx.lay(bits)), v, '%d bits back to unsigned' % nb)
    ctx.note(True, nb=nb, v=v)
    ctx.seen('bin', nb, len(shape))


def perm_case(ctx):
    k = int(ctx.rng.integers(1, 13)) if ctx.rng.random() < 0.9 else int(ctx.rng.integers(13, 17))
    ctx.expect_equal(ctx.call('get_bin_perm', k), np.array(list(itertools.product([0, 1], repeat=k))), 'all %d-bit words in counting order' % k)
    ctx.note(True, k=k)
    ctx.seen('perm', k)


def hamming_case(ctx):
    l = int(ctx.rng.integers(1, 12))
    N, M = int(ctx.rng.integers(1, 20)), int(ctx.rng.integers(1, 20))
    if ctx.rng.random() < 0.05:                             # distances beyond 255
        l = int(ctx.rng.integers(200, 700))
    elif ctx.rng.random() < 0.05:                           # indices beyond 255
        N, M = int(ctx.rng.integers(1, 40)), int(ctx.rng.integers(200, 600))
    if ctx.rng.random() < 0.01:                             # both
        l, N, M = int(ctx.rng.integers(500, 700)), int(ctx.rng.integers(1, 8)), int(ctx.rng.integers(60, 400))
    dt = ctx.pick(int, np.uint8, bool, np.int8)
    P = ctx.rng.integers(0, 2, (N, l)).astype(dt)
    C = ctx.rng.integers(0, 2, (M, l)).astype(dt)
    if ctx.rng.random() < 0.3:
        P = C[ctx.rng.integers(0, M, N)]
    if ctx.rng.random() < 0.2:                              # received bits and code words of different types
        P = P.astype(ctx.pick(int, np.uint8, bool, np.int8))
    H, idx = ctx.call('hamming', ctx.lay(P), ctx.lay(C))
    H = np.asarray(H)
    D = np.array([[np.count_nonzero(C[j] != P[i]) for i in range(N)] for j in range(M)], dtype=np.int64).reshape(M, N)
    ctx.expect(H.shape in ((M, N), (N, M)), 'one distance per block and code word')
    ok = (H.shape == (M, N) and np.array_equal(H, D)) or (H.shape == (N, M) and np.array_equal(H, D.T))
    ctx.expect(ok, 'Hamming distances', got=H, want=D)
    idx = np.asarray(idx)
    ctx.expect(idx.shape == (N,) and bool(np.all(D[idx, np.arange(N)] == D.min(axis=0))), 'nearest code word per block', got=idx)
    ctx.note(True, P=P, C=C)
    ctx.seen('hamming', l, str(np.dtype(dt)))


def power_case(ctx):
    x = values(ctx, ctx.length(1, 80, 4000, 70000))
    if ctx.rng.random() < 0.3:
        x = x * ctx.pick(1e-6, 1e-3, 1e3, 1e7)
    if ctx.rng.random() < 0.3:
        x = x + ctx.pick(1, -7, 100)
    if ctx.rng.random() < 0.1:
        x = x * ctx.pick(1j, 1 + 1j)
    if ctx.rng.random() < 0.2:
        x = x.reshape(1, -1)
    elif len(x) % 2 == 0 and ctx.rng.random() < 0.2:
        x = x.reshape(2, -1)
    want = float(np.sum(np.abs(x.astype(complex)) ** 2) / x.size)
    got = complex(ctx.call('power', ctx.lay(x)))
    ctx.expect(abs(got - want) <= 1e-10 * max(want, 1e-300), 'mean power', got=str(got), want=want)
    got = complex(ctx.call('rms', ctx.lay(x)))
    ctx.expect(abs(got - np.sqrt(want)) <= 1e-10 * max(np.sqrt(want), 1e-300), 'RMS', got=str(got), want=np.sqrt(want))
    ctx.note(True, x=x)
    ctx.seen('power', x.dtype.kind)


C12 = [('buffer', buffer_case, 8), ('rate', rate_case, 3), ('binary', binary_case, 3), ('perm', perm_case, 1), ('hamming', hamming_case, 2), ('power', power_case, 2)]
