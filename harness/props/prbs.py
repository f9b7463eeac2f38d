"""C01: PRBS generation."""
import numpy as np
from harness import ref
from harness.core import TARGET

TYPES = ['PRBS7', 'PRBS9', 'PRBS11', 'PRBS13', 'PRBS15', 'PRBS31']
PRIMITIVE = {2: [(1, 2)], 3: [(2, 3), (1, 3)], 4: [(1, 4), (3, 4)], 5: [(2, 5), (3, 5)], 6: [(1, 6), (5, 6)],
             8: [(4, 5, 6, 8)], 10: [(3, 10), (7, 10)]}


def prbs_type(name):
    return getattr(TARGET.load().PrbsEnum, name)


def seed_vec(ctx, n):
    k = ctx.rng.integers(0, 5)
    if k == 0:
        return np.ones(n, dtype=int)
    if k == 1:
        s = np.zeros(n, dtype=int)
        s[ctx.rng.integers(0, n)] = 1
        return s
    while True:
        s = ctx.rng.integers(0, 2, n)
        if s.any():
            return s


def poly_vec(taps, n):
    p = np.zeros(n, dtype=int)
    for k in taps:
        p[k - 1] = 1
    return p


def stream_case(ctx):
    """One-shot, chunked and iterator streams against the recurrence."""
    name = ctx.pick(*TYPES)
    n = int(name[4:])
    poly = ctx.call('get_polynomial', prbs_type(name))
    ctx.expect_equal(poly, poly_vec(ref.PRBS_TAPS[n], n), 'generating polynomial of %s' % name)
    seed = seed_vec(ctx, n)
    total = ctx.length(1, 300, 3000)
    want, end = ref.lfsr(ref.PRBS_TAPS[n], seed, total)
    one, zo = ctx.call('tx.prbs_gen', ctx.lay(poly), ctx.lay(seed), total)
    ctx.expect_equal(one, want, '%s one-shot stream' % name)
    ctx.expect_equal(zo, end, '%s returned seed' % name)
    cuts = ctx.split(total)
    s, parts = seed.copy(), []
    for c in cuts:
        if ctx.rng.random() < 0.05:                     # an empty piece of the stream
            out, s = ctx.call('tx.prbs_gen', poly, s, 0)
            ctx.expect(len(out) == 0, 'no bits asked for, none given', got=out)
        out, s = ctx.call('tx.prbs_gen', poly, s, c)
        parts.append(out)
    ctx.expect_equal(np.concatenate(parts), want, '%s stream continued through the returned seed' % name, cuts=cuts)
    ctx.expect_equal(s, end, '%s final seed of the chunked stream' % name)
    it = ctx.call('tx.PrbsIterator', ctx.lay(poly), ctx.lay(seed))
    m = min(total, int(ctx.pick(200, 200, 200, 1300)))
    ctx.expect(iter(it) is not None, 'iterator is iterable')
    got, prev = [], None
    for t in range(m):
        prev = np.array(it.get_seed())
        got.append(int(next(it)))
    ctx.stats['calls']['PrbsIterator.__next__'] += m
    ctx.expect_equal(got, want[:m], '%s iterator stream' % name)
    ctx.expect_equal(it.get_seed(), ref.lfsr(ref.PRBS_TAPS[n], seed, m)[1], '%s iterator seed' % name)
    ctx.expect_equal(it.get_prev_seed(), prev, '%s iterator previous seed' % name)
    # hand over from the iterator to the generator
    more, _ = ctx.call('tx.prbs_gen', poly, np.array(it.get_seed()), 40)
    ctx.expect_equal(more, ref.lfsr(ref.PRBS_TAPS[n], seed, m + 40)[0][m:], '%s handover iterator to generator' % name)
    ctx.note(total > 1, type=name, seed=seed, total=total, cuts=cuts)
    ctx.seen('stream', name, 'chunks', min(len(cuts), 6), 'short' if min(cuts) < n else 'long')


def period_case(ctx):
    """Streams around and beyond the period: repetition with period 2^n-1, maximality, balance, seed."""
    name = ctx.pick('PRBS7', 'PRBS7', 'PRBS7', 'PRBS9', 'PRBS9', 'PRBS11')
    n = int(name[4:])
    P = 2 ** n - 1
    poly = poly_vec(ref.PRBS_TAPS[n], n)
    seed = seed_vec(ctx, n)
    total = int(ctx.pick(P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P, P + n - 1, P + n, P + n + 1,
                         int(ctx.rng.integers(P, 3 * P)), int(ctx.rng.integers(P, 3 * P))))
    if n == 11:
        total = min(total, 2 * P + 1)
    elif ctx.rng.random() < 0.15:                       # many periods in one call
        total = int(ctx.rng.integers(3 * P, (60 if n == 7 else 20) * P))
    want, end = ref.lfsr(ref.PRBS_TAPS[n], seed, total)
    got, zo = ctx.call('tx.prbs_gen', poly, seed, total)
    ctx.expect_equal(got, want, '%s stream of %d bits (period %d)' % (name, total, P))
    ctx.expect_equal(zo, end, '%s returned seed after %d bits' % (name, total))
    nxt, _ = ctx.call('tx.prbs_gen', poly, zo, 50)
    ctx.expect_equal(nxt, ref.lfsr(ref.PRBS_TAPS[n], end, 50)[0], '%s continuation after more than a period' % name)
    if total >= P:
        one = np.asarray(got[:P])
        ctx.expect(int(one.sum()) == 2 ** (n - 1), '%s period is balanced' % name)
        w = np.concatenate([one, one[:n - 1]])
        win = np.zeros(P, dtype=int)
        for i in range(n):
            win = win * 2 + w[i:i + P]
        ctx.expect(len(np.unique(win)) == P and win.min() > 0, '%s visits every nonzero state once per period' % name)
    ctx.note(True, type=name, total=total, seed=seed)
    ctx.seen('period', name, total // P, 'exact' if total % P == 0 else 'partial')


def long_period_case(ctx):
    """PRBS13/15 across their period (expensive)."""
    name = ctx.pick('PRBS13', 'PRBS13', 'PRBS15', 'PRBS31')
    n = int(name[4:])
    P = 2 ** n - 1 if n < 31 else 66000
    poly = ctx.call('get_polynomial', prbs_type(name))
    seed = seed_vec(ctx, n)
    total = P + int(ctx.rng.integers(0, 200))
    want, end = ref.lfsr(ref.PRBS_TAPS[n], seed, total)
    got, zo = ctx.call('tx.prbs_gen', poly, seed, total)
    ctx.expect_equal(got, want, '%s stream of %d bits' % (name, total))
    ctx.expect_equal(zo, end, '%s returned seed after %d bits' % (name, total))
    if n < 31:
        ctx.expect(int(np.sum(got[:P])) == 2 ** (n - 1), '%s period is balanced' % name)
    nxt, _ = ctx.call('tx.prbs_gen', poly, zo, 60)
    ctx.expect_equal(nxt, ref.lfsr(ref.PRBS_TAPS[n], end, 60)[0], '%s continuation after a long run' % name)
    ctx.note(True, type=name, total=total, seed=seed)
    ctx.seen('long', name)


def custom_poly_case(ctx):
    """User polynomials, within 2^n-1 bits and beyond; also such which are not of maximal length."""
    if ctx.rng.random() < 0.5:
        n = int(ctx.pick(*PRIMITIVE))
        taps = PRIMITIVE[n][int(ctx.rng.integers(0, len(PRIMITIVE[n])))]
        total = ctx.length(1, 4 * (2 ** n - 1) + 3, min(40 * (2 ** n - 1), 5000))
        kind = 'primitive'
    else:
        n = int(ctx.rng.integers(1, 40)) if ctx.rng.random() < 0.6 else int(ctx.rng.integers(2, 9))
        taps = set(int(v) + 1 for v in ctx.rng.integers(0, n, int(ctx.rng.integers(1, 6))))
        taps = tuple(sorted(taps | {n} if ctx.rng.random() < 0.8 else taps))     # the last tap may be missing
        total = ctx.length(1, 400, 1500)
        if ctx.rng.random() < 0.2:                          # well beyond the period of a short register
            n = int(ctx.rng.integers(5, 11))
            taps = tuple(sorted(set(int(v) + 1 for v in ctx.rng.integers(0, n, int(ctx.rng.integers(1, 5)))) | {n}))
            total = int((2 ** n - 1) * ctx.rng.uniform(1, 2.5)) + 2
        kind = 'beyond' if total > 2 ** n - 1 else 'any'
    seed = seed_vec(ctx, n)
    poly = poly_vec(taps, n)
    want, end = ref.lfsr(taps, seed, total)
    got, zo = ctx.call('tx.prbs_gen', ctx.lay(poly), ctx.lay(seed), total)
    ctx.expect_equal(got, want, 'stream of polynomial %r' % (taps,))
    ctx.expect_equal(zo, end, 'returned seed of polynomial %r' % (taps,))
    it = ctx.call('tx.PrbsIterator', ctx.lay(poly), ctx.lay(seed))
    k = min(total, int(ctx.pick(60, 60, 400)))
    ctx.expect_equal([int(next(it)) for _ in range(k)], want[:k], 'iterator of polynomial %r' % (taps,))
    ctx.note(True, taps=taps, seed=seed, total=total)
    ctx.seen('custom', kind, n)


def interleaved_case(ctx):
    """Several generators and iterators in flight at once never influence one another."""
    lanes = []
    for _ in range(int(ctx.rng.integers(2, 5))):
        name = ctx.pick(*TYPES)
        n = int(name[4:])
        seed = seed_vec(ctx, n)
        poly = ctx.call('get_polynomial', prbs_type(name))
        kind = ctx.pick('gen', 'iter')
        obj = ctx.call('tx.PrbsIterator', poly, seed.copy()) if kind == 'iter' else None
        lanes.append({'n': n, 'seed0': seed.copy(), 'seed': seed.copy(), 'poly': poly, 'kind': kind, 'obj': obj, 'out': []})
    order = ctx.rng.integers(0, len(lanes), 25)
    for k in order:
        ln = lanes[k]
        c = int(ctx.rng.integers(1, 30))
        if ln['kind'] == 'gen':
            o, ln['seed'] = ctx.call('tx.prbs_gen', ln['poly'], ln['seed'], c)
            ln['out'] += [int(v) for v in o]
        else:
            ln['out'] += [int(next(ln['obj'])) for _ in range(c)]
    for ln in lanes:
        want, _ = ref.lfsr(ref.PRBS_TAPS[ln['n']], ln['seed0'], len(ln['out']))
        ctx.expect_equal(ln['out'], want, 'interleaved PRBS%d %s' % (ln['n'], ln['kind']))
    ctx.note(True, lanes=[(ln['n'], ln['kind'], ln['seed0']) for ln in lanes], order=order)
    ctx.seen('interleaved', len(lanes))


WORKLOADS = [('stream', stream_case, 8), ('period', period_case, 4), ('long_period', long_period_case, 1),
             ('custom_poly', custom_poly_case, 4), ('interleaved', interleaved_case, 3)]
