"""Reference models, written from the documented behaviour and independent of the code under test."""
import itertools

import numpy as np

PRBS_TAPS = {7: (6, 7), 9: (5, 9), 11: (9, 11), 13: (1, 2, 12, 13), 15: (14, 15), 31: (28, 31)}
LEVELS = {'NRZ': [-1, 1], 'OOK': [0, 1], 'PAM3': [-1, 0, 1], 'PAM4': [-3, -1, 1, 3]}


# -- PRBS ---------------------------------------------------------------------------------------------------------------
def lfsr(taps, seed, n):
    """taps: 1-based delays; seed[0] is the newest bit.  Returns (bits, state) with the recurrence b[t]=xor b[t-k]."""
    size = len(seed)
    state = 0
    for i, b in enumerate(seed):
        state |= (int(b) & 1) << i              # bit i = the bit i+1 steps ago
    mask = 0
    for k in taps:
        mask |= 1 << (k - 1)
    full = (1 << size) - 1
    out = np.empty(n, dtype=np.int64)
    for t in range(n):
        bit = bin(state & mask).count('1') & 1
        out[t] = bit
        state = ((state << 1) | bit) & full
    return out, np.array([(state >> i) & 1 for i in range(size)], dtype=np.int64)


_period = {}


def prbs_period(order):
    """One period from the all-ones seed (orders up to 15)."""
    if order not in _period:
        _period[order] = lfsr(PRBS_TAPS[order], [1] * order, 2 ** order - 1)[0]
    return _period[order]


# -- symbols --------------------------------------------------------------------------------------------------------------
def bits_to_symbols(bits, m, order_inv, inv_msb, inv_lsb, pn_inv):
    """m bits per symbol, first bit of a group has weight 1."""
    bits = [int(b) for b in bits]
    out = []
    for s in range(0, len(bits) - len(bits) % m, m):
        g = bits[s:s + m]
        if m > 1:
            if order_inv:
                g = g[::-1]
            if inv_msb:
                g = g[:-1] + [1 - g[-1]]
            if inv_lsb:
                g = [1 - g[0]] + g[1:]
        if pn_inv:
            g = [1 - b for b in g]
        out.append(sum(b << i for i, b in enumerate(g)))
    return np.array(out, dtype=int)


def symbols_to_bits(sym, m, order_inv, inv_msb, inv_lsb, pn_inv):
    out = []
    for s in np.asarray(sym).reshape(-1):
        g = [(int(s) >> i) & 1 for i in range(m)]
        if pn_inv:
            g = [1 - b for b in g]
        if m > 1:
            if inv_lsb:
                g = [1 - g[0]] + g[1:]
            if inv_msb:
                g = g[:-1] + [1 - g[-1]]
            if order_inv:
                g = g[::-1]
        out += g
    return np.array(out, dtype=int)


def levels(name, full_scale=False):
    lv = np.array(LEVELS[name], dtype=float)
    if full_scale:
        lv = lv / np.sqrt(np.mean(lv ** 2))
    return lv


# -- line codes (on flat sequences) ---------------------------------------------------------------------------------------
def enc_differential(x, m):
    out, acc = [], 0
    for v in x:
        acc = (acc + int(v)) % m
        out.append(acc)
    return np.array(out, dtype=int)


def dec_differential(y, m):
    out, prev = [], 0
    for v in y:
        out.append((int(v) - prev) % m)
        prev = int(v)
    return np.array(out, dtype=int)


def enc_manchester(x):
    return np.array([b for v in x for b in ((1, 0) if v else (0, 1))], dtype=int)


def enc_bipolar(x):
    out, nxt = [], 0
    for v in x:
        if v:
            out.append(nxt)
            nxt = 2 - nxt
        else:
            out.append(1)
    return np.array(out, dtype=int)


def enc_mlt3(x):
    cyc, pos, out = [0, 1, 2, 1], 0, []
    for v in x:
        pos = (pos + int(v)) % 4
        out.append(cyc[pos])
    return np.array(out, dtype=int)


def dec_bipolar_marks(y):
    """Error detecting bipolar decoding: consecutive equal marks become +-0.5."""
    out = [abs(int(v) - 1) * 1.0 for v in y]
    last = None
    for i, v in enumerate(y):
        s = int(v) - 1
        if s == 0:
            continue
        if last is not None and last[1] == s:
            out[i] = out[last[0]] = 0.5 * s
        last = (i, s)
    return np.array(out)


# -- block and convolutional codes ----------------------------------------------------------------------------------------
def gf2_block_encode(bits, G):
    k, n = G.shape
    bits = list(int(b) for b in bits)
    while len(bits) % k:
        bits.append(0)
    out = []
    for s in range(0, len(bits), k):
        for j in range(n):
            v = 0
            for i in range(k):
                v ^= bits[s + i] & int(G[i, j])
            out.append(v)
    return np.array(out, dtype=int)


def all_words(k):
    return np.array(list(itertools.product([0, 1], repeat=k)), dtype=int).reshape(-1, k)


def conv_encode(bits, G, feedback=None, use_feedback=None, zi=None):
    """Shift-register model of the documented encoder.  G: {input: (n_out, memory+1)}.  Returns (code bits, registers)."""
    n_in = len(G)
    n_out = G[0].shape[0]
    bits = [int(b) for b in bits]
    while len(bits) % n_in:
        bits.append(0)
    regs = {i: ([int(v) for v in zi[i]] if zi is not None and i in zi else [0] * (G[i].shape[1] - 1)) for i in range(n_in)}
    Gl = {i: [[int(v) for v in row] for row in G[i]] for i in range(n_in)}
    out = []
    for s in range(0, len(bits), n_in):
        word = [0] * n_out
        for i in range(n_in):
            x = bits[s + i]
            fb = feedback is not None and i in feedback
            w = x
            if fb:
                for a, r in zip(feedback[i][1:], regs[i]):
                    w ^= int(a) & r
            line = [w] + regs[i]
            for j in range(n_out):
                if fb and not use_feedback[i][j]:
                    word[j] ^= x & Gl[i][j][0]
                else:
                    v = 0
                    for g, b in zip(Gl[i][j], line):
                        v ^= g & b
                    word[j] ^= v
            regs[i] = line[:-1]
        out += word
    return np.array(out, dtype=int), regs


class ConvMachine:
    """State machine of the encoder, by integer state (state bits: input 0's registers first, newest first)."""
    def __init__(self, G, feedback=None, use_feedback=None):
        self.n_in, self.n_out = len(G), G[0].shape[0]
        mem = [G[i].shape[1] - 1 for i in range(self.n_in)]
        self.total = sum(mem)
        self.ns = 2 ** self.total
        self.nxt = np.zeros((self.ns, 2 ** self.n_in), dtype=int)
        self.out = np.zeros((self.ns, 2 ** self.n_in, self.n_out), dtype=int)
        for s in range(self.ns):
            sb = [(s >> (self.total - 1 - i)) & 1 for i in range(self.total)]
            for u in range(2 ** self.n_in):
                ub = [(u >> (self.n_in - 1 - i)) & 1 for i in range(self.n_in)]
                zi, pos = {}, 0
                for i in range(self.n_in):
                    zi[i] = sb[pos:pos + mem[i]]
                    pos += mem[i]
                o, regs = conv_encode(ub, G, feedback, use_feedback, zi)
                nb = [b for i in range(self.n_in) for b in regs[i]]
                v = 0
                for b in nb:
                    v = 2 * v + b
                self.nxt[s, u] = v
                self.out[s, u] = o

    def best_metric(self, rx):
        """Minimum Hamming distance of rx (multiple of n_out bits) over every start state and input.  Returns
        (minimum, metric per end state)."""
        acc = np.zeros(self.ns, dtype=int)
        for k in range(len(rx) // self.n_out):
            r = rx[k * self.n_out:(k + 1) * self.n_out]
            d = acc[:, None] + np.sum(self.out != r, axis=2)
            new = np.full(self.ns, 10 ** 9)
            np.minimum.at(new, self.nxt.reshape(-1), d.reshape(-1))
            acc = new
        return int(acc.min()), acc

    def word_metric(self, bits, rx):
        """Distance of rx from the code words of this input, per start state; also the end states."""
        state = np.arange(self.ns)
        acc = np.zeros(self.ns, dtype=int)
        for k in range(len(rx) // self.n_out):
            u = 0
            for b in bits[k * self.n_in:(k + 1) * self.n_in]:
                u = 2 * u + int(b)
            acc = acc + np.sum(self.out[state, u] != rx[k * self.n_out:(k + 1) * self.n_out], axis=1)
            state = self.nxt[state, u]
        return acc, state


# -- filters --------------------------------------------------------------------------------------------------------------
def difference_equation(b, a, x):
    """a0 y[n] = sum b_i x[n-i] - sum a_j y[n-j], zero initial state."""
    b = np.asarray(b)
    a = np.asarray(a)
    x = np.asarray(x)
    dt = np.result_type(b, a, x, float)
    y = np.zeros(len(x), dtype=dt)
    nb, na = len(b), len(a)
    for n in range(len(x)):
        k = min(n + 1, nb)
        v = np.dot(b[:k], x[n::-1][:k])
        k = min(n, na - 1)
        if k:
            v = v - np.dot(a[1:1 + k], y[n - k:n][::-1])
        y[n] = v / a[0]
    return y


def nearest(x, lv):
    lv = np.asarray(lv, dtype=float)
    return lv[np.argmin(np.abs(lv - x))]


def slicer_margin(x, lv):
    """Distance of x from the nearest decision threshold."""
    lv = np.asarray(lv, dtype=float)
    th = (lv[1:] + lv[:-1]) / 2
    return np.min(np.abs(np.asarray(x, dtype=float)[..., None] - th), axis=-1) if len(th) else np.full(np.shape(x), np.inf)


def ffe_dfe(x, ffe, dfe, lv, osr=1, phase=0, hist=None, mem=None):
    """Returns (slicer input, margin, decision memory).  Decisions of phase `phase` enter the feedback osr//2 samples later.
    hist: samples before x, oldest first.  mem: decision memory, newest first."""
    x = np.asarray(x, dtype=float)
    ffe = np.asarray(ffe, dtype=float)
    dfe = np.zeros(0) if dfe is None else np.asarray(dfe, dtype=float)
    mem = np.zeros(len(dfe)) if mem is None else np.asarray(mem, dtype=float)
    hist = np.zeros(0) if hist is None else np.asarray(hist, dtype=float)
    full = np.concatenate([hist, x])
    h = len(hist)
    out = np.zeros(len(x))
    margin = np.inf
    pending = {}
    for n in range(len(x)):
        v = 0.0
        for i in range(min(n + h + 1, len(ffe))):
            v += ffe[i] * full[h + n - i]
        out[n] = v - (np.dot(dfe, mem) if len(dfe) else 0.0)
        if len(dfe):
            if n % osr == phase % osr:
                margin = min(margin, float(slicer_margin(out[n], lv)))
                pending[n + osr // 2] = nearest(out[n], lv)
            if n in pending:
                mem = np.concatenate([[pending.pop(n)], mem[:-1]])
    return out, margin, mem
