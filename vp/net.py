"""Reference of PolicyNet: file format, forward pass, REINFORCE + Adam step, sampling test."""
import math, struct
import numpy as np
from .exe import Violation


def shapes(nf, npol):
    i, h = 64 * nf, (64 * nf + npol) // 2
    return [(h, i), (h,), (h, h), (h,), (npol, h), (npol,)]


def parse(blob, nf, npol):
    """stored bytes -> (parameters, reward moving average, number of trainings)"""
    sh = shapes(nf, npol)
    n = sum(int(np.prod(s)) for s in sh)
    if len(blob) != 8 * n + 8 + 4:
        raise Violation('stored PolicyNet has %d bytes, expected %d for %d features and %d policies' % (len(blob), 8 * n + 12, nf, npol))
    a = np.frombuffer(blob, dtype='<f8', count=n)
    out, o = [], 0
    for s in sh:
        k = int(np.prod(s))
        out.append(a[o:o + k].reshape(s).copy())
        o += k
    avg, cnt = struct.unpack('<di', blob[8 * n:])
    return out, avg, cnt


def encode(feats):
    v = np.zeros(64 * len(feats))
    for i, f in enumerate(feats):
        x = int(f)
        for j in range(64):
            v[64 * i + j] = (x >> j) & 1
    return v


def forward(p, x, full=False):
    z1 = x @ p[0].T + p[1]
    a1 = np.maximum(z1, 0)
    z2 = a1 @ p[2].T + p[3]
    a2 = np.maximum(z2, 0)
    z3 = a2 @ p[4].T + p[5]
    e = np.exp(z3 - z3.max(axis=1, keepdims=True))
    pr = e / e.sum(axis=1, keepdims=True)
    return (pr, z1, a1, z2, a2) if full else pr


def probs(p, feats):
    return forward(p, encode(feats)[None, :])[0]


def gradient(p, X, acts, adv):
    """ascent direction of mean(adv * log pi(act|x)); returns the gradients and whether a unit
    of the two hidden layers is so close to its kink that the gradient is not well defined"""
    n = len(acts)
    pr, z1, a1, z2, a2 = forward(p, X, True)
    d3 = -pr * adv[:, None] / n
    d3[np.arange(n), acts] += adv / n
    g = [None] * 6
    g[4], g[5] = d3.T @ a2, d3.sum(0)
    d2 = (d3 @ p[4]) * (z2 > 0)
    g[2], g[3] = d2.T @ a1, d2.sum(0)
    d1 = (d2 @ p[2]) * (z1 > 0)
    g[0], g[1] = d1.T @ X, d1.sum(0)
    kink = bool((np.abs(z1) < 1e-9).any()), bool((np.abs(z2) < 1e-9).any())
    return g, kink


class Adam:
    def __init__(self, lr, b1, b2, eps=1e-8):
        self.lr, self.b1, self.b2, self.eps, self.t, self.m, self.v = lr, b1, b2, eps, 0, None, None

    def step(self, p, g):
        self.t += 1
        if self.m is None:
            self.m = [np.zeros_like(x) for x in g]
            self.v = [np.zeros_like(x) for x in g]
        out = []
        for i in range(len(g)):
            self.m[i] = self.b1 * self.m[i] + (1 - self.b1) * g[i]
            self.v[i] = self.b2 * self.v[i] + (1 - self.b2) * g[i] ** 2
            mh = self.m[i] / (1 - self.b1 ** self.t)
            vh = self.v[i] / (1 - self.b2 ** self.t)
            out.append(p[i] + self.lr * mh / (np.sqrt(vh) + self.eps))
        return out


def hist(text, npol):
    h = [0] * npol
    for w in text.split()[1:]:
        k, v = w.split(':')
        if not 0 <= int(k) < npol:
            raise Violation('decision %s is not a policy index (0..%d)' % (k, npol - 1))
        h[int(k)] = int(v)
    return h


def chi2_sf(x, k):
    """survival function of the chi-square distribution with k degrees of freedom"""
    from math import lgamma
    a, x = k / 2.0, x / 2.0
    if x <= 0:
        return 1.0
    if x < a + 1:
        t = s = 1.0 / a
        n = a
        for _ in range(2000):
            n += 1
            t *= x / n
            s += t
            if t < s * 1e-16:
                break
        return max(0.0, 1.0 - s * math.exp(-x + a * math.log(x) - lgamma(a)))
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 2000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = tiny if abs(d) < tiny else d
        c = b + an / c
        c = tiny if abs(c) < tiny else c
        d = 1 / d
        h *= d * c
        if abs(d * c - 1) < 1e-15:
            break
    return math.exp(-x + a * math.log(x) - lgamma(a)) * h


def fits(counts, pr, what, alpha=1e-10):
    """Violation when the counts are not a plausible sample of the probabilities."""
    n = sum(counts)
    # pool cells with a small expectation
    cells, pe, po = [], 0.0, 0
    for o, p in zip(counts, pr):
        e = n * float(p)
        if o > 0 and e < 1e-9 * n:
            raise Violation('%s: policy with probability %.3g was drawn %d of %d times' % (what, p, o, n))
        if e < 20:
            pe += e
            po += o
        else:
            cells.append((e, o))
    if pe > 0:
        if pe >= 20 or not cells:
            cells.append((pe, po))
        else:
            # Poisson tail of the pooled rare cells
            if po > pe + 60 + 12 * math.sqrt(pe):
                raise Violation('%s: policies with total expectation %.2f were drawn %d of %d times' % (what, pe, po, n))
            e, o = cells[0]
            cells[0] = (e + pe, o + po)
    if len(cells) < 2:
        return
    x = sum((o - e) ** 2 / e for e, o in cells)
    pv = chi2_sf(x, len(cells) - 1)
    if pv < alpha:
        raise Violation('%s: %r drawn in %d samples do not fit the probabilities %r (p=%.2g)' %
                        (what, list(counts), n, [round(float(p), 4) for p in pr], pv))
