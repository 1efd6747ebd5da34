"""Shared Hypothesis strategies. Every generated case is a JSON document."""
import math
from hypothesis import strategies as st
from .ref import f32, nextf

F32_MAX = 3.4028234663852886e+38

finite_f32 = st.floats(width=32, allow_nan=False, allow_infinity=False)
small_int = st.integers(0, 12).map(float)
mid_int = st.integers(-1000, 100000).map(float)
big_int = st.integers(2**23 - 2, 2**24 + 8).map(lambda x: f32(float(x)))
dec = st.integers(-300, 300).map(lambda x: f32(x / 8.0))
frac = st.integers(0, 1000).map(lambda x: f32(1.0 + x * 1e-6))


@st.composite
def ulps(draw):
    base = draw(st.sampled_from([1.0, 0.1, 100.0, 12345.678, 1e-6, 3e10, -7.5, 1000.0, 1e6, -1.01e9]))
    x = f32(base)
    for _ in range(draw(st.integers(0, 6))):
        x = nextf(x)
    return x

huge = st.sampled_from([3.4028234663852886e+38, 3.0e38, 2.9e38, 2.0e38, 1.5e38, -3.0e38, -2.5e38, 1e38]).map(f32)
tiny = st.sampled_from([1e-45, 3e-45, 1e-40, 1.1754943508222875e-38, 2e-38, 0.0, -1e-45]).map(f32)

sym = st.one_of(st.integers(-6, 6).map(float), st.integers(-12, 12).map(lambda x: x / 2.0))

STYLES = {'small': small_int, 'sym': sym, 'mid': mid_int, 'big': big_int, 'dec': dec, 'frac': frac, 'ulps': ulps(), 'any': finite_f32,
          'huge': huge, 'tiny': tiny, 'mixed': st.one_of(small_int, mid_int, dec, ulps(), finite_f32)}
COMMON = ['small', 'small', 'sym', 'small', 'mid', 'dec', 'frac', 'big', 'ulps', 'any', 'mixed']
ALL = COMMON + ['huge', 'tiny']

metric = st.one_of(
    st.integers(0, 40).map(lambda x: x / 4.0),
    st.integers(1, 10**6).map(lambda x: x / 1e6),
    st.floats(min_value=0, max_value=1e6, allow_nan=False, allow_subnormal=False),
    st.floats(min_value=-1e300, max_value=1e300, allow_nan=False),
)
pos_metric = st.one_of(
    st.integers(1, 40).map(lambda x: x / 4.0),
    st.integers(1, 10**6).map(lambda x: x / 1e6),
    st.floats(min_value=1e-9, max_value=1e5, allow_nan=False),
)


def vec(style, nf):
    return st.lists(STYLES[style], min_size=nf, max_size=nf)


@st.composite
def vectors(draw, nf, n, styles=ALL):
    """between 1 and n distinct-ish feature vectors of length nf"""
    cols = [draw(st.sampled_from(styles)) for _ in range(nf)]
    k = draw(st.integers(1, n))
    out = []
    for _ in range(k):
        out.append([draw(STYLES[c]) for c in cols])
    return out

name_chars = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.@:+-'
names = st.text(alphabet=name_chars, min_size=1, max_size=12).filter(lambda s: s not in ('.', '..') and s[0] not in '-.')
long_names = st.integers(55, 63).map(lambda n: ('long_region_name_' * 4)[:n])


@st.composite
def region_names(draw, k):
    out = []
    while len(out) < k:
        n = draw(st.one_of(names, st.sampled_from(['r', 'r1', 'r10', 'r2', 'A', 'a', 'loop@0x4f', 'Z9']), long_names))
        if n not in out and n.lower() not in [x.lower() for x in out]:
            out.append(n)
        else:
            n = n[:50] + '_%d' % len(out)
            if n not in out:
                out.append(n)
    return out


# training steps are any int
step = st.one_of(st.integers(0, 50), st.sampled_from([0, 1, 1000, 4096, 65536, 123456, 2**31 - 1]))


@st.composite
def inserts(draw, nf, npol, nvec, n, styles=ALL, met=metric, min_size=0):
    vs = draw(vectors(nf, nvec, styles))
    k = draw(st.integers(min_size, n))
    return [[draw(st.sampled_from(vs)), draw(st.integers(0, npol - 1)), draw(met)] for _ in range(k)]


@st.composite
def labelled(draw, nf, npol, styles=ALL, maxpts=36):
    """measurements of a whole grid of feature vectors whose fastest policies follow a pattern (parity, stripes, boxes, diagonal,
    random): data no single split makes purer, nested regions, and the like"""
    axes, tot = [], 1
    for j in range(nf):
        st_ = STYLES[draw(st.sampled_from(styles))]
        lim = max(2, min(9 if nf == 1 else 5, maxpts // tot))
        ax = sorted(set(draw(st.lists(st_, min_size=2, max_size=lim))))
        if tot * len(ax) > maxpts:
            ax = ax[:1]
        axes.append(ax)
        tot *= len(ax)
    pts = [[]]
    for ax in axes:
        pts = [p + [k] for p in pts for k in range(len(ax))]
    kind = draw(st.sampled_from(['parity', 'parity', 'stripes', 'box', 'diag', 'random', 'corner']))
    w = draw(st.integers(1, 3))
    perm = draw(st.permutations(list(range(min(npol, 12)))))
    n = len(perm)
    out = []
    for p in pts:
        if kind == 'parity':
            l = sum(p) % 2
        elif kind == 'stripes':
            l = sum(p) // w
        elif kind == 'box':
            l = max(abs(2 * k - (len(a) - 1)) // 2 for k, a in zip(p, axes)) if p else 0
        elif kind == 'diag':
            l = int(p[0] < p[-1]) if len(p) > 1 else p[0] if p else 0
        elif kind == 'corner':
            l = int(all(k == 0 for k in p))
        else:
            l = draw(st.integers(0, n - 1))
        y = perm[l % n]
        f = [a[k] for k, a in zip(p, axes)]
        out.append([f, y, 1.0])
        if n > 1 and draw(st.integers(0, 3)) == 0:
            out.append([f, perm[(l + 1) % n], 2.0])
    if draw(st.booleans()) and len(out) > 2:
        i = draw(st.integers(0, len(out) - 1))
        out = out[i:] + out[:i]
    return out


def data(nf, npol, nvec, n, styles=ALL, met=metric, min_size=1):
    """random or patterned measurements"""
    return st.one_of(inserts(nf, npol, nvec, n, styles=styles, met=met, min_size=min_size), labelled(nf, npol, styles=styles))


def chain(n):
    """n feature vectors with different fastest policies of which any split separates a single one: trees of depth n - 1"""
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def wide(rng, nf, value):
    """a feature vector; of more than 257 features only the later ones vary"""
    return [1.0 if nf > 257 and j < 257 else float(value()) for j in range(nf)]
