"""Independent reference models (oracles)."""
import math, re, struct
from .exe import HarnessError, Violation


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(float('inf'), x)


def nextf(x, up=True):
    """neighbouring float32"""
    if x == 0:
        return 1.401298464324817e-45 * (1 if up else -1)
    b = struct.unpack('i', struct.pack('f', x))[0]
    b += 1 if (x > 0) == up else -1
    r = struct.unpack('f', struct.pack('i', b))[0]
    return r if math.isfinite(r) else x


def close(a, b, rel=1e-12):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-320


def ema(ds, feats, pol, metric):
    k = (tuple(feats), pol)
    ds[k] = metric if k not in ds else .5 * ds[k] + .5 * metric


def merge(ds, other):
    for k in sorted(other):
        ema(ds, k[0], k[1], other[k])


def ds_diff(got, exp, what, rel=1e-12):
    for k in exp:
        if k not in got:
            raise Violation('%s: measurement of features %r policy %d (metric %r) is missing' % (what, list(k[0]), k[1], exp[k]))
        if not close(got[k], exp[k], rel):
            raise Violation('%s: features %r policy %d hold metric %r instead of %r' % (what, list(k[0]), k[1], got[k], exp[k]))
    for k in got:
        if k not in exp:
            raise Violation('%s: unexpected entry for features %r policy %d (metric %r)' % (what, list(k[0]), k[1], got[k]))


def argmins(ds):
    """features -> set of the policies with the minimal metric"""
    best = {}
    for (f, p), m in ds.items():
        b = best.get(f)
        if b is None or m < b[0]:
            best[f] = (m, {p})
        elif m == b[0]:
            b[1].add(p)
    return {f: s for f, (m, s) in best.items()}


# ---------------------------------------------------------------- stored trees
_tok = re.compile(r'[\[\]{},]|[^\s\[\]{},]+')


def parse_flow(text):
    """The YAML-like text of stored models -> nested dict/list/str."""
    text = '\n'.join(l for l in text.splitlines() if not l.lstrip().startswith('#'))
    toks = _tok.findall(text)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        t = peek()
        if t is None:
            raise ValueError('unexpected end')
        pos[0] += 1
        return t

    def value():
        t = nxt()
        if t == '{':
            return mapping('}')
        if t == '[':
            out = []
            while peek() != ']':
                if peek() == ',':
                    nxt()
                    continue
                k = peek()
                if k.endswith(':'):
                    nxt()
                    out.append({k[:-1]: value()})
                else:
                    out.append(value())
            nxt()
            return out
        return t

    def mapping(end):
        out = {}
        while peek() != end:
            if peek() == ',':
                nxt()
                continue
            if end is None and peek() is None:
                break
            k = nxt()
            if not k.endswith(':'):
                raise ValueError('key %r' % k)
            out[k[:-1]] = value()
        if end is not None:
            nxt()
        return out
    try:
        return mapping(None)
    except (ValueError, AttributeError, RecursionError) as e:
        raise Violation('stored model is not readable: %s' % e)


class Node:
    __slots__ = ('gini', 'n', 'cls', 'feat', 'thr', 'left', 'right', 'counts')


def to_node(d):
    n = Node()
    try:
        n.gini = float(d['gini'])
        n.n = int(d['num_samples'])
        n.cls = int(d['predicted_class'])
        n.feat = int(d['feature_idx'])
        n.thr = f32(float(d['threshold']))
        n.counts = {int(k): int(v) for k, v in d['count_per_class'].items()}
        n.left = to_node(d['left']) if 'left' in d else None
        n.right = to_node(d['right']) if 'right' in d else None
    except (KeyError, ValueError, AttributeError) as e:
        raise Violation('stored tree node is incomplete: %r' % e)
    return n


class Tree:
    def __init__(self, d):
        try:
            self.max_depth = int(d['max_depth'])
            self.classes = [int(x) for x in d['classes']]
            self.num_features = int(d['num_features'])
            self.root = to_node(d['root'])
            self.data = [(tuple(f32(float(x)) for x in e['features']), int(e['class'])) for e in d['data'].values()]
        except (KeyError, ValueError, AttributeError) as e:
            raise Violation('stored tree is incomplete: %r' % e)

    def predict(self, f):
        n = self.root
        while n.feat != -1:
            if f[n.feat] < n.thr:
                if n.left is None:
                    return n.cls
                n = n.left
            else:
                if n.right is None:
                    return n.cls
                n = n.right
        return n.cls

    def nodes(self):
        st = [self.root]
        while st:
            n = st.pop()
            yield n
            for c in (n.right, n.left):
                if c:
                    st.append(c)

    def thresholds(self):
        return sorted({(n.feat, n.thr) for n in self.nodes() if n.feat >= 0})


def parse_dtree(text):
    d = parse_flow(text)
    if 'tree' not in d:
        raise Violation('stored DecisionTree has no tree')
    return Tree(d['tree'])


def parse_forest(text):
    d = parse_flow(text)
    if 'rfc' not in d:
        raise Violation('stored RandomForest has no rfc')
    r = d['rfc']
    try:
        trees = [Tree(t['tree']) for t in r['trees']]
        return dict(num_trees=int(r['num_trees']), max_depth=int(r['max_depth']), trees=trees)
    except (KeyError, ValueError, TypeError) as e:
        raise Violation('stored RandomForest is incomplete: %r' % e)


def _gini(cnt, n):
    return 1.0 - sum((c / n) ** 2 for c in cnt.values())


def _counts(samples):
    c = {}
    for _, y in samples:
        c[y] = c.get(y, 0) + 1
    return c


def best_split(samples):
    """minimal weighted Gini over all (feature, threshold) with two non-empty sides, or None"""
    best = None
    n = len(samples)
    for fi in range(len(samples[0][0])):
        s = sorted(samples, key=lambda x: x[0][fi])
        left, right = {}, _counts(s)
        for i in range(1, n):
            y = s[i - 1][1]
            left[y] = left.get(y, 0) + 1
            right[y] -= 1
            if s[i - 1][0][fi] == s[i][0][fi]:
                continue
            g = (i * _gini(left, i) + (n - i) * _gini(right, n - i)) / n
            if best is None or g < best:
                best = g
    return best


def verify_tree(tree, samples, max_depth, what='tree'):
    """samples: list of (features, class). Checks every node of the stored tree against the
    definition of a greedy Gini tree; returns (depth, number of nodes)."""
    stats = [0, 0]

    def rec(n, s, depth):
        stats[0] = max(stats[0], depth)
        stats[1] += 1
        cnt = _counts(s)
        where = '%s, node at depth %d with %d samples %r' % (what, depth, len(s), cnt)
        if n.n != len(s):
            raise Violation('%s: stored num_samples is %d' % (where, n.n))
        if {k: v for k, v in n.counts.items() if v} != cnt:
            raise Violation('%s: stored count_per_class is %r' % (where, n.counts))
        if cnt.get(n.cls, 0) != max(cnt.values()):
            raise Violation('%s: predicted class %d is not the most frequent one' % (where, n.cls))
        if abs(n.gini - _gini(cnt, len(s))) > 1e-4:
            raise Violation('%s: stored gini is %r' % (where, n.gini))
        leaf = n.feat == -1
        if leaf and (n.left or n.right):
            raise Violation('%s: a leaf with children' % where)
        if leaf:
            if len(cnt) > 1 and depth < max_depth and best_split(s) is not None:
                raise Violation('%s: not split although it is impure and above the maximum depth %d' % (where, max_depth))
            return
        if depth >= max_depth:
            raise Violation('%s: split at or below the maximum depth %d' % (where, max_depth))
        if len(cnt) == 1:
            raise Violation('%s: a pure node is split' % where)
        if not (0 <= n.feat < len(s[0][0])):
            raise Violation('%s: feature index %d' % (where, n.feat))
        if n.left is None or n.right is None:
            raise Violation('%s: a split with a missing side' % where)
        le = [x for x in s if x[0][n.feat] < n.thr]
        ri = [x for x in s if not x[0][n.feat] < n.thr]
        if not le or not ri:
            raise Violation('%s: the split feature %d < %r does not separate any samples' % (where, n.feat, n.thr))
        g = (len(le) * _gini(_counts(le), len(le)) + len(ri) * _gini(_counts(ri), len(ri))) / len(s)
        b = best_split(s)
        if g > b + 1e-5:
            raise Violation('%s: split feature %d < %r has weighted Gini %.6f, the minimum is %.6f' % (where, n.feat, n.thr, g, b))
        rec(n.left, le, depth + 1)
        rec(n.right, ri, depth + 1)
    rec(tree.root, samples, 0)
    return stats


def verify_training_data(tree_data, ds, what):
    """the (features, class) pairs a tree was trained on, against a dataset: every feature
    vector once, with a fastest policy"""
    am = argmins(ds)
    seen = set()
    for f, y in tree_data:
        if f in seen:
            raise Violation('%s: feature vector %r appears twice in the training data' % (what, list(f)))
        seen.add(f)
        if f not in am:
            raise Violation('%s: feature vector %r was never measured' % (what, list(f)))
        if y not in am[f]:
            raise Violation('%s: features %r are labelled policy %d, fastest measured: %r' % (what, list(f), y, sorted(am[f])))
    for f in am:
        if f not in seen:
            raise Violation('%s: features %r are missing from the training data' % (what, list(f)))
