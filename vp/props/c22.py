"""C22: graph conversion of stored models."""
import contextlib, importlib.util, io, os, random, re, subprocess, sys, types
from hypothesis import strategies as st
from .. import build, gen
from ..exe import S, Violation
from ..ref import f32, parse_dtree, parse_forest

VARIANTS = ['base', 'opencv']
RULE = ('models trained on random measurements (1..4 features, 1..8 policies, depths 1..64, 1..25 trees, values at all magnitudes) are stored '
        'and converted with dtree2dot.py / rfc2dot.py; the graph, parsed as dot, must be the tree(s) read from the model file by an '
        'independent parser, node for node; forests of the OpenCV build with rfc2dot_opencv.py; non-trivial: a tree with at least three nodes')
COUNT = {'quick': 4000, 'thorough': 60000}
ASSUMPTIONS = ["OpenCV's Python bindings are not installed: rfc2dot_opencv.py reads files through a stand-in for cv2.FileStorage (harness/pystub)", 'one case in about 30 runs the script as a program, the others execute it in the process of the check']
DIR = build.REPO + '/src/python/analysis'


@st.composite
def strategy_(draw):
    nf, npol = draw(st.integers(1, 4)), draw(st.integers(1, 8))
    model = draw(st.sampled_from(['DecisionTree', 'DecisionTree', 'RandomForest', 'RandomForest', 'RandomForest/OpenCV']))
    params = {}
    if draw(st.booleans()):
        params['max_depth'] = str(draw(st.sampled_from([1, 2, 3, 5, 64])))
    if model != 'DecisionTree':
        params['num_trees'] = str(draw(st.sampled_from([1, 2, 3, 4, 5, 8, 11, 25])))
    return dict(nf=nf, np=npol, model=model, params=params, ins=draw(gen.data(nf, npol, 14, 40, min_size=1)), cli=draw(st.integers(0, 29)) == 17,
                region=draw(st.integers(0, 4)) == 0)


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    rng = random.Random('c22-%s' % seed)
    # deep and large trees, many trees, late features
    n = 80
    yield dict(nf=n, np=n, model='DecisionTree', params={'max_depth': '200'}, ins=[[f, i, 1.0] for i, f in enumerate(gen.chain(n))], cli=False, region=False)
    yield dict(nf=1, np=40, model='DecisionTree', params={'max_depth': '64'}, ins=[[[float(i)], rng.randrange(40), 1.0] for i in range(300)], cli=True, region=False)
    yield dict(nf=2, np=120, model='RandomForest', params={'num_trees': '70', 'max_depth': '3'}, ins=[[[float(i % 20), float(i)], i * 7 % 120, 1.0] for i in range(60)], cli=True, region=False)
    yield dict(nf=290, np=3, model='RandomForest', params={'num_trees': '4', 'max_depth': '9'}, ins=[[gen.wide(rng, 290, lambda: rng.randrange(50)), i % 3, 1.0] for i in range(12)], cli=False, region=False)
    yield dict(nf=1, np=7, model='RandomForest', params={'num_trees': '1005', 'max_depth': '2'}, ins=[[[float(i)], i * 5 % 7, 1.0] for i in range(9)], cli=False, region=False)
    yield dict(nf=2, np=6, model='RandomForest/OpenCV', params={'num_trees': '40', 'max_depth': '9'}, ins=[[[float(i % 20), float(i)], i * 7 % 6, 1.0] for i in range(60)], cli=False, region=False)


_mods = {}


def script(name):
    """runs the program in this process"""
    if name not in _mods:
        sys.dont_write_bytecode = True
        for d in (DIR, build.ROOT + '/harness/pystub'):
            if d not in sys.path:
                sys.path.insert(0, d)
        p = '%s/%s.py' % (DIR, name)
        with open(p) as f:
            _mods[name] = compile(f.read(), p, 'exec')
    m = types.ModuleType('__main__')
    m.__file__ = '%s/%s.py' % (DIR, name)
    exec(_mods[name], m.__dict__)


def convert(name, i, o, cli):
    if cli:
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        e['PYTHONPATH'] = build.ROOT + '/harness/pystub'
        py = sys.executable
        r = subprocess.run([py, '%s/%s.py' % (DIR, name), '-i', i, '-o', o], capture_output=True, text=True, env=e, cwd='/')
        if r.returncode:
            raise Violation('%s.py fails on the stored model: %s' % (name, r.stderr[-500:]))
        return
    old = sys.argv
    sys.argv = [name, '-i', i, '-o', o]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            script(name)
    except SystemExit as e:
        if e.code:
            raise Violation('%s.py fails on the stored model: exit %r' % (name, e.code))
    except Exception as e:
        raise Violation('%s.py fails on the stored model: %r' % (name, e))
    finally:
        sys.argv = old


ID = r'(?:[A-Za-z_][A-Za-z0-9_]*|"(?:[^"\\]|\\.)*")'
STMT = re.compile(r'\s*(?:(?P<a>%s)\s*->\s*(?P<b>%s)\s*(?:\[[^\]]*\])?\s*;?|(?P<n>%s)\s*\[(?P<attr>(?:[^\]"]|"(?:[^"\\]|\\.)*")*)\]\s*;?)\s*' % (ID, ID, ID))


def parse_dot(text):
    m = re.match(r'\s*digraph\s+\w*\s*\{', text)
    if not m or not text.rstrip().endswith('}'):
        raise Violation('the output is not a digraph: %r' % text[:100])
    body, pos = text[m.end():text.rindex('}')], 0
    nodes, edges = {}, []
    while body[pos:].strip():
        m = STMT.match(body, pos)
        if not m:
            raise Violation('the graph cannot be read at: %r' % body[pos:pos + 80])
        pos = m.end()
        if m.group('a'):
            edges.append((m.group('a').strip('"'), m.group('b').strip('"')))
        else:
            n = m.group('n').strip('"')
            if n in nodes:
                raise Violation('graph node %s is defined twice' % n)
            l = re.search(r'label\s*=\s*"((?:[^"\\]|\\.)*)"', m.group('attr'))
            nodes[n] = l.group(1) if l else ''
    return nodes, edges


def field(label, key):
    m = re.search(r'\b%s\s*[:=]\s*([^\s,\\]+)' % key, label)
    return m.group(1) if m else None


def same(nodes, children, n, t):
    """None when graph node n shows the subtree t, else what is wrong"""
    lab = nodes[n]
    shown = {k: field(lab, k) for k in ('predicted_class', 'feature_idx', 'threshold', 'gini', 'num_samples')}
    want = dict(predicted_class=t.cls, feature_idx=t.feat, threshold=t.thr, gini=t.gini, num_samples=t.n)
    if t.feat >= 0 and (shown['feature_idx'] is None or shown['threshold'] is None) or t.feat < 0 and shown['predicted_class'] is None:
        return 'node %s does not show its split or policy: %r' % (n, lab)
    for k, v in shown.items():
        if v is not None and f32(float(v)) != f32(float(want[k])):
            return 'node %s shows %s %s, the model has %r' % (n, k, v, want[k])
    kids = children.get(n, [])
    model = [x for x in (t.left, t.right) if x is not None]
    if len(kids) != len(model):
        return 'node %s has %d children, in the model %d' % (n, len(kids), len(model))
    if not kids:
        return None
    if len(kids) == 1:
        return same(nodes, children, kids[0], model[0])
    side = ['l' if re.search('left', x[len(n):] if x.startswith(n) else x, re.I) else 'r' if re.search('right', x[len(n):] if x.startswith(n) else x, re.I) else '?' for x in kids]
    orders = [kids, kids[::-1]] if sorted(side) != ['l', 'r'] else [kids if side[0] == 'l' else kids[::-1]]
    why = None
    for o in orders:
        w = [same(nodes, children, x, y) for x, y in zip(o, model)]
        if not any(w):
            return None
        why = why or w[0] or w[1]
    return why


class Node:
    def __init__(self, d):
        self.d, self.kids = d, []

    def nodes(self):
        yield self
        for k in self.kids:
            yield from k.nodes()


def opencv_forest(text):
    """the trees of a forest written by OpenCV, read line by line"""
    trees, stack, cur, block = [], [], None, None
    text = re.sub(r',\s*\n\s*', ', ', text)
    on = False
    for l in text.splitlines():
        l = l.strip()
        if l == 'trees:':
            on = True
        elif not on:
            continue
        elif l == 'nodes:':
            trees.append(None)
            stack = []
        elif l.startswith('depth:'):
            cur = Node(dict(depth=int(l.split(':')[1])))
            d = cur.d['depth']
            if d == 0:
                trees[-1] = cur
            else:
                stack[d - 1].kids.append(cur)
            stack[d:] = [cur]
        elif l.startswith('- {'):
            for kv in l[3:-1].split(','):
                k, v = kv.split(':')
                cur.d.setdefault(k.strip(), float(v))
        elif l and l != '-' and l != 'splits:':
            k, v = l.split(':')
            cur.d[k] = float(v)
    return trees


def same_cv(nodes, children, n, t):
    lab = nodes[n]
    for k in ('value', 'var', 'le', 'gt'):
        v = field(lab, k)
        if (k in t.d) != (v is not None):
            return 'node %s %s %s: %r' % (n, 'does not show its' if k in t.d else 'shows a', k, lab)
        if v is not None and not abs(float(v) - t.d[k]) <= 1e-6 * max(1, abs(t.d[k])):
            return 'node %s shows %s %s, the model has %r' % (n, k, v, t.d[k])
    kids = children.get(n, [])
    if len(kids) != len(t.kids):
        return 'node %s has %d children, in the model %d' % (n, len(kids), len(t.kids))
    why = None
    for o in [kids, kids[::-1]]:
        w = [same_cv(nodes, children, x, y) for x, y in zip(o, t.kids)]
        if not any(w):
            return None
        why = why or next(x for x in w if x)
    return why


def check_opencv(c, ctx):
    s = S()
    s.dnew(0)
    for f, p, m in c['ins']:
        s.dins(0, f, p, float(m))
    s.mnew(0, 'RandomForest', c['nf'], c['np'], len(c['params']), *[x for kv in c['params'].items() for x in kv])
    s.mtrain(0, 0)
    s.mst(0, 'model.yaml')
    with ctx.case() as k:
        if not k.run(s, 'opencv').ok or not k.exists('model.yaml'):
            return dict(nontrivial=False, classes=['OpenCV, no model'])   # training and storing is C24's business
        trees = opencv_forest(k.read('model.yaml'))
        convert('rfc2dot_opencv', k.path('model.yaml'), k.path('out.dot'), c['cli'])
        if not k.exists('out.dot'):
            raise Violation('no graph was written')
        nodes, edges = parse_dot(k.read('out.dot'))
    children, root = graph(nodes, edges)
    nn = sum(len(list(t.nodes())) for t in trees)
    heads = children.get(root, [])
    if len(nodes) != nn + 1 or len(heads) != len(trees):
        raise Violation('the graph has %d nodes, %d below the root, the model %d nodes in %d trees' % (len(nodes), len(heads), nn, len(trees)))
    match(heads, trees, lambda h, t: same_cv(nodes, children, h, t), c['model'])
    return dict(nontrivial=nn > len(trees) + 1, classes=[c['model']] + ['as a program'] * c['cli'], counts={'tree nodes': nn})


def graph(nodes, edges):
    children, parents = {}, {}
    for a, b in edges:
        if a not in nodes or b not in nodes:
            raise Violation('edge %s -> %s to an undefined node' % (a, b))
        children.setdefault(a, []).append(b)
        if b in parents:
            raise Violation('node %s has two parents' % b)
        parents[b] = a
    roots = [n for n in nodes if n not in parents]
    if len(roots) != 1:
        raise Violation('the graph has %d roots: %r' % (len(roots), roots[:5]))
    return children, roots[0]


def match(heads, trees, same, model):
    # the trees of a forest may come in any order
    left = list(range(len(trees)))
    for h in heads:
        why = None
        for j in left:
            w = same(h, trees[j])
            if w is None:
                left.remove(j)
                break
            why = why or w
        else:
            raise Violation('tree %s is not a tree of the stored %s: %s' % (h, model, why))


def check(c, ctx):
    if c['model'].endswith('OpenCV'):
        return check_opencv(c, ctx)
    s = S()
    dt = c['model'] == 'DecisionTree'
    params = dict(c['params'])
    if c['region']:
        s.env({'APOLLO_STORE_MODELS': 1})
        s.region(0, 'cpp', c['nf'], c['np'], 0, 'reg', c['model'] + ''.join(',%s=%s' % kv for kv in params.items()), '')
        for f, p, m in c['ins']:
            s.rdins(0, f, p, float(m))
        s.rtrain(0, 1, 1, 0)
        fn = '.apollo/models/%s-latest-rank-0-reg.yaml' % c['model']
    else:
        s.dnew(0)
        for f, p, m in c['ins']:
            s.dins(0, f, p, float(m))
        s.mnew(0, c['model'], c['nf'], c['np'], len(params), *[x for kv in params.items() for x in kv])
        s.mtrain(0, 0)
        s.mst(0, 'model.yaml')
        fn = 'model.yaml'
    with ctx.case() as k:
        k.run(s).need_ok('training and storing')
        text = k.read(fn)
        if dt:
            trees = [parse_dtree(text)]
        else:
            F = parse_forest(text)
            trees = F['trees']
        convert('dtree2dot' if dt else 'rfc2dot', k.path(fn), k.path('out.dot'), c['cli'])
        if not k.exists('out.dot'):
            raise Violation('no graph was written')
        nodes, edges = parse_dot(k.read('out.dot'))
    children, root = graph(nodes, edges)
    nn = sum(len(list(t.nodes())) for t in trees)
    total = nn + len(trees) + (0 if dt else 1)
    if len(nodes) != total or len(edges) != total - 1:
        raise Violation('the graph has %d nodes and %d edges, the model %d nodes in %d trees' % (len(nodes), len(edges), nn, len(trees)))
    heads = [root] if dt else children.get(root, [])
    if len(heads) != len(trees):
        raise Violation('the graph shows %d trees, the forest has %d' % (len(heads), len(trees)))
    def below(h, t):
        kids = children.get(h, [])
        if len(kids) != 1:
            return 'tree node %s has %d roots' % (h, len(kids))
        return same(nodes, children, kids[0], t.root)
    match(heads, trees, below, c['model'])
    return dict(nontrivial=nn > len(trees) + 1, classes=[c['model']] + ['as a program'] * c['cli'], counts={'tree nodes': nn})
