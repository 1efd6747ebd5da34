"""C24: the OpenCV backend keeps the guarantees of the builtin trees."""
import importlib, re
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation
from ..ref import argmins, ema

RULE = ('Apollo is built with -DENABLE_OPENCV (DTrees, RTrees and the regression forest of the timing model instead of the builtin trees). '
        '(a) random and patterned datasets (1..3 features, 1..6 policies): decisions of trained, re-trained, stored and loaded (into a fresh, into a '
        'differently trained and into a factory-made model) trees and forests against the fastest measured policies, structure of the stored file '
        'against max_depth and num_trees; (b) predictions of the timing model against the fastest metrics (bounds; exact for two separated clusters); '
        '(c) regions: trained, stored, the stored files loaded by a second run; (d) programs of the generators of C01, C02, C09, C15 and C21 with '
        'their own oracles; non-trivial: a model was trained')
COUNT = {'quick': 8000, 'thorough': 150000}
VARIANTS = ['opencv']
ASSUMPTIONS = ['regions have at least one feature and forests at least one tree (OpenCV cannot train otherwise)', 'feature values of the trees differ by more than the resolution OpenCV splits at',
               'what OpenCV makes of a damaged non-empty file is not judged', 'forests are random: no statement on equality of two forests trained alike']
MODS = ['c01', 'c02', 'c09', 'c15', 'c21']
STY = ['small', 'sym', 'dec', 'small']


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(['tree', 'tree', 'forest', 'time', 'clusters', 'region', 'other', 'other']))
    if kind == 'other':
        m = draw(st.sampled_from(MODS))
        c = draw(importlib.import_module('vp.props.' + m).strategy('quick'))
        if m == 'c09':  # decisions are judged exactly: values that OpenCV can split
            for g in c['regs']:
                rank = [{x: 3.0 * i for i, x in enumerate(sorted(set(col)))} for col in zip(*g['vecs'])]
                g['vecs'] = [[r[x] for r, x in zip(rank, v)] for v in g['vecs']]
        return dict(kind=kind, mod=m, case=c)
    if kind == 'clusters':
        a, b = draw(st.integers(1, 400)) / 8.0, draw(st.integers(1, 400)) / 8.0
        sc = draw(st.sampled_from([1.0, 1e-2, 1e-3]))   # times of seconds or of milliseconds
        return dict(kind=kind, lo=draw(st.integers(-50, 50)), gap=draw(st.integers(200, 1000)), a=a * sc, b=(b if a != b else b + 1) * sc, np=draw(st.integers(1, 4)),
                    slow=draw(st.integers(0, 10**6)), region=draw(st.booleans()), again=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))
    nf = draw(st.sampled_from([1, 1, 2, 2, 3]))
    npol = draw(st.sampled_from([1, 2, 2, 3, 4, 6]))
    met = draw(st.sampled_from([gen.pos_metric, st.integers(1, 40).map(lambda x: x / 4.0)]))
    data = lambda: gen.data(nf, npol, 10, 24, styles=STY, met=met)
    return dict(kind=kind, nf=nf, np=npol, ins=draw(data()), ins2=draw(data()), deep=draw(st.booleans()), depth=draw(st.sampled_from([1, 1, 2, 3, 5])),
                trees=draw(st.sampled_from([1, 2, 5, 10, 20])), model=draw(st.sampled_from(['DecisionTree', 'DecisionTree', 'RandomForest'])),
                qs=draw(st.lists(gen.vec('dec', nf), max_size=4)), seed=draw(st.integers(0, 10**6)), retrain=draw(st.booleans()), step=draw(st.integers(0, 500)))


def strategy(tier):
    return strategy_()


class Sub:
    """the programs of another check run on the OpenCV build"""

    def __init__(self, ctx):
        self.ctx = ctx

    def case(self):
        k = self.ctx.case()
        run = k.run
        k.run = lambda s, variant='base', **kw: run(s, 'opencv', **kw)
        return k


def qtext(qs):
    return '%d ' % len(qs) + ' '.join('%d %s' % (len(q), ' '.join(float(x).hex() for x in q)) for q in qs)


def insall(s, d, ins):
    ds = {}
    s.dnew(d)
    for f, p, m in ins:
        s.dins(d, f, p, float(m))
        ema(ds, f, p, m)
    return ds


def judge(dec, qs, ds, exact, npol, what):
    best = argmins(ds)
    some = set().union(*best.values())
    for q, p in zip(qs, dec):
        b = best.get(tuple(q))
        if p not in some:
            raise Violation('%s recommends policy %d for %r, fastest for no measured features (%r)' % (what, p, q, ds))
        if exact and b and p not in b:
            raise Violation('%s recommends policy %d for %r, fastest measured: %r' % (what, p, q, sorted(b)))


def structure(text, depth, trees, what):
    d = [int(x) for x in re.findall(r'\bdepth: *(\d+)', text)]
    if not d:
        raise Violation('%s: the stored file has no nodes' % what)
    if max(d) > depth:
        raise Violation('%s: the stored tree has depth %d, max_depth is %d' % (what, max(d), depth))
    n = re.findall(r'\bntrees: *(\d+)', text)
    if trees and n and int(n[0]) > trees:
        raise Violation('%s: %s trees are stored, num_trees is %d' % (what, n[0], trees))


def bounds(tp, ds, what):
    lo = min(min(m for (f, p), m in ds.items() if f == g) for g in {f for f, _ in ds})
    hi = max(min(m for (f, p), m in ds.items() if f == g) for g in {f for f, _ in ds})
    tol = 1e-4 * max(abs(lo), abs(hi))
    for t in tp:
        if not lo - tol <= t <= hi + tol:
            raise Violation('%s predicts %r, the fastest measured times are within [%r, %r] (%r)' % (what, t, lo, hi, ds))


def times(r, i, what):
    w = r.get(i, 'TP').split()[1:]
    if w == ['none']:
        raise Violation('%s: there is no timing model after training' % what)
    return [float.fromhex(x) if x not in ('nan', '-nan', 'inf', '-inf') else float(x) for x in w]


def check(c, ctx):
    k = c['kind']
    if k == 'other':
        mod = importlib.import_module('vp.props.' + c['mod'])
        if c['mod'] == 'c01' and any(g['nf'] == 0 or 'num_trees=0' in g['model'] for g in c['case']['regs']):
            return dict(nontrivial=False, classes=['skipped'])
        r = mod.check(c['case'], Sub(ctx))
        return dict(nontrivial=r['nontrivial'], classes=['programs of ' + c['mod'].upper()])
    if k == 'clusters':
        return clusters(c, ctx)
    nf, npol = c['nf'], c['np']
    depth = 25 if c['deep'] else c['depth']
    qs = []
    for f, _, _ in c['ins'] + c['ins2']:
        if f not in qs:
            qs.append(f)
    qs += c['qs']
    s = S()
    s.seed(c['seed'])
    if k == 'region':
        return region(c, ctx, s, depth, qs)
    d1, d2 = insall(s, 0, c['ins']), insall(s, 1, c['ins2'])
    if k == 'time':
        s.tmnew(0, 0)
        i = s.raw('tmget 0 ' + qtext(qs))
        j = s.raw('tmget 0 ' + qtext(qs))
        s.tmst(0, 't.yaml')
        with ctx.case() as w:
            r = w.run(s, 'opencv').need_ok('timing model')
            tp = times(r, i, 'timing model')
            bounds(tp, d1, 'timing model')
            if tp != times(r, j, 'timing model'):
                raise Violation('the predictions of the timing model change: %s, %s' % (r.get(i), r.get(j)))
            w.read('t.yaml')
        return dict(nontrivial=True, classes=['timing model'])
    kind = 'DecisionTree' if k == 'tree' else 'RandomForest'
    par = ' 1 max_depth %d' % depth if k == 'tree' else ' 2 max_depth %d num_trees %d' % (depth, c['trees'])
    for m in (0, 1, 2):
        s.raw('mnew %d %s %d %d%s' % (m, kind, nf, npol, par))
    g = lambda m: s.raw('mgets %d %s' % (m, qtext(qs)))
    s.mtrain(0, 0)
    o = [g(0), g(0)]
    t = s.mtr(0)
    s.mst(0, 'a.yaml')
    s.mld(1, 'a.yaml')          # into a fresh model
    o.append(g(1))
    s.mtrain(2, 1)
    b = [g(2)]
    s.mst(2, 'b.yaml')
    s.mld(2, 'a.yaml')          # into a model trained on other data
    o.append(g(2))
    s.raw('mnewp 3 %s %d a.yaml' % (kind, npol))
    o.append(g(3))
    t3 = s.mtr(3)
    s.mld(3, 'b.yaml')
    b.append(g(3))
    s.mst(3, 'c.yaml')
    s.mtrain(0, 1)              # re-training
    o2 = g(0)
    s.mdel(0)
    with ctx.case() as w:
        r = w.run(s, 'opencv').need_ok('%s: train, store, load' % kind)
        judge(r.ints(o[0]), qs, d1, c['deep'] and k == 'tree', npol, kind)
        judge(r.ints(b[0]), qs, d2, c['deep'] and k == 'tree', npol, kind)
        judge(r.ints(o2), qs, d2, c['deep'] and k == 'tree', npol, 're-trained ' + kind)
        for x, what in zip(o[1:5], ('asked again', 'loaded into a fresh model', 'loaded into a trained model', 'created from the file')):
            if r.ints(x) != r.ints(o[0]):
                raise Violation('%s: decisions %r, %s: %r (features %r, measurements %r)' % (kind, r.ints(o[0]), what, r.ints(x), qs, d1))
        if r.ints(b[0]) != r.ints(b[1]):
            raise Violation('%s: decisions %r, loaded into a loaded model: %r (features %r, measurements %r)' % (kind, r.ints(b[0]), r.ints(b[1]), qs, d2))
        for x in (t, t3):
            if r.int(x):
                raise Violation('a trained or loaded %s is still trainable' % kind)
        for f in ('a.yaml', 'b.yaml', 'c.yaml'):
            structure(w.read(f), depth, c['trees'] if k == 'forest' else 0, kind)
        if c['step'] % 8 == 0:  # files that are not models
            for n, data in ((0, None), (1, '')):
                if data is not None:
                    w.write('x%d.yaml' % n, data)
                s = S()
                s.raw('mnew 0 %s %d %d%s' % (kind, nf, npol, par))
                s.mld(0, 'x%d.yaml' % n)
                e = s.echo('loaded')
                r = w.run(s, 'opencv')
                if e in r.obs or not r.refused:
                    raise Violation('loading %s is not refused: %s' % (('a missing file', 'an empty file')[n], r.status()))
    return dict(nontrivial=len(set(map(tuple, qs))) > 1, classes=[kind, 'deep' if c['deep'] else 'shallow'])


def region(c, ctx, s, depth, qs):
    nf, npol, kind = c['nf'], c['np'], c['model']
    info = '%s,max_depth=%d' % (kind, depth) + (',num_trees=%d' % c['trees'] if kind == 'RandomForest' else '')
    s.env({'APOLLO_STORE_MODELS': 1})
    if c['retrain']:
        s.env({'APOLLO_RETRAIN_ENABLE': 1})
    s.region(0, 'cpp', nf, npol, 0, 'R', info, '')
    ds = {}

    def asks():
        o = []
        for q in qs:
            s.beginf(0, 1, q)
            o.append(s.pol(1))
            s.endm(1, 1.0)
        return o
    for f, p, m in c['ins']:
        s.op('rdins', 0, f, p, float(m))
        ema(ds, f, p, m)
    s.rtrain(0, c['step'], 1, 0)
    first = asks()
    t = s.trainable(0)
    tp = s.raw('rtmget 0 ' + qtext(qs)) if c['retrain'] else None
    with ctx.case() as k:
        r = k.run(s, 'opencv').need_ok('region with %s' % info)
        dec = [r.int(i) for i in first]
        judge(dec, qs, ds, c['deep'] and kind == 'DecisionTree', npol, info)
        if r.int(t):
            raise Violation('the region is still exploring after training')
        names = ['.apollo/models/%s-step-%d-rank-0-R.yaml' % (kind, c['step']), '.apollo/models/%s-latest-rank-0-R.yaml' % kind]
        for n in names:
            structure(k.read(n), depth, c['trees'] if kind == 'RandomForest' else 0, info)
        reg = ['regtree-step-%d-rank-0-R.yaml' % c['step'], 'regtree-latest-rank-0-R.yaml']
        if c['retrain']:
            bounds(times(r, tp, info), ds, 'timing model of the region')
            for n in reg:
                k.read(n)
        elif any(k.exists(n) for n in reg):
            raise Violation('a timing model is stored without APOLLO_RETRAIN_ENABLE')
        for m in (kind + ',load', '%s,load=%s' % (kind, names[0]), None):
            s = S()
            s.seed(c['seed'])
            if m:
                s.region(0, 'cpp', nf, npol, 0, 'R', m, '')
            else:
                s.region(0, 'cpp', nf, npol, 0, 'R', info, names[1])
            o = asks()
            r = k.run(s, 'opencv').need_ok('second run, %s' % (m or 'model file argument'))
            d2 = [r.int(i) for i in o]
            if d2 != dec:
                raise Violation('decisions of the trained region for %r: %r, of a second run with %s: %r' % (qs, dec, m or 'the model file', d2))
    return dict(nontrivial=True, classes=['region', 'retrain'] if c['retrain'] else ['region'])


def clusters(c, ctx):
    s = S()
    s.seed(c['seed'])
    n = 16
    s.env({'APOLLO_RETRAIN_ENABLE': 1})
    pts = [float(c['lo'] + i) for i in range(n)] + [float(c['lo'] + n + c['gap'] + i) for i in range(n)]
    slow = c['slow']
    if c['region']:
        s.region(0, 'cpp', 1, c['np'], 0, 'R', 'DecisionTree', '')
    else:
        s.dnew(0)
    for i, x in enumerate(pts):
        if i == n and c['region'] and c['again']:  # the timing model of a first training is replaced
            s.rtrain(0, 0, 1, 0)
        t = c['a'] if i < n else c['b']
        for p in range(c['np']):
            m = t if p == (slow + i) % c['np'] else t * (2 + (slow * 7 + i * 5 + p * 3) % 11)
            s.op('rdins' if c['region'] else 'dins', 0, [x], p, m)
    qs = [[x] for x in pts]
    if c['region']:
        s.rtrain(0, 1, 1, 1 if c['again'] else 0)
        i = s.raw('rtmget 0 ' + qtext(qs))
    else:
        s.tmnew(0, 0)
        i = s.raw('tmget 0 ' + qtext(qs))
    with ctx.case() as k:
        r = k.run(s, 'opencv').need_ok('timing model')
        tp = times(r, i, 'region')
    for j, t in enumerate(tp):
        e, o = (c['a'], c['b']) if j < n else (c['b'], c['a'])
        if not abs(t - e) <= 0.05 * abs(e - o) + 1e-4 * e:
            raise Violation('the timing model predicts %r for %r, the fastest time of all features near is %r' % (t, qs[j], e))
    return dict(nontrivial=True, classes=['timing clusters'] + ['re-trained'] * (c['region'] and c['again']))
