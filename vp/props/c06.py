"""C06: store/load round trip of models, file naming, `load`."""
import random
from hypothesis import strategies as st
from .. import gen, net
from ..exe import S, Violation
from ..ref import nextf, parse_dtree, parse_forest

RULE = ('random training data; a DecisionTree, RandomForest or PolicyNet is trained, stored, and loaded into a fresh model, a '
        'model trained on other data, the file constructor, a region given the file and a region with load=; decisions are '
        'compared at training vectors, thresholds, their float neighbours and random vectors, and the file is stored again; '
        'region runs check the step/latest files in configured directories and the `load` parameter in a second process; '
        'non-trivial: the model has a split (tree models) or at least one training step (PolicyNet)')
COUNT = {'quick': 9000, 'thorough': 60000}
ASSUMPTIONS = ['PolicyNet features are non-negative integers below 2^24', 'model files are regular files in a writable directory',
               'sampling is compared with a chi-square test at significance 1e-10']


@st.composite
def strategy_(draw):
    mode = draw(st.sampled_from(['rt', 'rt', 'rt', 'region', 'region', 'rt', 'rt', 'net', 'region', 'missing']))
    kind = draw(st.sampled_from(['DecisionTree', 'RandomForest'] + (['PolicyNet'] if mode == 'missing' else [])))
    nf = draw(st.sampled_from([1, 1, 2, 3, 1, 1, 2, 3, 0]))
    npol = draw(st.integers(1, 6))
    styles = draw(st.sampled_from([gen.ALL, ['small'], ['frac'], ['ulps'], ['big'], ['any'], ['tiny'], ['huge']]))
    if mode == 'net' or (mode == 'region' and draw(st.integers(0, 3)) == 0):
        kind = 'PolicyNet'
        styles = ['small']
        nf = max(1, min(nf, 2))
    met = draw(st.sampled_from([gen.pos_metric, st.integers(0, 9).map(float)]))
    c = dict(mode=mode, kind=kind, nf=nf, np=npol, seed=draw(st.integers(0, 10**6)),
             ins=draw((gen.inserts if mode == 'net' or kind == 'PolicyNet' else gen.data)(nf, npol, draw(st.sampled_from([2, 5, 12])), 24, styles=styles, met=met, min_size=1)),
             ins2=draw(gen.inserts(nf, npol, 5, 10, styles=styles, met=met, min_size=1)),
             depth=draw(st.sampled_from([0, 1, 2, 3, 8])), depth2=draw(st.sampled_from([1, 2, 5])),
             trees=draw(st.integers(1, 5)), trees2=draw(st.integers(1, 5)), pre=draw(st.booleans()), untrained=draw(st.integers(0, 3)) == 0, decoy=draw(st.booleans()),
             qs=draw(st.lists(gen.vec(draw(st.sampled_from(gen.ALL)), nf), max_size=3)))
    if mode in ('region', 'missing'):
        c['name'] = draw(gen.region_names(1))[0]
        c['out'], c['mdir'] = draw(st.sampled_from([[None, None], ['o1', None], [None, 'mm'], ['o2', 'm.d']]))
        c['steps'] = draw(st.lists(st.one_of(st.integers(0, 99999), gen.step), min_size=1, max_size=3))
        c['named'] = draw(st.booleans())
        c['auto'] = draw(st.sampled_from([None, None, 'period', 'min']))
    return c


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # large models
    rng = random.Random('c06-%s' % seed)
    for kind, nf, npol, nvec, depth, trees in (('DecisionTree', 1, 300, 340, 40, 1), ('DecisionTree', 300, 3, 20, 20, 1), ('RandomForest', 2, 300, 40, 4, 300), ('RandomForest', 280, 3, 12, 4, 6),
                                               ('RandomForest', 1, 2, 600, 9, 3)):
        data = lambda n: [[gen.wide(rng, nf, lambda: rng.randrange(-2000, 2000)), rng.randrange(npol), rng.randrange(1, 99) / 8.0] for _ in range(n)]
        yield dict(mode='rt', kind=kind, nf=nf, np=npol, seed=7, ins=data(nvec), ins2=data(10), depth=depth, depth2=2, trees=trees, trees2=2, pre=True, qs=[])
    for kind in ('DecisionTree', 'RandomForest'):
        yield dict(mode='rt', kind=kind, nf=150, np=150, seed=7, ins=[[f, i, 1.0] for i, f in enumerate(gen.chain(150))], ins2=[[[0.5] * 150, 3, 1.0]], depth=200, depth2=2, trees=2, trees2=2, pre=True, qs=[])


def mparams(c, second=False):
    d, t = (c['depth2'], c['trees2']) if second else (c['depth'], c['trees'])
    if c['kind'] == 'DecisionTree':
        return [1, 'max_depth', str(d)]
    if c['kind'] == 'RandomForest':
        return [2, 'max_depth', str(d), 'num_trees', str(t)]
    return [0]


def info(c):
    if c['kind'] == 'DecisionTree':
        return 'DecisionTree,max_depth=%d' % c['depth']
    if c['kind'] == 'RandomForest':
        return 'RandomForest,num_trees=%d,max_depth=%d' % (c['trees'], c['depth'])
    return 'PolicyNet'


def trees_of(c, text):
    return [parse_dtree(text)] if c['kind'] == 'DecisionTree' else parse_forest(text)['trees']


def queries(c, trees):
    qs = []
    for f, p, m in c['ins'][:12]:
        if f not in qs:
            qs.append(f)
    qs += c['qs']
    base = qs[0]
    for t in trees:
        for fi, thr in t.thresholds()[:6]:
            for v in (thr, nextf(thr), nextf(thr, False)):
                q = list(base)
                q[fi] = v
                qs.append(q)
    return qs[:120]


def qtext(qs):
    return '%d %s' % (len(qs), ' '.join('%d %s' % (len(q), ' '.join(float(x).hex() for x in q)) for q in qs))


def diff(qs, a, b, what):
    for q, x, y in zip(qs, a, b):
        if x != y:
            raise Violation('%s decides %d for features %r, the stored model decides %d' % (what, y, q, x))


def check(c, ctx):
    return dict(rt=check_rt, region=check_region, net=check_net, missing=check_missing)[c['mode']](c, ctx)


def check_rt(c, ctx):
    with ctx.case() as k:
        s = S()
        s.dnew(0)
        for f, p, m in c['ins']:
            s.dins(0, f, p, float(m))
        s.mnew(0, c['kind'], c['nf'], c['np'], *mparams(c))
        s.mtrain(0, 0)
        s.mst(0, 'a')
        k.run(s).need_ok('train and store')
        text = k.read('a')
        trees = trees_of(c, text)
        qs = queries(c, trees)
        qt = qtext(qs)
        if c.get('decoy'):
            # files of the same name elsewhere
            for d in ('.apollo/a', '.apollo/models/a', '.apollo/datasets/a'):
                k.write(d, 'no model')
        s = S()
        s.dnew(0)
        s.dnew(1)
        for f, p, m in c['ins']:
            s.dins(0, f, p, float(m))
        for f, p, m in c['ins2']:
            s.dins(1, f, p, float(m))
        s.mnew(0, c['kind'], c['nf'], c['np'], *mparams(c))
        s.mtrain(0, 0)
        q0 = s.raw('mgets 0 ' + qt)
        s.mst(0, 'a2')
        s.mnew(1, c['kind'], c['nf'], c['np'], *mparams(c, True))
        if c['pre']:
            s.mtrain(1, 1)
        s.mld(1, 'a')
        q1 = s.raw('mgets 1 ' + qt)
        t1 = s.mtr(1)
        s.mst(1, 'b')
        s.mnewp(2, c['kind'], c['np'], 'a')
        q2 = s.raw('mgets 2 ' + qt)
        s.mst(2, 'b2')
        s.region(0, 'cpp', c['nf'], c['np'], 0, 'reg', info(c), 'a')
        q3 = s.raw('probes 0 ' + qt)
        s.region(1, 'cpp', c['nf'], c['np'], 0, 'reg1', c['kind'] + ',load=a', '')
        q4 = s.raw('probes 1 ' + qt)
        t4 = s.trainable(1)
        s.mld(0, 'b')
        q5 = s.raw('mgets 0 ' + qt)
        r = k.run(s).need_ok('load and compare')
        base = r.ints(q0)
        diff(qs, base, r.ints(q1), 'model loaded into a %s model' % ('trained' if c['pre'] else 'fresh'))
        diff(qs, base, r.ints(q2), 'model created from the file')
        diff(qs, base, r.ints(q3), 'region created with the model file')
        diff(qs, base, r.ints(q4), 'region created with load=')
        diff(qs, base, r.ints(q5), 'model re-loaded over itself')
        if r.int(t1) or r.int(t4):
            raise Violation('a loaded %s still explores' % c['kind'])
        for b, what in (('b', 'a loaded %s model' % ('previously trained' if c['pre'] else 'fresh')), ('b2', 'a model created from the file')):
            if k.read(b) != text:
                raise Violation('storing %s again gives another file' % what)
    split = any(t.thresholds() for t in trees)
    return dict(nontrivial=split, classes=[c['kind'], 'pre-trained' if c['pre'] else 'fresh'])


def check_net(c, ctx):
    with ctx.case() as k:
        s = S()
        s.seed(c['seed'])
        feats = []
        for f, p, m in c['ins']:
            if f not in feats:
                feats.append(f)
        s.dnew(0)
        s.dnew(1)
        for f, p, m in c['ins']:
            s.dins(0, f, p, float(m))
        for f, p, m in c['ins2']:
            s.dins(1, f, p, float(m))
        s.mnew(0, 'PolicyNet', c['nf'], c['np'], 0)
        ntr = 0 if c.get('untrained') else c['trees']
        for i in range(ntr):
            s.mtrain(0, 0)
        s.mst(0, 'a')
        s.mnew(1, 'PolicyNet', c['nf'], c['np'], 0)
        if c['pre']:
            for i in range(c['trees2']):
                s.mtrain(1, 1)
        for f in feats[:3]:
            s.msample(1, 3, f)   # fills whatever the model caches per feature vector
        s.mld(1, 'a')
        s.mst(1, 'b')
        hs = [(f, s.msample(1, 2000, f)) for f in feats[:2]]
        s.region(0, 'cpp', c['nf'], c['np'], 0, 'r', 'PolicyNet,load=a', '')
        s.mstore(0, 'c')
        s.mtrain(1, 0)   # still trainable
        s.mst(1, 'd')
        r = k.run(s).need_ok('PolicyNet store and load')
        a = k.read('a', True)
        if k.read('b', True) != a or k.read('c', True) != a:
            raise Violation('storing a loaded PolicyNet again gives another file')
        p, avg, cnt = net.parse(a, c['nf'], c['np'])
        if cnt != ntr:
            raise Violation('the stored number of trainings is %d after %d trainings' % (cnt, ntr))
        for f, i in hs:
            net.fits(net.hist(r.get(i), c['np']), net.probs(p, f), 'loaded PolicyNet, features %r' % f)
    return dict(nontrivial=c['np'] > 1, classes=['PolicyNet', 'pre-trained' if c['pre'] else 'fresh'])


def dirs(c):
    return '%s/%s' % (c['out'] or '.apollo', c['mdir'] or 'models')


def envs(c):
    e = {}
    if c['out']:
        e['APOLLO_OUTPUT_DIR'] = c['out']
    if c['mdir']:
        e['APOLLO_MODELS_DIR'] = c['mdir']
    return e


def check_region(c, ctx):
    kind, name = c['kind'], c['name']
    with ctx.case() as k:
        s = S()
        s.seed(c['seed'])
        s.env(envs(c))
        s.env({'APOLLO_STORE_MODELS': 1})
        if c['auto'] == 'period':
            s.env({'APOLLO_PER_REGION_TRAIN_PERIOD': max(1, len(c['ins']) // 2)})
        s.region(0, 'cpp', c['nf'], c['np'], 1 if c['auto'] == 'min' else 0, name, info(c), '')
        for f, p, m in c['ins']:
            s.beginf(0, 1, f)
            s.pol(1)
            s.endm(1, float(m))
        s.mstore(0, 'now') if c['auto'] else None
        copies = []
        if c['auto']:
            copies.append((None, 'now'))
        # explicit trainings, the later ones forced
        for i, stp in enumerate(c['steps']):
            for f, p, m in c['ins2'][i:i + 1]:
                s.rdins(0, f, p, float(m))
            s.rtrain(0, stp, 1, 1 if (i or c['auto']) else 0)
            s.mstore(0, 'm%d' % i)
            copies.append((stp, 'm%d' % i))
        qs = c['ins'] + c['ins2']
        qs = [q[0] for q in qs] + c['qs']
        if kind != 'PolicyNet':
            qi = s.raw('probes 0 ' + qtext(qs))
        r = k.run(s).need_ok('storing models')
        d = dirs(c)
        last = {}
        for stp, copy in copies:
            last[stp] = copy
        for stp, copy in last.items():
            if stp is None:
                continue
            fn = '%s/%s-step-%d-rank-0-%s.yaml' % (d, kind, stp, name)
            if not k.exists(fn):
                raise Violation('training at step %d left no file %s (files: %s)' % (stp, fn, k.files(c['out'] or '.apollo')))
            if k.read(fn, True) != k.read(copy, True):
                raise Violation('%s does not hold the model of that training' % fn)
        fn = '%s/%s-latest-rank-0-%s.yaml' % (d, kind, name)
        if not k.exists(fn):
            raise Violation('no latest model file %s (files: %s)' % (fn, k.files(c['out'] or '.apollo')))
        if k.read(fn, True) != k.read(copies[-1][1], True):
            raise Violation('%s does not hold the latest trained model' % fn)
        if c['auto'] and kind != 'PolicyNet' and min(c['steps']) > len(c['ins']):   # explicit steps may overwrite
            fs = [f for f in k.files(d) if f.startswith('%s/%s-step-' % (d, kind))]
            if not any(k.read(f, True) == k.read('now', True) for f in fs):
                raise Violation('an automatic training left no step file with its model')
        # a later process
        s = S()
        s.seed(c['seed'] + 1)
        s.env(envs(c))
        s.region(0, 'cpp', c['nf'], c['np'], 0, name, kind + (',load=' + fn if c['named'] else ',load'), '')
        s.mstore(0, 'again')
        if kind != 'PolicyNet':
            ti = s.trainable(0)
            q2 = s.raw('probes 0 ' + qtext(qs))
            ex = []
            for q in qs[:3]:
                s.beginf(0, 1, q)
                ex.append(s.pol(1))
                s.endm(1, 1.0)
        r2 = k.run(s).need_ok('second process')
        if k.read('again', True) != k.read(copies[-1][1], True):
            raise Violation('the region created with load does not start from the latest model')
        if kind != 'PolicyNet':
            if r2.int(ti):
                raise Violation('the region created with load explores')
            diff(qs, r.ints(qi), r2.ints(q2), 'region created with load')
            diff(qs[:3], r.ints(qi)[:3], [r2.int(i) for i in ex], 'region created with load')
    return dict(nontrivial=len(c['ins']) > 1, classes=['region ' + kind, 'dir %s' % bool(c['out'] or c['mdir']), 'auto %s' % c['auto']])


def leave_latest(c, k):
    s = S()
    s.env(envs(c))
    s.env({'APOLLO_STORE_MODELS': 1})
    s.region(0, 'cpp', c['nf'], c['np'], 0, c['name'], c['kind'], '')
    for f, p, m in c['ins'][:4]:
        if c['kind'] == 'PolicyNet':
            s.beginf(0, 1, f)
            s.pol(1)
            s.endm(1, float(m))
        else:
            s.rdins(0, f, p, float(m))
    s.rtrain(0, 0, 1, 0)
    k.run(s).need_ok('storing a model')


def check_missing(c, ctx):
    with ctx.case() as k:
        s = S()
        s.env(envs(c))
        s.env({'APOLLO_STORE_MODELS': 1})
        kind = c['kind']
        if c['seed'] % 3 == 0 or c['named']:
            # another model of the region does not stand in for the named one
            leave_latest(c, k)
        if c['seed'] % 3 == 0:
            s.region(0, 'cpp', c['nf'], c['np'], 0, c['name'], kind, 'nofile.yaml')
        else:
            s.region(0, 'cpp', c['nf'], c['np'], 0, c['name'], kind + (',load=nofile.yaml' if c['named'] else ',load'), '')
        i = s.echo('started')
        r = k.run(s)
        if i in r.obs or not r.refused:
            raise Violation('region %s starts although its model file is missing: %s' % (kind, r.status()))
    return dict(nontrivial=False, classes=['missing file'])
