"""C04: trained decision trees."""
import random
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation
from ..ref import argmins, f32, nextf, parse_dtree, verify_training_data, verify_tree

RULE = ('random datasets (1..7 features of several value styles: integers, decimals, adjacent floats, values near 2^24, '
        'huge, subnormal; up to 24 random vectors or a grid of up to 36 with a pattern of fastest policies, up to 8 or 200 policies), trained through a region or the model interface with max_depth '
        '0..64, optionally re-trained; the stored tree is checked node by node, decisions are compared with it, and a '
        'deep tree must return the fastest policy for every training vector; non-trivial: the tree has a split')
COUNT = {'quick': 24000, 'thorough': 120000}
ASSUMPTIONS = ['ties between metrics, splits (within 1e-5 of the minimal weighted Gini) and classes may be resolved either way',
               'all feature vectors of a dataset have the same length and finite values']


@st.composite
def strategy_(draw):
    nf = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 4, 7]))
    npol = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 8, 8, 200]))
    styles = draw(st.sampled_from([gen.ALL, ['small'], ['sym'], ['small', 'dec'], ['ulps'], ['big'], ['any']]))
    nvec = draw(st.sampled_from([2, 4, 8, 24]))
    ins = draw(gen.data(nf, npol, nvec, 40, styles=styles, min_size=1,
                           met=draw(st.sampled_from([gen.pos_metric, st.integers(0, 9).map(float)]))))
    ins2 = draw(st.one_of(st.just([]), gen.inserts(nf, npol, 4, 10, styles=styles)))
    depth = draw(st.sampled_from([None, 0, 1, 2, 3, 4, 5, 8, 64]))
    qs = draw(st.lists(gen.vec(draw(st.sampled_from(gen.ALL)), nf), max_size=3))
    return dict(nf=nf, np=npol, ins=ins, ins2=ins2, depth=depth, via=draw(st.sampled_from(['model', 'region', 'rtrain'])), qs=qs)


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # many feature vectors, features, policies
    rng = random.Random('c04-%s' % seed)
    for nf, npol, nvec, depth in ((1, 3, 600, 64), (2, 300, 400, 64), (1, 2, 1100, 12), (300, 4, 24, 64), (3, 5, 500, 6), (270, 2, 40, 3)):
        vs = sorted({tuple(gen.wide(rng, nf, lambda: rng.randrange(2000 if nf == 1 else 25) - 9)) for _ in range(nvec)})
        ins = [[list(f), (i if npol > 100 else rng.randrange(npol)) % npol, rng.randrange(1, 99) / 8.0] for i, f in enumerate(vs)]
        yield dict(nf=nf, np=npol, ins=ins, ins2=[], depth=depth, via=rng.choice(['model', 'region', 'rtrain']), qs=[])
    for n, depth in ((150, 400), (120, 110)):
        yield dict(nf=n, np=n, ins=[[f, i, 1.0] for i, f in enumerate(gen.chain(n))], ins2=[], depth=depth, via='model', qs=[])
    # more samples of one policy than fit 16 bits: vectors of 17 bits, two of which decide the fastest policy
    yield dict(bits=17, count=100000, key=rng.sample(range(10), 2), seed=rng.randrange(1000))
    yield dict(bits=18, count=160000, key=[0, 0], mix=7, seed=rng.randrange(1000))


def check_bits(case, ctx):
    n, (a, b) = case['bits'], case['key']
    rng = random.Random(case['seed'])
    s = S()
    s.dnew(0)
    mix = case.get('mix')     # one split, one of its sides has a majority of more than 2^16 and a minority
    s.mnew(0, 'DecisionTree', n, 3, 1, 'max_depth', '1' if mix else '2')
    cls = lambda v: 0 if not v >> a & 1 else 1 + (v >> b & 1)
    given = lambda v: 1 if mix and not v & 1 and v // 2 % mix == 0 else cls(v)
    vec = lambda v: [float(v >> j & 1) for j in range(n)]
    for v in range(case['count']):
        s.dins(0, vec(v), given(v), 1.0)
    s.mtrain(0, 0)
    qs = [rng.randrange(case['count']) for _ in range(200)] + [0, case['count'] - 1, 1 << a, 1 << b, 1 << a | 1 << b]
    qi = s.raw('mgets 0 %d ' % len(qs) + ' '.join('%d %s' % (n, ' '.join(x.hex() for x in vec(q))) for q in qs))
    with ctx.case() as c:
        r = c.run(s).need_ok('training on %d vectors' % case['count'])
        for q, p in zip(qs, r.ints(qi)):
            if p != cls(q):
                raise Violation('trained on %d vectors of bits, the tree recommends policy %d for %r, most common fastest: %d (decided by bits %d and %d)' % (case['count'], p, vec(q), cls(q), a, b))
    return dict(nontrivial=True, classes=['deep'])


def check(case, ctx):
    if 'bits' in case:
        return check_bits(case, ctx)
    nf, npol, depth = case['nf'], case['np'], case['depth']
    md = 2 if depth is None else depth
    via = case['via']
    s = S()
    allq = []
    for f, p, m in case['ins'] + case['ins2']:
        if f not in allq:
            allq.append(f)
    near = []
    for f in allq[:8]:
        for j in range(nf):
            for up in (True, False):
                g = list(f)
                g[j] = nextf(g[j], up)
                near.append(g)
    qs = allq + case['qs'] + near
    phases = [case['ins']] + ([case['ins2']] if case['ins2'] else [])
    if via == 'model':
        s.dnew(0)
        s.mnew(0, 'DecisionTree', nf, npol, *([1, 'max_depth', str(depth)] if depth is not None else [0]))
    else:
        s.region(0, 'cpp', nf, npol, 0, 'reg', 'DecisionTree' + (',max_depth=%d' % depth if depth is not None else ''), '')
    obs = []
    for ph, ins in enumerate(phases):
        if via == 'model':
            for f, p, m in ins:
                s.dins(0, f, p, float(m))
            di = s.ddump(0)
            s.mtrain(0, 0)
            s.mst(0, 't%d' % ph)
            qi = s.raw('mgets 0 %d ' % len(qs) + ' '.join('%d %s' % (nf, ' '.join(x.hex() for x in q)) for q in qs))
            ti = s.mtr(0)
        else:
            for f, p, m in ins:
                s.rdins(0, f, p, float(m))
            di = s.ds(0)
            if via == 'region' and ph == 0:
                s.train(3)
            else:
                s.rtrain(0, 3, 1, 1)
            s.mstore(0, 't%d' % ph)
            qi = s.raw('probes 0 %d ' % len(qs) + ' '.join('%d %s' % (nf, ' '.join(x.hex() for x in q)) for q in qs))
            ti = s.trainable(0)
        obs.append((di, qi, ti))
    nodes = 0
    cls = []
    with ctx.case() as c:
        r = c.run(s).need_ok('training')
        for ph, (di, qi, ti) in enumerate(obs):
            ds = r.ds(di)
            am = argmins(ds)
            if r.int(ti) != 0:
                raise Violation('the trained model still explores')
            tree = parse_dtree(c.read('t%d' % ph))
            if tree.max_depth != md:
                raise Violation('maximum depth is %d, configured %d' % (tree.max_depth, md))
            verify_training_data(tree.data, ds, 'training %d' % ph)
            d, n = verify_tree(tree, tree.data, md)
            nodes = max(nodes, n)
            got = r.ints(qi)
            for q, p in zip(qs, got):
                t = tuple(f32(x) for x in q)
                if p not in tree.classes:
                    raise Violation('decision %d for %r is not a measured best policy %r' % (p, q, tree.classes))
                if md >= len(am) and t in am and p not in am[t]:
                    raise Violation('tree with max_depth %d recommends policy %d for training features %r, fastest measured: %r' %
                                    (md, p, q, sorted(am[t])))
                e = tree.predict(t)
                if e != p:
                    raise Violation('decision for %r is %d, the stored tree gives %d' % (q, p, e))
            if n > 1:
                cls.append('depth %d' % d)
            if md >= len(am):
                cls.append('deep')
    return dict(nontrivial=nodes > 1, classes=cls + ['retrained'] * (len(phases) > 1) + ['via ' + via])
