"""C05: random forests."""
import random
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation
from ..ref import argmins, f32, nextf, parse_forest, verify_tree

RULE = ('random datasets (1..5 features, up to 16 random vectors or a patterned grid of up to 36, up to 6 or 50 policies), forests of 1..40 trees of depth 0..8, trained once '
        'or repeatedly, through a region or the model interface; stored trees are checked node by node against their '
        'bootstrap samples, decisions against the majority vote; the samples of forests of 100 to 300 trees must look drawn uniformly with replacement; non-trivial: at least two trees of which one has a split')
COUNT = {'quick': 9000, 'thorough': 60000}
ASSUMPTIONS = ['ties between metrics, splits and votes may be resolved either way',
               'with 40 or more trees every training pair is expected in some bootstrap sample (probability of a miss < 1e-15)',
               'statistics of the bootstrap samples of forests of 100 trees or more within 7 standard deviations']


@st.composite
def strategy_(draw):
    nf = draw(st.sampled_from([1, 1, 2, 2, 3, 5]))
    npol = draw(st.sampled_from([1, 2, 2, 3, 4, 6, 50]))
    styles = draw(st.sampled_from([gen.COMMON, ['small'], ['small', 'dec'], gen.ALL]))
    nvec = draw(st.sampled_from([1, 3, 6, 16]))
    met = draw(st.sampled_from([gen.pos_metric, st.integers(0, 9).map(float)]))
    ins = draw(gen.data(nf, npol, nvec, 30, styles=styles, min_size=1, met=met))
    ins2 = draw(st.one_of(st.just([]), gen.inserts(nf, npol, 4, 8, styles=styles, min_size=1)))
    if draw(st.integers(0, 5)) == 0:
        p = draw(st.integers(0, npol - 1))
        ins = [[f, p, m] for f, _, m in ins]
        ins2 = []
    return dict(nf=nf, np=npol, ins=ins, ins2=ins2, trees=draw(st.sampled_from([None, 1, 2, 3, 7, 20, 40, 100] if sum(1 for _ in ins) > 5 else [None, 1, 2, 3, 7, 20, 40])),
                depth=draw(st.sampled_from([None, 0, 1, 3, 8])), via=draw(st.sampled_from(['model', 'region'])),
                again=draw(st.integers(0, 2)), qs=draw(st.lists(gen.vec(draw(st.sampled_from(gen.COMMON)), nf), max_size=3)))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # larger forests over known training sets: statistics of the bootstrap samples
    for m in (2, 3, 5, 8, 12, 20):
        ins = [[[float(3 * i)], i % 3, 1.0] for i in range(m)]
        yield dict(nf=1, np=3, ins=ins, ins2=[], trees=300, depth=2, via='model' if m % 2 else 'region', again=0, qs=[[1.5]])
    # thousands of trees, a close vote
    ins = [[[float(3 * i)], i % 2, 1.0] for i in range(5)]
    yield dict(nf=1, np=2, ins=ins, ins2=[], trees=5000 if tier == 'quick' else 70001, depth=1, via='model', again=0, qs=[[x / 2] for x in range(25)])
    # many feature vectors, features, policies
    rng = random.Random('c05-%s' % seed)
    for nf, npol, nvec, trees in ((1, 3, 400, 8), (2, 280, 290, 2), (290, 3, 12, 4)):
        ins = [[gen.wide(rng, nf, lambda: rng.randrange(2000)), (i if npol > 9 else rng.randrange(npol)) % npol, rng.randrange(1, 99) / 8.0] for i in range(nvec)]
        yield dict(nf=nf, np=npol, ins=ins, ins2=[], trees=trees, depth=12, via='model', again=1, qs=[])
    yield dict(nf=1, np=70000, ins=[[[float(i)], 69999 - i if i % 2 else 3 + i, 1.0] for i in range(12)], ins2=[], trees=5, depth=6, via='model', again=0, qs=[])
    yield dict(nf=100, np=100, ins=[[f, i, 1.0] for i, f in enumerate(gen.chain(100))], ins2=[], trees=3, depth=200, via='model', again=0, qs=[])


def bootstrap(samples, pairs, what):
    """samples: one list of feature vectors per tree; drawn uniformly with replacement from the pairs?"""
    m, n = len(pairs), len(samples)

    def binom(k, n, p, text):
        if abs(k - n * p) > 2 + 7 * (n * p * (1 - p)) ** .5:
            raise Violation('%s: %s %d times in %d, expected about %.1f: not drawn uniformly with replacement' % (what, text, k, n, n * p))
    for f in pairs:
        binom(sum(f not in s for s in samples), n, (1 - 1 / m) ** m, 'pair %r is absent from a sample' % (list(f),))
        binom(sum(s.count(f) for s in samples), n * m, 1 / m, 'pair %r is drawn' % (list(f),))
    # number of samples with a repetition
    p = 1.0
    for i in range(m):
        p *= (m - i) / m
    binom(sum(len(set(s)) < m for s in samples), n, 1 - p, 'a sample has a repetition')


def qtext(qs, nf):
    return '%d ' % len(qs) + ' '.join('%d %s' % (nf, ' '.join(x.hex() for x in q)) for q in qs)


def check(case, ctx):
    nf, npol = case['nf'], case['np']
    nt = case['trees'] or 10
    md = 2 if case['depth'] is None else case['depth']
    via = case['via']
    s = S()
    vs = []
    for f, p, m in case['ins'] + case['ins2']:
        if f not in vs:
            vs.append(f)
    near = []
    for f in vs[:4]:
        g = list(f)
        g[-1] = nextf(g[-1])
        near.append(g)
    qs = vs + case['qs'] + near
    params = []
    if case['trees'] is not None:
        params += ['num_trees', str(nt)]
    if case['depth'] is not None:
        params += ['max_depth', str(md)]
    info = 'RandomForest' + ''.join(',%s=%s' % (params[i], params[i + 1]) for i in range(0, len(params), 2))
    # two identical models/regions: determinism
    for k in (0, 1):
        if via == 'model':
            s.dnew(k)
            s.mnew(k, 'RandomForest', nf, npol, len(params) // 2, *params)
        else:
            s.region(k, 'cpp', nf, npol, 0, 'reg%d' % k, info, '')
    phases = [case['ins']] + [[]] * case['again'] + ([case['ins2']] if case['ins2'] else [])
    obs = []
    for ph, ins in enumerate(phases):
        o = []
        for k in (0, 1):
            if via == 'model':
                for f, p, m in ins:
                    s.dins(k, f, p, float(m))
                di = s.ddump(k)
                s.mtrain(k, k)
                s.mst(k, 'f%d_%d' % (ph, k))
                qi = s.raw('mgets %d ' % k + qtext(qs, nf))
            else:
                for f, p, m in ins:
                    s.rdins(k, f, p, float(m))
                di = s.ds(k)
                s.rtrain(k, 1, 1, ph > 0)
                s.mstore(k, 'f%d_%d' % (ph, k))
                qi = s.raw('probes %d ' % k + qtext(qs, nf))
            o.append((di, qi))
        obs.append(o)
    split = 0
    with ctx.case() as c:
        r = c.run(s).need_ok('training')
        for ph, o in enumerate(obs):
            txt = c.read('f%d_0' % ph)
            if r.ints(o[0][1]) != r.ints(o[1][1]):
                raise Violation('two forests trained on the same data decide differently')
            if txt != c.read('f%d_1' % ph):
                raise Violation('two forests trained on the same data differ')
            ds = r.ds(o[0][0])
            am = argmins(ds)
            fo = parse_forest(txt)
            if fo['num_trees'] != nt or len(fo['trees']) != nt:
                raise Violation('training %d: forest has %d trees (num_trees %d), configured %d' % (ph, len(fo['trees']), fo['num_trees'], nt))
            seen = set()
            label = {}
            dup = False
            for ti, t in enumerate(fo['trees']):
                if len(t.data) != len(am):
                    raise Violation('tree %d is trained on %d samples, %d training pairs' % (ti, len(t.data), len(am)))
                for f, y in t.data:
                    if f not in am or y not in am[f]:
                        raise Violation('tree %d is trained on %r -> %d, which is no fastest-policy pair' % (ti, list(f), y))
                    if label.setdefault(f, y) != y:
                        raise Violation('features %r have two different labels in the forest' % (list(f),))
                    seen.add(f)
                dup |= len({f for f, _ in t.data}) < len(t.data)
                if t.max_depth != md:
                    raise Violation('tree %d has maximum depth %d, configured %d' % (ti, t.max_depth, md))
                d, n = verify_tree(t, t.data, md, 'tree %d' % ti)
                split = max(split, n)
            if nt >= 40 and len(seen) != len(am):
                raise Violation('training pair(s) %r are in none of %d bootstrap samples' % ([list(f) for f in set(am) - seen], nt))
            if nt >= 20 and len(am) >= 5 and not dup:
                raise Violation('samples of %d trees over %d pairs contain no repetition: not drawn with replacement' % (nt, len(am)))
            if nt >= 20 and len(am) >= 5 and len({tuple(sorted(t.data)) for t in fo['trees']}) == 1:
                raise Violation('all %d bootstrap samples are the same' % nt)
            if nt >= 100 and len(am) > 1:
                bootstrap([[f for f, _ in t.data] for t in fo['trees']], sorted(am), 'training %d' % ph)
            for q, p in zip(qs, r.ints(o[0][1])):
                t = tuple(f32(x) for x in q)
                votes = {}
                for tr in fo['trees']:
                    v = tr.predict(t)
                    votes[v] = votes.get(v, 0) + 1
                if votes.get(p, 0) != max(votes.values()):
                    raise Violation('decision for %r is %d, votes %r' % (q, p, votes))
            labels = set(label.values())
            if len(set().union(*am.values())) == 1 and set(r.ints(o[0][1])) != labels:
                raise Violation('all training pairs name policy %r, decisions %r' % (labels, set(r.ints(o[0][1]))))
    return dict(nontrivial=nt > 1 and split > 1, classes=['via ' + via] + ['retrained'] * (len(phases) > 1) + ['split'] * (split > 1) +
                ['%d trees' % nt])
