"""C03: the reduction to the fastest measured policies, and DatasetMap."""
import random
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation, parse_best
from ..ref import argmins, ds_diff, f32, nextf

RULE = ('random datasets (0..4 features, up to 8 feature vectors, 8 policies, re-measured, equal, zero, negative and '
        'extreme metrics), reduced, and looked up through a DatasetMap region; non-trivial: some feature vector has two '
        'or more measured policies with different metrics')
COUNT = {'quick': 15000, 'thorough': 100000}
ASSUMPTIONS = ['ties between policies may be resolved either way']


@st.composite
def strategy_(draw):
    nf = draw(st.integers(0, 4))
    npol = draw(st.integers(1, 8))
    met = draw(st.sampled_from([gen.metric, st.integers(-3, 3).map(float), gen.pos_metric,
                                st.sampled_from([0.1, 0.1 + 1e-16, 0.30000000000000004, 0.3, 1e-9, 1.0000000001e-9, 1e300, -1e300, 5e-324])]))
    ins = draw(gen.inserts(nf, npol, 8, 40, met=met, min_size=1))
    q = draw(st.one_of(st.none(), st.integers(0, 5)))
    return dict(nf=nf, np=npol, ins=ins, unseen=q, persistent=draw(st.booleans()), order=draw(st.integers(0, 3)))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    rng = random.Random('c03-%s' % seed)
    for nf, npol, nvec, n in ((1, 1000, 600, 2500), (2, 3, 3000, 4000), (0, 3000, 1, 3000), (300, 5, 30, 200)):
        vs = [gen.wide(rng, nf, lambda: rng.randrange(-300, 300)) for _ in range(nvec)]
        yield dict(nf=nf, np=npol, ins=[[rng.choice(vs), rng.randrange(npol), rng.randrange(1, 10**6) / 64.0] for _ in range(n)], unseen=3, persistent=bool(nf % 2), order=1)


def check(case, ctx):
    s = S()
    s.dnew(0)
    vs = []
    for f, p, m in case['ins']:
        s.dins(0, f, p, float(m))
        if f not in vs:
            vs.append(f)
    bi, di = s.dbest(0), s.ddump(0)
    s.raw('dstore 0 .apollo/datasets/Dataset-reg.yaml')
    if case['persistent']:
        s.env({'APOLLO_PERSISTENT_DATASETS': 1})
    s.region(0, 'cpp', case['nf'], case['np'], 0, 'reg', 'DatasetMap', '')
    dsi = s.ds(0)
    qs = []
    order = vs if case['order'] % 2 == 0 else list(reversed(vs))
    for f in order + order[:2]:
        s.beginf(0, 1, f)
        qs.append((f, s.pol(1)))
        s.endm(1, 1.0)
    unseen = None
    if case['unseen'] is not None and case['nf'] > 0:
        f = list(vs[case['unseen'] % len(vs)])
        j = case['unseen'] % case['nf']
        f[j] = nextf(f[j], case['unseen'] % 2 == 0)
        if f not in vs:
            unseen = f
    with ctx.case() as c:
        c.write('.apollo/datasets/x', '')
        r = c.run(s).need_ok('reduction and DatasetMap run')
        ds = r.ds(di)
        am = argmins(ds)
        pairs, m = parse_best(r.get(bi, 'BEST'))
        seen = {}
        for f, p in pairs:
            if f in seen:
                raise Violation('features %r appear twice in the reduction' % (list(f),))
            seen[f] = p
            if f not in am:
                raise Violation('features %r of the reduction were never measured' % (list(f),))
            if p not in am[f]:
                raise Violation('reduction names policy %d for features %r, fastest measured: %r of %r' %
                                (p, list(f), sorted(am[f]), {k[1]: v for k, v in ds.items() if k[0] == f}))
        for f in am:
            if f not in seen:
                raise Violation('features %r are missing from the reduction' % (list(f),))
        if set(m) != set(am):
            raise Violation('the map of the reduction has other feature vectors than the dataset')
        for f, (p, v) in m.items():
            if p not in am[f] or v != ds[(f, p)]:
                raise Violation('map of the reduction: features %r -> policy %d metric %r' % (list(f), p, v))
        rds = argmins(r.ds(dsi))
        for f, qi in qs:
            p = r.int(qi)
            t = tuple(f32(x) for x in f)
            if t not in rds:
                raise Violation('features %r are missing from the loaded dataset' % (f,))
            if p not in rds[t]:
                raise Violation('DatasetMap recommends policy %d for features %r, fastest stored: %r' % (p, f, sorted(rds[t])))
        if unseen is not None:
            s2 = S()
            s2.region(0, 'cpp', case['nf'], case['np'], 0, 'reg', 'DatasetMap', '')
            s2.beginf(0, 1, unseen)
            qi = s2.pol(1)
            r2 = c.run(s2)
            if qi in r2.obs:
                raise Violation('DatasetMap recommends policy %d for features %r that are not in the dataset' % (r2.int(qi), unseen))
            if not r2.refused:
                raise Violation('DatasetMap query of unknown features did not end with an error: ' + r2.status())
    multi = any(len({v for k, v in ds.items() if k[0] == f}) > 1 for f in am)
    return dict(nontrivial=multi, classes=['unseen query'] * (unseen is not None) + ['tie'] * any(len(x) > 1 for x in am.values()) +
                ['multi-policy'] * multi)
