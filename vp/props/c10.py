"""C10: fair exploration."""
from hypothesis import strategies as st
from .. import gen, net
from ..exe import S, Violation

RULE = ('interleaved decision histories of 1..4 regions under RoundRobin/Random selection or exploration (also across trainings '
        'that cannot happen yet, repeated decisions in one execution, varying features); RoundRobin decisions must be k mod n; '
        'long single histories of up to 5000 policies and 12000 decisions; Random decisions (thousands per case, seeds from the case) must pass chi-square tests of uniformity and of '
        'independence at lag 1 and 2, over up to 2^31-1 policies, and so must the first decisions of hundreds of regions; non-trivial: a region with at least two policies made at least n+1 decisions')
COUNT = {'quick': 9000, 'thorough': 60000}
ASSUMPTIONS = ['statistical tests at significance 1e-10 per test']
RR = ['RoundRobin', 'DecisionTree', 'RandomForest', 'DecisionTree,explore=RoundRobin', 'RandomForest,explore=RoundRobin', 'DecisionTree,max_depth=3']
RA = ['Random', 'DecisionTree,explore=Random', 'RandomForest,explore=Random']


@st.composite
def rr_case(draw):
    nr = draw(st.integers(1, 4))
    names = draw(gen.region_names(nr))
    regs = []
    for i in range(nr):
        nf = draw(st.integers(0, 3))
        regs.append(dict(name=names[i], nf=nf, np=draw(st.sampled_from([1, 2, 3, 4, 5, 7, 10, 33, 300])), vecs=draw(gen.vectors(nf, 4)),
                         model=draw(st.sampled_from(RR + RA[:1])), late=draw(st.sampled_from([0, 0, 0, 5]))))
    ops = [[draw(st.integers(0, nr - 1)), draw(st.integers(0, 3)), draw(gen.pos_metric), draw(st.sampled_from(['ctx', 'ctxf', 'free'])),
            draw(st.sampled_from([1, 1, 1, 1, 2, 3]))] for _ in range(draw(st.integers(1, 40)))]
    return dict(mode='rr', regs=regs, ops=ops, envmodel=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), train0=draw(st.booleans()),
                trace=draw(st.booleans()))


@st.composite
def rand_case(draw):
    return dict(mode='rand', np=draw(st.sampled_from([1, 2, 3, 4, 5, 7, 8, 13, 16, 40, 129, 300, 5000, 70000, 100000, 10**6, 2**31 - 1])), model=draw(st.sampled_from(RA)),
                n=draw(st.sampled_from([3000, 8000])), via=draw(st.sampled_from(['model', 'region'])), seed=draw(st.integers(0, 2**40)),
                nf=draw(st.integers(1, 2)))


@st.composite
def long_case(draw):
    return dict(mode='long', np=draw(st.sampled_from([1, 2, 3, 9, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 5000])), model=draw(st.sampled_from(RR)),
                n=draw(st.sampled_from([500, 2500, 12000])), via=draw(st.sampled_from(['model', 'region'])), nf=draw(st.integers(0, 2)))


@st.composite
def many_case(draw):
    return dict(mode='many', np=draw(st.sampled_from([2, 3, 5, 8, 12, 40])), models=draw(st.lists(st.sampled_from(RA), min_size=1, max_size=3)), n=draw(st.sampled_from([400, 900])), seed=draw(st.integers(0, 2**40)))


def check_many(c, ctx):
    """the first decisions of many regions"""
    n = c['np']
    s = S()
    s.seed(c['seed'])
    obs = []
    for i in range(c['n']):
        s.region(i, 'cpp', 1, n, 0, 'r%d' % i, c['models'][i % len(c['models'])], '')
        obs.append(s.raw('probes %d 2 1 1 1 1' % i))
    with ctx.case() as k:
        r = k.run(s).need_ok('random decisions of many regions')
        d = [r.ints(o) for o in obs]
    for j in (0, 1):
        cnt = [0] * n
        for x in d:
            cnt[x[j]] += 1
        net.fits(cnt, [1.0 / n] * n, 'Random decision %d of %d regions with %d policies' % (j, c['n'], n))
    if n <= 8:
        pc = [0] * (n * n)
        for a, b in zip(d[::2], d[1::2]):
            pc[a[0] * n + b[0]] += 1
        net.fits(pc, [1.0 / (n * n)] * (n * n), 'first Random decisions of two regions with %d policies' % n)
    return dict(nontrivial=True, classes=['random, many regions'])


def strategy(tier):
    k = [rr_case()] * 12 + [rand_case()] * 4 + [long_case()] * 2 + [many_case()]
    return st.one_of(*k)


def fixed(tier, seed):
    # every single policy of many
    for i, n in enumerate((300, 1000, 4000)):
        yield dict(mode='rand', np=n, model=RA[(i + seed) % 3], n=max(60 * n, 60000), via='model', seed=seed * 100 + i, nf=1)


def check(c, ctx):
    return dict(rr=check_rr, rand=check_rand, many=check_many, long=check_long)[c['mode']](c, ctx)


def sequence(s, c):
    if c['via'] == 'model':
        nm, _, ex = c['model'].partition(',')
        kv = ex.split('=') if ex else []
        s.mnew(0, nm, c['nf'], c['np'], len(kv) // 2, *kv)
        return s.mseq(0, c['n'], [1.0] * c['nf'])
    s.region(0, 'cpp', c['nf'], c['np'], 0, 'r', c['model'], '')
    return s.raw('probes 0 %d %s' % (c['n'], ' '.join(' '.join([str(c['nf'])] + [str(j % 5)] * c['nf']) for j in range(c['n']))))


def check_long(c, ctx):
    s = S()
    i = sequence(s, c)
    with ctx.case() as k:
        d = k.run(s).need_ok('long cyclic exploration').ints(i)
    for j, p in enumerate(d):
        if p != j % c['np']:
            raise Violation('%s over %d policies: decision %d is policy %d, expected %d' % (c['model'], c['np'], j, p, j % c['np']))
    return dict(nontrivial=1 < c['np'] < c['n'], classes=['cyclic, long'])


def check_rr(c, ctx):
    s = S()
    s.seed(c['seed'])
    if c['trace']:
        s.env({'APOLLO_TRACE_POLICY': 1, 'APOLLO_TRACE_CSV': 1})
    if c['envmodel']:
        s.env({'APOLLO_POLICY_MODEL': 'RoundRobin'})
    regs = c['regs']
    made = set()

    def make(n):
        for i, g in enumerate(regs):
            if i not in made and g['late'] <= n:
                s.region(i, 'cpp', g['nf'], g['np'], 0, g['name'], '' if c['envmodel'] else g['model'], '')
                made.add(i)
    make(0)
    if c['train0']:
        s.train(0)   # no measurements yet: nothing happens
    dec = [[] for _ in regs]
    for n, (i, vi, m, api, times) in enumerate(c['ops']):
        make(n)
        if i not in made:
            continue
        f = regs[i]['vecs'][vi % len(regs[i]['vecs'])]
        if api == 'free':
            s.begind(i)
            for x in f:
                s.featd(i, x)
        elif api == 'ctxf':
            s.beginf(i, 1, f)
        else:
            s.op('begin', i, 1, 'sync')
            for x in f:
                s.feat(1, x)
        for _ in range(times):
            dec[i].append(s.pold(i) if api == 'free' else s.pol(1))
        s.endmd(i, float(m)) if api == 'free' else s.endm(1, float(m))
    nt = False
    with ctx.case() as k:
        r = k.run(s).need_ok('history')
        for i, g in enumerate(regs):
            got = [r.int(x) for x in dec[i]]
            rr = c['envmodel'] or g['model'] in RR
            for j, p in enumerate(got):
                if rr and p != j % g['np']:
                    raise Violation('region %s with %d policies: decision %d is policy %d, expected %d (all: %r)' % (g['name'], g['np'], j, p, j % g['np'], got))
                if not 0 <= p < g['np']:
                    raise Violation('region %s: policy %d of %d' % (g['name'], p, g['np']))
            nt |= rr and g['np'] > 1 and len(got) > g['np']
    return dict(nontrivial=nt, classes=['cyclic'])


def check_rand(c, ctx):
    s = S()
    s.seed(c['seed'])
    n = c['np']
    i = sequence(s, c)
    with ctx.case() as k:
        r = k.run(s).need_ok('random decisions')
        d = r.ints(i)
    bad = [x for x in d if not 0 <= x < n]
    if bad:
        raise Violation('random decision %d of %d policies' % (bad[0], n))
    if n > 300 and len(d) < 50 * n:
        # by range and by remainder
        lo = [-(-b * n // 16) for b in range(17)]
        cnt, rem = [0] * 16, [0] * 16
        for x in d:
            cnt[x * 16 // n] += 1
            rem[x % 16] += 1
        net.fits(cnt, [(lo[b + 1] - lo[b]) / n for b in range(16)], 'sixteenths of Random decisions over %d policies' % n)
        net.fits(rem, [len(range(b, n, 16)) / n for b in range(16)], 'remainders by 16 of Random decisions over %d policies' % n)
        return dict(nontrivial=True, classes=['random'])
    cnt = [0] * n
    for x in d:
        cnt[x] += 1
    net.fits(cnt, [1.0 / n] * n, 'Random decisions over %d policies' % n)
    if 2 <= n <= 8:
        for lag in (1, 2):
            pc = [0] * (n * n)
            for a, b in zip(d[::lag + 1], d[lag::lag + 1]):
                pc[a * n + b] += 1
            net.fits(pc, [1.0 / (n * n)] * (n * n), 'pairs of Random decisions at lag %d over %d policies' % (lag, n))
    return dict(nontrivial=n > 1, classes=['random'], evals=1)
