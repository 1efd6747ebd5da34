"""C02: datasets aggregate per (features, policy) with a 0.5 moving average."""
import random
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation
from ..ref import ds_diff, ema, merge

RULE = ('random histories of insert/merge/clear on three datasets and of executions (explicit metrics, nested and '
        'interleaved, three interfaces) on up to three regions; non-trivial: at least one pair was measured twice or '
        'merged onto an existing entry, and at least two distinct pairs exist')
COUNT = {'quick': 12000, 'thorough': 120000}
ASSUMPTIONS = ['averages are compared with relative tolerance 1e-12', 'features are finite floats, metrics finite with |m| <= 1e300']


@st.composite
def ds_case(draw):
    nfs = draw(st.sampled_from([[0], [1], [2], [3], [1, 2], [0, 3], [8]]))
    pool = []
    for nf in nfs:
        pool += draw(gen.vectors(nf, 4))
    ops = []
    for _ in range(draw(st.integers(1, 30))):
        k = draw(st.integers(0, 19))
        if k < 15:
            ops.append(['ins', draw(st.integers(0, 2)), draw(st.sampled_from(pool)), draw(st.integers(0, 4)), draw(gen.metric)])
        elif k < 17:
            a = draw(st.integers(0, 2))
            ops.append(['merge', a, (a + draw(st.integers(1, 2))) % 3])
        elif k < 18:
            ops.append(['clear', draw(st.integers(0, 2))])
        else:
            ops.append(['dump', draw(st.integers(0, 2))])
    return dict(mode='ds', ops=ops)


@st.composite
def region_case(draw):
    nr = draw(st.integers(1, 3))
    names = draw(gen.region_names(nr))
    regs = []
    for i in range(nr):
        nf = draw(st.integers(0, 3))
        regs.append(dict(name=names[i], nf=nf, np=draw(st.integers(1, 5)), vecs=draw(gen.vectors(nf, 3)),
                         model=draw(st.sampled_from(['DecisionTree,explore=RoundRobin', 'RandomForest', 'DecisionTree,explore=Random',
                                                     'DecisionTree']))))
    ops = []
    for _ in range(draw(st.integers(1, 30))):
        r = draw(st.integers(0, nr - 1))
        ops.append([r, draw(st.sampled_from(regs[r]['vecs'])), draw(gen.metric), draw(st.sampled_from(['ctx', 'ctxf', 'free'])),
                    draw(st.integers(0, 2)), draw(st.sampled_from([1, 1, 1, 1, 2, 3]))])
    return dict(mode='region', regs=regs, ops=ops, seed=draw(st.integers(0, 10**6)))


def strategy(tier):
    return st.one_of(ds_case(), region_case())


def fixed(tier, seed):
    rng = random.Random('c02-%s' % seed)
    for nf, npol, nvec in ((1, 1000, 700), (3, 70000, 40), (300, 4, 60)):
        pool = [gen.wide(rng, nf, lambda: rng.randrange(-999, 1000)) for _ in range(nvec)]
        ops = [['ins', rng.randrange(2), rng.choice(pool), rng.randrange(npol), rng.randrange(1, 9999) / 64.0] for _ in range(2500 if nf < 9 else 300)]
        yield dict(mode='ds', ops=ops + [['merge', 2, 0], ['merge', 0, 1], ['merge', 2, 1]])
    yield dict(mode='ds', ops=[['ins', 0, [float(i)], i % 7, (i % 999 + 1) / 64.0] for i in list(range(70000)) + list(range(0, 70000, 777))])
    vecs = [[float(i)] for i in range(300)]
    ops = [[0, rng.choice(vecs), rng.randrange(1, 9999) / 64.0, rng.choice(['ctx', 'ctxf', 'free']), 0] for i in range(1500)]
    yield dict(mode='region', regs=[dict(name='big', nf=1, np=3, vecs=vecs, model='DecisionTree')], ops=ops, seed=1)
    # policies of more than 16 bits
    for m, n in (('RandomForest,explore=Random', 2**31 - 1), ('DecisionTree,explore=Random', 10**6)):
        yield dict(mode='region', regs=[dict(name='wide', nf=1, np=n, vecs=vecs[:3], model=m)], ops=[[0, vecs[i % 3], i / 4.0, ['ctx', 'ctxf', 'free'][i % 3], 0] for i in range(60)], seed=4)
    # more regions than fit a byte, nested
    regs = [dict(name='r%d' % i, nf=1, np=2, vecs=[[1.0]], model='RandomForest') for i in range(300)]
    yield dict(mode='region', regs=regs, ops=[[i % 300, [1.0], i / 4.0, 'ctx', 290] for i in range(900)], seed=2)


def check(case, ctx):
    return (check_ds if case['mode'] == 'ds' else check_region)(case, ctx)


def check_ds(case, ctx):
    s = S()
    ref = [{}, {}, {}]
    again = 0
    for i in range(3):
        s.dnew(i)
    exp = []

    def dump(i):
        exp.append((s.ddump(i), i, dict(ref[i])))
    for op in case['ops']:
        if op[0] == 'ins':
            _, d, f, p, m = op
            s.dins(d, f, p, float(m))
            again += (tuple(f), p) in ref[d]
            ema(ref[d], f, p, m)
        elif op[0] == 'merge':
            _, a, b = op
            s.dmerge(a, b)
            again += any(k in ref[a] for k in ref[b])
            merge(ref[a], ref[b])
            dump(a)
            dump(b)
        elif op[0] == 'clear':
            s.dclear(op[1])
            ref[op[1]] = {}
        else:
            dump(op[1])
    for i in range(3):
        dump(i)
    with ctx.case() as c:
        r = c.run(s).need_ok('dataset history')
        for idx, i, e in exp:
            n = int(r.obs[idx][0].split()[1])
            got = r.ds(idx)
            ds_diff(got, e, 'dataset %d after op %d' % (i, idx))
            if n != len(e):
                raise Violation('dataset %d has size %d, expected %d' % (i, n, len(e)))
    return dict(nontrivial=again > 0 and max(len(x) for x in ref) >= 2, classes=['dataset'] + (['re-measured'] if again else []))


def check_region(case, ctx):
    """Executions are opened and closed in a stack discipline over different regions: an op with
    depth d>0 encloses the following op when that is on another region."""
    s = S()
    s.seed(case['seed'])
    regs = case['regs']
    for i, g in enumerate(regs):
        s.region(i, 'cpp', g['nf'], g['np'], 0, g['name'], g['model'], '')
    done = []
    open_ = []  # (region, slot, pol idx, op)
    slot = 0

    def finish():
        r, sl, pi, op = open_.pop()
        if op[3] == 'free':
            s.endmd(r, float(op[2]))
        else:
            s.endm(sl, float(op[2]))
        done.append((r, op[1], pi, op[2]))
    nested = 0
    for op in case['ops']:
        r, f, m, api, depth = op[:5]
        times = op[5] if len(op) > 5 else 1      # asked more than once, the last decision counts
        while open_ and (len(open_) > depth or any(o[0] == r for o in open_)):
            finish()
        nested += bool(open_)
        slot += 1
        if api == 'free':
            s.begind(r)
            for x in f:
                s.featd(r, x)
            for _ in range(times):
                pi = s.pold(r)
        else:
            if api == 'ctxf':
                s.beginf(r, slot, f)
            else:
                s.op('begin', r, slot, 'sync')
                for x in f:
                    s.feat(slot, x)
            for _ in range(times):
                pi = s.pol(slot)
        open_.append((r, slot, pi, op))
    while open_:
        finish()
    ids = [s.ds(i) for i in range(len(regs))]
    with ctx.case() as c:
        r = c.run(s).need_ok('region history')
        ref = [{} for _ in regs]
        again = 0
        for i, f, pi, m in done:
            p = r.int(pi)
            again += (tuple(f), p) in ref[i]
            ema(ref[i], f, p, m)
        for i in range(len(regs)):
            ds_diff(r.ds(ids[i]), ref[i], 'dataset of region %s' % regs[i]['name'])
    return dict(nontrivial=again > 0 and max(len(x) for x in ref) >= 2,
                classes=['region'] + (['nested'] if nested else []) + (['re-measured'] if again else []))
