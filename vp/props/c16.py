"""C16: region isolation and the single shared model."""
import random
from hypothesis import strategies as st
from .. import gen, hist
from ..exe import S, Violation
from ..ref import argmins, ds_diff, ema, merge

RULE = ('isolation: a random interleaved/nested history on 2..4 regions is compared with each region run alone on its own events '
        '(decisions, training states, datasets, final stored models); single model: random histories on 1..4 regions of one shape with '
        'APOLLO_SINGLE_MODEL, after every training all regions must answer alike, store the same model and, for trees, follow the '
        'fastest policies of the union of measurements; non-trivial: at least two regions made decisions and one was trained')
COUNT = {'quick': 8000, 'thorough': 80000}
ASSUMPTIONS = ['random_device is replaced by a fixed value, so a region draws the same random numbers alone and with others',
               'single model: DecisionTree and RandomForest, all regions of the same shape and model; no minimum training data or per-region period']


@st.composite
def single_case(draw):
    nr = draw(st.integers(1, 4))
    names = draw(gen.region_names(nr))
    model = draw(st.sampled_from(['DecisionTree,max_depth=64', 'DecisionTree,max_depth=64', 'RandomForest', 'RandomForest,num_trees=3,max_depth=5']))
    nf = draw(st.integers(1, 3))
    np = draw(st.integers(1, 5))
    vecs = draw(gen.vectors(nf, 6, styles=gen.COMMON))
    ops = []
    for _ in range(draw(st.integers(0, 30))):
        if draw(st.integers(0, 9)) == 0:
            ops.append(['train', draw(gen.step)])
        else:
            ops.append(['x', draw(st.integers(0, nr - 1)), draw(st.integers(0, 5)), draw(gen.pos_metric)])
    return dict(mode='single', names=names, model=model, nf=nf, np=np, vecs=vecs, probes=draw(st.lists(gen.vec('mixed', nf), min_size=0, max_size=4)),
                ops=ops + [['train', 99]], G=draw(st.sampled_from([0, 0, 0, 3, 7])), pers=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


@st.composite
def iso_case(draw):
    return dict(mode='iso', h=draw(hist.history(metrics='always', global_period=False, max_ops=36)), pers=draw(st.integers(0, 3)) == 0)


def strategy(tier):
    return st.one_of(iso_case(), single_case())


def fixed(tier, seed):
    rng = random.Random('c16-%s' % seed)
    # many regions sharing one model
    ops = [['x', i % 300, rng.randrange(40), rng.randrange(1, 99) / 8.0] for i in range(900)]
    yield dict(mode='single', names=['r%d' % i for i in range(300)], model='DecisionTree,max_depth=64', nf=1, np=3, vecs=[[float(i)] for i in range(40)], probes=[[3.5]],
               ops=ops + [['train', 1]], G=0, pers=False, seed=3)
    regs = [dict(name='r%d' % i, nf=1, np=3, model='DecisionTree,max_depth=64', mtd=0, vecs=[[float(j)] for j in range(4)], late=0, seed=i) for i in range(60)]
    ops = [['x', i % 60, rng.randrange(4), rng.randrange(1, 99) / 8.0, 1, 0] for i in range(180)]
    yield dict(mode='iso', h=dict(regs=regs, env={}, ops=ops + [['train', 1]] + ops[:60], seed=5), pers=False)
    # policies of more than 16 bits
    regs = [dict(name='r%d' % i, nf=1, np=n, model=m, mtd=0, vecs=[[float(j)] for j in range(4)], late=0, seed=i) for i, (m, n) in enumerate((('Static,policy=70001', 80000), ('Random', 2**31 - 1), ('DecisionTree,max_depth=64,explore=Random', 10**6), ('RoundRobin', 3)))]
    ops = [['x', i % 4, rng.randrange(4), rng.randrange(1, 99) / 8.0, 1, 0] for i in range(80)]
    yield dict(mode='iso', h=dict(regs=regs, env={}, ops=ops + [['train', 1]] + ops[:60], seed=5), pers=True)


def check(c, ctx):
    return iso(c, ctx) if c['mode'] == 'iso' else single(c, ctx)


def iso(c, ctx):
    h = c['h']
    regs = h['regs']
    env = {'APOLLO_PERSISTENT_DATASETS': 1} if c['pers'] else None
    api = lambda n: ['ctx', 'free', 'ctxf'][n % 3]
    s, ob = hist.render(h, api, env=env)
    with ctx.case() as k:
        r = k.run(s).need_ok('history')
    last = {}
    for w, i, a, t in ob:
        if w == 'trainable':
            last[i] = r.int(a)
    store = [i for i in last if regs[i]['model'].startswith('PolicyNet') or not last[i] and regs[i]['model'].startswith(('DecisionTree', 'RandomForest'))]
    s, ob = hist.render(h, api, env=env, store=store)
    with ctx.case() as k:
        r = k.run(s).need_ok('history')
        models = {i: k.read('model-%d' % i, True) for i in store}
    used = {o[1] for o in ob if o[0] == 'policy'}
    for i in range(len(regs)):
        s1, ob1 = hist.render(h, api, env=env, only=i, store=store)
        with ctx.case() as k:
            r1 = k.run(s1).need_ok('region %s alone' % regs[i]['name'])
            if i in store and k.read('model-%d' % i, True) != models[i]:
                raise Violation('the final model of region %s differs from the one it gets running alone' % regs[i]['name'])

        # observations are compared where both runs made them: after the region's own events (and trainings)
        def own(obs):
            d = {}
            for w, j, a, t in obs:
                if j == i:
                    d[(w, t)] = a
            return d
        a, b = own(ob), own(ob1)
        n = 0
        for kk in b:
            if kk not in a:
                continue
            n += 1
            x, y = (r.ds(a[kk]), r1.ds(b[kk])) if kk[0] == 'ds' else (r.int(a[kk]), r1.int(b[kk]))
            if x != y:
                raise Violation('%s: %s of region %s is %r with other regions and %r alone' % (kk[1], kk[0], regs[i]['name'], x, y))
    return dict(nontrivial=len(used) >= 2 and len(store) > 0, classes=['isolation', 'regions %d' % len(regs)])


def single(c, ctx):
    s = S()
    s.seedc(c['seed'])
    s.env({'APOLLO_SINGLE_MODEL': 1, 'APOLLO_REGION_MODEL': 0})
    if c['G']:
        s.env({'APOLLO_GLOBAL_TRAIN_PERIOD': c['G']})
    if c['pers']:
        s.env({'APOLLO_PERSISTENT_DATASETS': 1})
    names = c['names']
    n = len(names)
    for i in range(n):
        s.region(i, 'cpp', c['nf'], c['np'], 0, names[i], c['model'], '')
    qs = c['vecs'] + c['probes']

    def flat(i):
        return s.raw('probes %d %d ' % (i, len(qs)) + ' '.join('%d %s' % (len(q), ' '.join(float(x).hex() for x in q)) for q in qs))

    # reference state: which trainings happen is decided by the history alone
    trained = False
    tot = 0
    ds_has = False
    log = []
    nstore = 0
    for m, op in enumerate(c['ops']):
        if op[0] == 'x':
            f = c['vecs'][op[2] % len(c['vecs'])]
            s.beginf(op[1], m, f)
            pi = s.pol(m)
            s.endm(m, float(op[3]))
            tot += 1
            rec = c['pers'] or not trained
            auto = c['G'] and not trained and tot % c['G'] == 0
            ds_has = ds_has or rec
            log.append(('x', op[1], f, pi, op[3], rec))
            if not auto:
                continue
        else:
            s.train(op[1])
        obs = [(s.trainable(i), s.ds(i)) for i in range(n)]
        if ds_has:
            trained = True
            for i in range(n):
                s.mstore(i, 'm%d-%d' % (nstore, i))
            log.append(('trained', obs, [flat(i) for i in range(n)], nstore))
            nstore += 1
        else:
            log.append(('nothing', obs))
    with ctx.case() as k:
        r = k.run(s).need_ok('single-model history')
        ref = [{} for _ in names]
        decided = None
        nt = 0
        for e in log:
            if e[0] == 'x':
                _, i, f, pi, m, rec = e
                p = r.int(pi)
                if rec:
                    ema(ref[i], f, p, m)
                if decided is not None:
                    if decided[c['vecs'].index(f)] != p:
                        raise Violation('region %s takes policy %d for %r, the shared model says %d' % (names[i], p, f, decided[c['vecs'].index(f)]))
                continue
            for i, (ti, di) in enumerate(e[1]):
                ds_diff(r.ds(di), ref[i], 'region %s after training' % names[i])
                if r.int(ti) != int(e[0] == 'nothing'):
                    raise Violation('region %s is %s after a training with %d measurements in all regions' % (names[i], 'trainable' if r.int(ti) else 'trained', sum(map(len, ref))))
            if e[0] == 'nothing':
                continue
            nt += 1
            merged = {}
            for i in sorted(range(n), key=lambda i: names[i]):
                merge(merged, ref[i])
            best = argmins(merged)
            ans = [r.ints(q) for q in e[2]]
            for i in range(1, n):
                if ans[i] != ans[0]:
                    raise Violation('the models of regions %s and %s decide differently: %r and %r for %r' % (names[0], names[i], ans[0], ans[i], qs))
                if k.read('m%d-%d' % (e[3], i), True) != k.read('m%d-0' % e[3], True):
                    raise Violation('the models of regions %s and %s differ' % (names[0], names[i]))
            for q, p in zip(qs, ans[0]):
                b = best.get(tuple(q))
                if c['model'].startswith('Dec') and b is not None and p not in b:
                    raise Violation('the shared model gives policy %d for %r, fastest in the union of measurements: %r' % (p, q, sorted(b)))
                if p not in set().union(*best.values()):
                    raise Violation('the shared model gives policy %d, which is fastest for no measured features' % p)
            decided = ans[0]
    return dict(nontrivial=nt > 0 and n > 1 and sum(1 for d in ref if d) > 1, classes=['single model'] + ['persistent'] * c['pers'] + ['global period'] * bool(c['G']), counts={'trainings': nt})
