"""Generated application histories over several regions, and their rendering through any of the interfaces."""
from hypothesis import strategies as st
from . import gen
from .exe import S

MODELS = ['DecisionTree,max_depth=64', 'DecisionTree', 'DecisionTree,max_depth=3,explore=Random', 'RandomForest', 'RandomForest,num_trees=3,explore=Random',
          'PolicyNet', 'PolicyNet,lr=0.1', 'Static,policy=0', 'RoundRobin', 'Random']
APIS = ['ctx', 'ctxf', 'free', 'c']


@st.composite
def history(draw, max_regions=4, max_ops=28, metrics=True, models=MODELS, periods=True, global_period=True, late=True, mtd=True, zero_features=True):
    nr = draw(st.integers(1, max_regions))
    names = draw(gen.region_names(nr))
    regs = []
    for i in range(nr):
        m = draw(st.sampled_from(models))
        net = m.startswith('PolicyNet')
        nf = draw(st.integers(1, 2)) if net else draw(st.integers(0 if zero_features and not m.startswith(('D', 'R')) else 1, 3))
        regs.append(dict(name=names[i], nf=nf, np=draw(st.integers(1, 5)), model=m, mtd=draw(st.sampled_from([0, 0, 1, 2, 3, 5, 8])) if mtd else 0,
                         vecs=draw(gen.vectors(nf, 4, styles=['small'] if net else gen.COMMON)),
                         late=draw(st.integers(0, 14)) if late and draw(st.integers(0, 2)) == 0 else 0, seed=draw(st.integers(0, 10**6))))
    env = {}
    if periods:
        if global_period and draw(st.booleans()):
            env['APOLLO_GLOBAL_TRAIN_PERIOD'] = draw(st.integers(0, 7))
        if draw(st.booleans()):
            env['APOLLO_PER_REGION_TRAIN_PERIOD'] = draw(st.integers(0, 6))
    ops = []
    busy = draw(st.sampled_from([13, 13, 13, 10]))
    for _ in range(draw(st.integers(1, max_ops))):
        r = draw(st.integers(0, nr - 1))
        x = draw(st.integers(0, 15))
        if x < busy:
            m = draw(gen.pos_metric) if metrics == 'always' or metrics and draw(st.booleans()) else None
            ops.append(['x', r, draw(st.integers(0, 3)), m, draw(st.integers(1, 10**9)), draw(st.sampled_from([0, 0, 0, 1, 2])), draw(st.sampled_from([1, 1, 1, 1, 1, 2, 3]))])
        elif x < 14:
            ops.append(['train', draw(gen.step)])
        else:
            ops.append(['rtrain', r, draw(st.integers(0, 50))])
    return dict(regs=regs, env=env, ops=ops, seed=draw(st.integers(0, 10**6)))


def render(h, api, env=None, only=None, observe=True, store=(), region_api=None):
    """api: index of the execution -> interface. Returns the script and the list of observations
    (what, region, script index); what is policy, trainable, ds."""
    s = S()
    s.seedc(h['seed'])
    s.clock(50, 0)
    s.env(h['env'])
    if env:
        s.env(env)
    regs = h['regs']
    live = [i for i in range(len(regs)) if only is None or i == only]
    made = [False] * len(regs)
    obs = []

    def look(what):
        if observe:
            for i in live:
                if made[i]:
                    obs.append(('trainable', i, s.trainable(i), what))
                    obs.append(('ds', i, s.ds(i), what))

    def make(n):
        for i in live:
            g = regs[i]
            if not made[i] and g['late'] <= n:
                s.region(i, region_api or 'cpp', g['nf'], g['np'], g['mtd'], g['name'], g['model'], '')
                made[i] = True
                look('creation of region %s' % g['name'])
    open_ = []

    def finish():
        r, slot, a, op = open_.pop()
        if r in live:
            s.adv(0, op[4] % 10**9) if op[4] < 10**9 else s.adv(1, 0)
            if op[3] is None:
                {'free': s.endd, 'c': s.endc}.get(a, s.end)(r if a in ('free', 'c') else slot)
            elif a == 'free':
                s.endmd(r, float(op[3]))
            else:
                s.endm(slot, float(op[3]))
            look('execution %d' % slot)
        elif only is not None:
            pass
    n = -1
    for n, op in enumerate(h['ops']):
        make(n)
        if op[0] == 'x':
            r = op[1]
            while open_ and (len(open_) > op[5] or any(o[0] == r for o in open_)):
                finish()
            if r in live and not made[r]:
                continue
            if r not in live and regs[r]['late'] > n:
                continue
            a = api(n)
            if r in live:
                f = regs[r]['vecs'][op[2] % len(regs[r]['vecs'])]
                if a == 'free':
                    s.begind(r)
                    for x in f:
                        s.featd(r, x)
                elif a == 'c':
                    s.beginc(r)
                    for x in f:
                        s.featc(r, x)
                elif a == 'ctxf':
                    s.beginf(r, n, f)
                else:
                    s.op('begin', r, n, 'sync')
                    for x in f:
                        s.feat(n, x)
                for _ in range(op[6] if len(op) > 6 else 1):   # asked more than once, the last decision counts
                    pi = {'free': s.pold, 'c': s.polc}.get(a, s.pol)(r if a in ('free', 'c') else n)
                    obs.append(('policy', r, pi, 'execution %d' % n))
            open_.append((r, n, a, op))
        elif op[0] == 'train':
            if any(made):
                s.train(op[1])
                look('training at operation %d' % n)
        elif op[1] in live and made[op[1]]:
            if api(n) == 'c':
                s.trainc(op[1], op[2])
            else:
                s.rtrain(op[1], op[2], 1, 0)
            look('training at operation %d' % n)
    while open_:
        finish()
    make(10**9)
    for i in store:
        if i in live:
            s.mstore(i, 'model-%d' % i)
    return s, obs


def long_history(seed, nops, nr=3, models=MODELS, metrics=False, span=40, nps=None):
    """a long history by formula, far beyond what the generator draws"""
    import random
    rnd = random.Random(seed)
    regs = []
    for i in range(nr):
        m = models[(seed + i * 3) % len(models)]
        nf = 1 + (i + seed) % 2
        regs.append(dict(name='long-%d' % i, nf=nf, np=nps or 2 + rnd.randrange(7), model=m, mtd=[0, 40, 7][(seed + i) % 3],
                         vecs=[[float(rnd.randrange(8 if m.startswith('PolicyNet') else span)) for _ in range(nf)] for _ in range(12)], late=[0, 0, 60][i % 3], seed=rnd.randrange(10**6)))
    trs = 401 if seed % 2 else 61
    env = [{'APOLLO_PER_REGION_TRAIN_PERIOD': 150}, {'APOLLO_GLOBAL_TRAIN_PERIOD': 310}, {}][seed % 3]
    ops = []
    for n in range(nops):
        if n % trs == trs - 1:
            ops.append(['train', n])
        elif n % (trs // 3 * 2) == trs // 3:
            ops.append(['rtrain', rnd.randrange(nr), n])
        else:
            ops.append(['x', rnd.randrange(nr), rnd.randrange(12), float(rnd.randrange(1, 99)) if metrics and rnd.random() < .5 else None, rnd.randrange(1, 10**9), rnd.choice([0, 0, 0, 1, 2]), rnd.choice([1] * 19 + [2])])
    return dict(regs=regs, env=env, ops=ops, seed=seed)
