"""C09: training happens exactly when requested or configured."""
import random
from hypothesis import strategies as st
from .. import gen, net
from ..exe import S, Violation
from ..ref import argmins, ds_diff, ema

RULE = ('random histories of executions (nested over regions, three interfaces), explicit/forced trainings and region creations '
        'on 1..4 regions (DecisionTree, RandomForest, PolicyNet, untrainable models) under random global period, per-region period, '
        'minimum training data and persistence settings; after every operation the training state, the measurements and the '
        'decisions of all regions are compared with a reference state machine; non-trivial: a training event happened and an '
        'execution followed it')
COUNT = {'quick': 10000, 'thorough': 100000}
ASSUMPTIONS = ['one open synchronous execution per region at a time', 'per-region models (APOLLO_REGION_MODEL=1), local training']
MODELS = ['DecisionTree,max_depth=64', 'DecisionTree,max_depth=64', 'DecisionTree,max_depth=64,explore=Random', 'RandomForest,max_depth=64',
          'RandomForest,explore=Random', 'PolicyNet', 'Static,policy=0', 'RoundRobin', 'Random']


@st.composite
def strategy_(draw):
    nr = draw(st.integers(1, 4))
    names = draw(gen.region_names(nr))
    persistent = draw(st.integers(0, 3)) == 0
    regs = []
    for i in range(nr):
        nf = draw(st.integers(1, 2))
        m = draw(st.sampled_from(MODELS))
        nf = 1 if m == 'PolicyNet' else nf
        regs.append(dict(name=names[i], nf=nf, np=draw(st.integers(1, 4)), model=m, mtd=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8])),
                         vecs=draw(gen.vectors(nf, 4, styles=['small'] if m == 'PolicyNet' else gen.COMMON)),
                         late=draw(st.integers(0, 12)) if draw(st.integers(0, 3)) == 0 else 0))
    env = {}
    if draw(st.booleans()):
        env['APOLLO_GLOBAL_TRAIN_PERIOD'] = draw(st.integers(0, 9))
    if draw(st.booleans()):
        env['APOLLO_PER_REGION_TRAIN_PERIOD'] = draw(st.integers(0, 6))
    if persistent:
        env['APOLLO_PERSISTENT_DATASETS'] = 1
    ops = []
    busy = draw(st.sampled_from([13, 13, 10]))
    for _ in range(draw(st.integers(1, 28))):
        r = draw(st.integers(0, nr - 1))
        x = draw(st.integers(0, 15))
        if x < busy:
            ops.append(['x', r, draw(st.integers(0, 3)), draw(gen.pos_metric), draw(st.sampled_from(['ctx', 'ctxf', 'free'])), draw(st.sampled_from([0, 0, 0, 1, 2]))])
        elif x < 14:
            ops.append([draw(st.sampled_from(['train', 'flush'])), draw(gen.step)])
        else:
            ops.append([draw(st.sampled_from(['rtrain', 'trainc', 'force', 'nocollect'])), r, draw(gen.step)])
    return dict(regs=regs, env=env, ops=ops, seed=draw(st.integers(0, 10**6)), rerun=persistent and draw(st.booleans()))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # long histories: periods and minimum data beyond 8 bits, many regions
    rng = random.Random('c09-%s' % seed)
    for G, P, mtd, nr in ((300, 0, 0, 2), (0, 257, 0, 2), (0, 0, 290, 1), (512, 260, 0, 3), (0, 0, 0, 2), (700, 0, 0, 300), (0, 1100, 0, 1), (2500, 0, 0, 2), (65600, 0, 0, 1), (0, 65600, 0, 1)):
        regs = [dict(name='r%d' % i, nf=1, np=3, model='DecisionTree,max_depth=64', mtd=mtd, vecs=[[float(j)] for j in range(120 if nr < 9 else 2)], late=0) for i in range(nr)]
        n = 1200 if nr > 9 else max(800, G + 300, P + 300)
        ops = [['x', i % nr if nr > 9 else rng.randrange(nr), rng.randrange(120), rng.randrange(1, 99) / 8.0, 'ctxf', 0] for i in range(n)]
        env = {}
        if G:
            env['APOLLO_GLOBAL_TRAIN_PERIOD'] = G
        if P:
            env['APOLLO_PER_REGION_TRAIN_PERIOD'] = P
        yield dict(regs=regs, env=env, ops=ops, seed=5, rerun=False, sparse=37 if n < 9000 else 997)
    n = 33000
    yield dict(regs=[dict(name='r', nf=1, np=1, model='DecisionTree,max_depth=1', mtd=n, vecs=[[float(j)] for j in range(n)], late=0)], env={}, ops=[['x', 0, i, 1.5, 'ctxf', 0] for i in range(n)] + [['x', 0, 0, 1.5, 'ctxf', 0]], seed=5, rerun=False, sparse=n + 1)
    # many trainings, also forced ones
    for pers, P in ((1, 0), (0, 0), (1, 90), (0, 45)):
        regs = [dict(name='r%d' % i, nf=1, np=3, model=MODELS[(i * 3 + pers) % 5], mtd=0, vecs=[[float(j)] for j in range(9)], late=0) for i in range(3)]
        ops = [['x', rng.randrange(3), rng.randrange(9), rng.randrange(1, 99) / 8.0, 'ctxf', 0] if rng.random() < .8 else
               [rng.choice(['force', 'force', 'rtrain', 'trainc', 'nocollect']), rng.randrange(3), i] for i in range(500)]
        env = {'APOLLO_PERSISTENT_DATASETS': 1} if pers else {}
        if P:
            env['APOLLO_PER_REGION_TRAIN_PERIOD'] = P
        yield dict(regs=regs, env=env, ops=ops, seed=5, rerun=bool(pers), sparse=5)


class Reg:
    def __init__(self, g):
        self.g = g
        self.kind = g['model'].split(',')[0]
        self.canlearn = self.kind in ('DecisionTree', 'RandomForest', 'PolicyNet')
        self.trainable = self.canlearn
        self.ds = {}
        self.begun = 0
        self.decisions = 0
        self.trainings = 0
        self.model = None     # (argmins of the data of the last training)
        self.memo = {}


def check(c, ctx):
    s = S()
    s.seed(c['seed'])
    s.env(c['env'])
    regs = c['regs']
    made = [False] * len(regs)
    sched = []   # (what, data..., observation indices)

    looks = [0]

    def observe():
        looks[0] += 1
        if c.get('sparse') and looks[0] % c['sparse']:
            return {}
        return {i: (s.trainable(i), s.ds(i)) for i in range(len(regs)) if made[i]}

    def make(upto):
        for i, g in enumerate(regs):
            if not made[i] and g['late'] <= upto:
                s.region(i, 'cpp', g['nf'], g['np'], g['mtd'], g['name'], g['model'], '')
                made[i] = True
                sched.append(('create', i, observe()))
    open_ = []
    slot = [0]

    def finish():
        r, sl, pi, op = open_.pop()
        if op[4] == 'free':
            s.endmd(r, float(op[3]))
        else:
            s.endm(sl, float(op[3]))
        sched.append(('end', r, regs[r]['vecs'][op[2] % len(regs[r]['vecs'])], pi, op[3], observe()))
    for n, op in enumerate(c['ops']):
        make(n)
        if op[0] == 'x':
            _, r, vi, m, api, depth = op
            if not made[r]:
                continue
            while open_ and (len(open_) > depth or any(o[0] == r for o in open_)):
                finish()
            f = regs[r]['vecs'][vi % len(regs[r]['vecs'])]
            slot[0] += 1
            sl = slot[0]
            if api == 'free':
                s.begind(r)
                for x in f:
                    s.featd(r, x)
                pi = s.pold(r)
            elif api == 'ctxf':
                s.beginf(r, sl, f)
                pi = s.pol(sl)
            else:
                s.op('begin', r, sl, 'sync')
                for x in f:
                    s.feat(sl, x)
                pi = s.pol(sl)
            sched.append(('begin', r, f, pi))
            open_.append((r, sl, pi, op))
        elif op[0] in ('train', 'flush'):
            if not any(made):
                continue
            s.op(op[0], op[1])
            sched.append(('train', observe()))
        else:
            if not made[op[1]]:
                continue
            if op[0] == 'trainc':
                s.trainc(op[1], op[2])
            else:
                s.rtrain(op[1], op[2], 0 if op[0] == 'nocollect' else 1, 1 if op[0] == 'force' else 0)
            sched.append(('rtrain', op[1], op[0] == 'force', observe()))
    while open_:
        finish()
    nets = []
    for i, g in enumerate(regs):
        if made[i] and g['model'] == 'PolicyNet':
            s.mstore(i, 'net%d' % i)
            nets.append(i)
    E = [Reg(g) for g in regs]
    G = c['env'].get('APOLLO_GLOBAL_TRAIN_PERIOD', 0)
    P = c['env'].get('APOLLO_PER_REGION_TRAIN_PERIOD', 0)
    persistent = bool(c['env'].get('APOLLO_PERSISTENT_DATASETS'))
    tot = 0
    events = after = 0
    live = set()

    def train(i, force=False):
        nonlocal events
        e = E[i]
        if i not in live or not (e.trainable or force) or not e.ds:
            return
        if not e.canlearn:
            return
        events += 1
        e.trainings += 1
        e.model = argmins(e.ds)
        e.memo = {}
        if e.kind != 'PolicyNet':
            e.trainable = False

    with ctx.case() as k:
        r = k.run(s).need_ok('history')

        def compare(obs, what):
            for i, (ti, di) in obs.items():
                if r.int(ti) != int(E[i].trainable):
                    raise Violation('%s: region %s (%s) is %s, expected %s (total executions %d, of the region %d, entries %d)' %
                                    (what, regs[i]['name'], regs[i]['model'], 'still exploring' if r.int(ti) else 'trained',
                                     'exploring' if E[i].trainable else 'trained', tot, E[i].begun, len(E[i].ds)))
                ds_diff(r.ds(di), E[i].ds, '%s: region %s' % (what, regs[i]['name']))
        for n, ev in enumerate(sched):
            w = 'event %d (%s)' % (n, ' '.join(str(x) for x in ev[:2] if not isinstance(x, dict)))
            if ev[0] == 'create':
                live.add(ev[1])
                compare(ev[2], w)
            elif ev[0] == 'begin':
                _, i, f, pi = ev
                e = E[i]
                e.begun += 1
                p = r.int(pi)
                if not 0 <= p < regs[i]['np']:
                    raise Violation('%s: policy %d of %d' % (w, p, regs[i]['np']))
                after += events > 0
                expl = 'Random' if ('explore=Random' in regs[i]['model'] or e.kind == 'Random') else 'RoundRobin'
                if e.kind in ('DecisionTree', 'RandomForest', 'RoundRobin') and e.trainable or e.kind == 'RoundRobin':
                    if expl == 'RoundRobin' and p != e.decisions % regs[i]['np']:
                        raise Violation('%s: exploring region %s takes policy %d, expected %d' % (w, regs[i]['name'], p, e.decisions % regs[i]['np']))
                    e.decisions += 1
                elif e.kind in ('DecisionTree', 'RandomForest'):
                    t = tuple(f)
                    best = e.model.get(t)
                    if e.kind == 'DecisionTree' and best and p not in best:
                        raise Violation('%s: region %s trained on %r takes policy %d for %r, fastest measured: %r' %
                                        (w, regs[i]['name'], e.ds, p, f, sorted(best)))
                    if p not in set().union(*e.model.values()):
                        raise Violation('%s: region %s takes policy %d, fastest for no measured features' % (w, regs[i]['name'], p))
                    if e.memo.setdefault(t, p) != p:
                        raise Violation('%s: decision for %r changed from %d to %d without training' % (w, f, e.memo[t], p))
                elif e.kind == 'Static' and p != 0:
                    raise Violation('%s: Static region takes policy %d' % (w, p))
            elif ev[0] == 'end':
                _, i, f, pi, m, obs = ev
                e = E[i]
                if persistent or e.trainable:
                    ema(e.ds, f, r.int(pi), m)
                tot += 1
                if e.trainable:
                    if G and tot % G == 0:
                        for j in range(len(regs)):
                            train(j)
                    elif P and e.begun % P == 0:
                        train(i)
                    elif 0 < regs[i]['mtd'] <= len(e.ds):
                        train(i)
                compare(obs, w)
            elif ev[0] == 'train':
                for j in range(len(regs)):
                    train(j)
                compare(ev[1], w)
            else:
                train(ev[1], ev[2])
                compare(ev[3], w)
        for i in nets:
            _, _, cnt = net.parse(k.read('net%d' % i, True), regs[i]['nf'], regs[i]['np'])
            if cnt != E[i].trainings:
                raise Violation('PolicyNet of region %s was trained %d times, expected %d' % (regs[i]['name'], cnt, E[i].trainings))
        if c['rerun']:
            s = S()
            s.seed(c['seed'])
            s.env(c['env'])
            ti = []
            for i, g in enumerate(regs):
                s.region(i, 'cpp', g['nf'], g['np'], g['mtd'], g['name'], g['model'], '')
                ti.append(s.trainable(i))
            r2 = k.run(s).need_ok('second run')
            for i, g in enumerate(regs):
                e = E[i]
                if not made[i]:
                    continue
                exp = e.canlearn and (e.kind == 'PolicyNet' or not (0 < g['mtd'] <= len(e.ds)))
                if r2.int(ti[i]) != int(exp):
                    raise Violation('second run: region %s with %d persisted entries and minimum training data %d is %s' %
                                    (g['name'], len(e.ds), g['mtd'], 'exploring' if r2.int(ti[i]) else 'trained'))
    cl = ['period %s' % x for x, v in (('global', G), ('region', P)) if v] + ['min data'] * any(g['mtd'] for g in regs) + ['rerun'] * c['rerun'] + \
         ['persistent'] * persistent
    return dict(nontrivial=events > 0 and after > 0, classes=cl, counts={'training events': events})
