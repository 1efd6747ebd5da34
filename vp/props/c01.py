"""C01: every recommended policy is valid."""
import random
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation

RULE = ('random histories of executions, trainings (explicit, automatic, forced, single-model), model stores and loads in one or two '
        'program runs on 1..3 regions with any model (all model types and parameter values, 1..12, 40, 130 or 300 policies, 0..4 or 9 features, any '
        'finite feature values); every recommended policy must be in range; a part of the histories runs with the address '
        'sanitizer; non-trivial: decisions were made both before and after a training or load, with at least two policies')
COUNT = {'quick': 8000, 'thorough': 80000}
VARIANTS = ['base', 'asan']
ASSUMPTIONS = ['features are finite', 'files that are loaded were stored by a region with the same number of features and policies',
               'an optimal-schedule file names valid policies']


@st.composite
def model(draw, npol):
    k = draw(st.sampled_from(['Static', 'Static', 'RoundRobin', 'Random', 'DecisionTree', 'DecisionTree', 'RandomForest', 'RandomForest', 'PolicyNet', '']))
    if k == 'Static':
        return 'Static,policy=%d' % draw(st.sampled_from([0, npol - 1, npol, npol + 1, 1000, 2147483647, draw(st.integers(0, npol))]))
    p = []
    if k in ('DecisionTree', 'RandomForest'):
        if draw(st.booleans()):
            p.append('max_depth=%d' % draw(st.sampled_from([0, 1, 2, 5, 30])))
        if draw(st.booleans()):
            p.append('explore=' + draw(st.sampled_from(['RoundRobin', 'Random'])))
        if k == 'RandomForest' and draw(st.booleans()):
            p.append('num_trees=%d' % draw(st.sampled_from([0, 1, 2, 3, 9])))
    if k == 'PolicyNet':
        for n, vs in (('lr', ['0', '1e-2', '0.5', '10']), ('beta', ['0.5', '0', '0.9']), ('threshold', ['0', '0.3', '1', '-1'])):
            if draw(st.booleans()):
                p.append('%s=%s' % (n, draw(st.sampled_from(vs))))
    return ','.join([k] + p)


@st.composite
def strategy_(draw):
    nr = draw(st.integers(1, 3))
    names = draw(gen.region_names(nr))
    single = draw(st.integers(0, 5)) == 0
    regs = []
    shape = None
    for i in range(nr):
        if single and shape:
            nf, npol, m = shape
        else:
            nf = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 4, 9]))
            npol = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 5, 5, 12, 40, 130, 300]))
            m = draw(model(npol))
            if m.startswith('PolicyNet'):
                nf = min(nf, 2)
            shape = (nf, npol, m)
        regs.append(dict(name=names[i], nf=nf, np=npol, model=m, mtd=0 if single else draw(st.sampled_from([0, 0, 2, 5])), vecs=draw(gen.vectors(nf, 5))))
    env = {}
    if single:
        env = {'APOLLO_SINGLE_MODEL': 1, 'APOLLO_REGION_MODEL': 0}
    elif draw(st.integers(0, 2)) == 0:
        env['APOLLO_PER_REGION_TRAIN_PERIOD'] = draw(st.integers(2, 8))
    if draw(st.integers(0, 2)) == 0:
        env['APOLLO_GLOBAL_TRAIN_PERIOD'] = draw(st.integers(2, 12))
    if draw(st.integers(0, 3)) == 0:
        env['APOLLO_PERSISTENT_DATASETS'] = 1
    ops = []
    for _ in range(draw(st.integers(2, 30))):
        r = draw(st.integers(0, nr - 1))
        x = draw(st.integers(0, 15))
        if x < 12:
            ops.append(['x', r, draw(st.integers(0, 4)), draw(gen.pos_metric)])
        elif x < 13:
            ops.append(['train', draw(gen.step)])
        elif x < 14:
            ops.append(['force', r])
        else:
            ops.append(['reload', r])
    return dict(regs=regs, env=env, ops=ops, seed=draw(st.integers(0, 10**6)), single=single, rerun=draw(st.booleans()), asan=draw(st.integers(0, 5)) == 0,
                neg=draw(st.one_of(st.none(), st.integers(1, 5))) if draw(st.integers(0, 9)) == 0 else None)


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # sizes beyond 8-bit counters: features, policies, feature vectors, executions, trees
    rng = random.Random('c01-%s' % seed)
    for k, (nf, npol, model) in enumerate([(300, 300, 'DecisionTree,max_depth=30'), (260, 270, 'RandomForest,num_trees=300,max_depth=6'), (9, 3, 'PolicyNet'), (2, 400, 'PolicyNet'),
                                           (1, 70000, 'RoundRobin'), (1, 40000, 'Random'), (3, 65536, 'Static,policy=65535')]):
        vecs = [[float(rng.randrange(9)) for _ in range(nf)] for _ in range(300 if nf < 9 else 12)]
        ops = [['x', 0, i, rng.randrange(1, 99) / 8.0] for i in range(320)]
        ops = ops[:300] + [['train', 3]] + ops[300:] + [['force', 0], ['reload', 0]]
        yield dict(regs=[dict(name='big', nf=nf, np=npol, model=model, mtd=0, vecs=vecs)], env={}, ops=ops, seed=k, single=False, rerun=k % 2 == 0, asan=False, neg=None)
    # more policies than fit on a stack
    for k, model in enumerate(['RandomForest,num_trees=3', 'DecisionTree', 'RoundRobin', 'Random']):
        ops = [['x', 0, i, rng.randrange(1, 99) / 8.0] for i in range(12)]
        yield dict(regs=[dict(name='huge', nf=2, np=3000000, model=model, mtd=0, vecs=[[float(rng.randrange(9)), 0.5] for _ in range(6)])], env={},
                   ops=ops + [['train', 3]] + ops[:5] + [['force', 0], ['reload', 0]], seed=k, single=False, rerun=True, asan=False, neg=None)


def check(c, ctx):
    regs = c['regs']
    trains = 0
    n1 = 0
    with ctx.case() as k:
        for run in range(2 if c['rerun'] else 1):
            s = S()
            s.seed(c['seed'] + run)
            s.env(c['env'])
            s.env({'APOLLO_STORE_MODELS': 1})
            dec = []
            seen = [False] * len(regs)
            for i, g in enumerate(regs):
                m = g['model']
                kind = m.split(',')[0]
                if run == 1 and kind in ('DecisionTree', 'RandomForest', 'PolicyNet') and k.exists('.apollo/models/%s-latest-rank-0-%s.yaml' % (kind, g['name'])):
                    m = kind + ',load'
                    trains += 1
                s.region(i, 'cpp', g['nf'], g['np'], g['mtd'], g['name'], m, '')
            meas = [0] * len(regs)
            for n, op in enumerate(c['ops'] if run == 0 else c['ops'][::-1]):
                if op[0] == 'x':
                    i = op[1]
                    f = regs[i]['vecs'][op[2] % len(regs[i]['vecs'])]
                    s.beginf(i, 1, f)
                    dec.append((i, f, s.pol(1)))
                    s.endm(1, float(op[3]))
                    meas[i] += 1
                elif op[0] == 'train':
                    if not c['single'] or sum(meas):
                        s.train(op[1])
                        trains += 1
                elif op[0] == 'force':
                    if not c['single'] and meas[op[1]]:
                        s.rtrain(op[1], n, 1, 1)
                        s.mstore(op[1], 'M%d' % op[1])
                        seen[op[1]] = True
                        trains += 1
                elif op[0] == 'reload' and seen[op[1]] and regs[op[1]]['model'].split(',')[0] in ('DecisionTree', 'RandomForest', 'PolicyNet'):
                    s.mload(op[1], 'M%d' % op[1])
            for i, g in enumerate(regs):
                for f in g['vecs']:
                    s.beginf(i, 1, f)
                    dec.append((i, f, s.pol(1)))
                    s.endm(1, 1.0)
            r = k.run(s, variant='asan' if c['asan'] else 'base').need_ok('history, run %d' % run)
            for i, f, pi in dec:
                p = r.int(pi)
                if not 0 <= p < regs[i]['np']:
                    raise Violation('region %s (%s, %d policies) recommends policy %d for features %r' %
                                    (regs[i]['name'], regs[i]['model'], regs[i]['np'], p, f))
                m = regs[i]['model']
                if m.startswith('Static'):
                    w = int(m.split('=')[1])
                    if p != (w if w < regs[i]['np'] else 0):
                        raise Violation('%s with %d policies recommends %d' % (m, regs[i]['np'], p))
            n1 += len(dec)
        if c['neg']:
            s = S()
            s.region(0, 'cpp', 1, regs[0]['np'], 0, 'neg', 'Static,policy=-%d' % c['neg'], '')
            i = s.echo('started')
            r = k.run(s)
            if i in r.obs or not r.refused:
                raise Violation('Static,policy=-%d is not refused: %s' % (c['neg'], r.status()))
    return dict(nontrivial=trains > 0 and n1 > 1 and any(g['np'] > 1 for g in regs), counts={'decisions': n1},
                classes=sorted({g['model'].split(',')[0] or 'default' for g in regs}) + ['single'] * c['single'] + ['asan'] * c['asan'] + ['two runs'] * c['rerun'])
