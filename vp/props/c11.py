"""C11: model strings and settings."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import gen, net
from ..exe import S, Violation
from ..ref import parse_dtree, parse_forest
from .c17 import mpirun

RULE = ('generated model strings and settings: valid ones (default, Static, StaticRegion lists, Optimal schedules, tree models with any '
        'subset of parameters, given by environment or at region creation) whose effect is observed through decisions and stored '
        'models (PolicyNet hyper-parameters through the first training step), and invalid ones (mutated model names, parameters of other models, mutated keys, parameters for models without any, '
        'regions missing from lists, missing schedule files, contradictory settings, these also in MPI runs) that must end with an error; '
        'non-trivial: the configuration is not the default')
VARIANTS = ['base', 'mpi']
COUNT = {'quick': 15000, 'thorough': 60000}
ASSUMPTIONS = ['a refusal is abort() or an uncaught exception at the latest when the region is created']
PARAMS = {'Static': ['policy'], 'DecisionTree': ['max_depth', 'explore', 'load', 'load-dataset'],
          'RandomForest': ['num_trees', 'max_depth', 'explore', 'load', 'load-dataset'],
          'PolicyNet': ['lr', 'beta', 'beta1', 'beta2', 'threshold', 'load', 'load-dataset'], 'RoundRobin': [], 'Random': [], 'Optimal': [],
          'DatasetMap': []}
ALLP = sorted({p for v in PARAMS.values() for p in v})


@st.composite
def mutated(draw, word, valid):
    for _ in range(20):
        w = word
        k = draw(st.integers(0, 5))
        if k == 0:
            w = w.lower() if w.lower() != w else w.upper()
        elif k == 1:
            w = w[:-1]
        elif k == 2:
            w = w + draw(st.sampled_from(['s', '2', '_', ' ', 'Model', '.']))
        elif k == 3:
            i = draw(st.integers(0, len(w) - 1))
            w = w[:i] + draw(st.sampled_from('xyzQ_0')) + w[i + 1:]
        elif k == 4:
            w = ' ' + w
        else:
            w = draw(st.sampled_from(['', 'Foo', 'regress', 'Tree', 'Forest', 'None', 'depth', 'seed', '0']))
        if w not in valid:
            return w
    return 'Nonsense'


@st.composite
def valid_case(draw):
    npol = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.sampled_from([200, 257, 300, 1000, 70000])))
    nr = draw(st.integers(1, 3))
    names = draw(gen.region_names(nr))
    c = dict(mode='valid', np=npol, names=names, via=draw(st.sampled_from(['env', 'arg', 'both'])), other=draw(st.sampled_from(['Static,policy=0', 'Random', 'DecisionTree'])),
             api=draw(st.sampled_from(['cpp', 'c'])), execs=draw(st.integers(1, 12)))
    kind = draw(st.sampled_from(['default', 'Static', 'StaticRegion', 'Optimal', 'DecisionTree', 'RandomForest', 'RoundRobin', 'PolicyNet']))
    c['kind'] = kind
    if kind == 'Static':
        c['policy'] = draw(st.one_of(st.none(), st.integers(0, npol - 1)))
    elif kind == 'StaticRegion':
        c['pols'] = [draw(st.integers(0, npol - 1)) for _ in names]
        c['extra'] = draw(st.lists(st.tuples(st.sampled_from(['other', 'zz', 'r99', names[0] + 'x', names[0][:-1] or 'q']), st.integers(0, npol - 1)), max_size=2))
        c['perm'] = draw(st.integers(0, 5))
    elif kind == 'Optimal':
        c['scheds'] = [draw(st.lists(st.integers(0, npol - 1), min_size=1, max_size=12)) for _ in names]
        c['nl'] = draw(st.booleans())
    elif kind == 'PolicyNet':
        c['np'] = min(npol, 9)
        c['kv'] = [[k, draw(st.sampled_from(v))] for k, v in (('lr', ['0.01', '0.25', '0.001', '1e-2']), ('beta', ['0.5', '0.9', '0.25', '0']), ('beta1', ['0.5', '0.9', '0', '0.125']), ('beta2', ['0.9', '0.5', '0']), ('threshold', ['0', '2', '5.5', '1e-9'])) if draw(st.booleans())]
        c['perm'] = draw(st.integers(0, 5))
        c['mets'] = [draw(st.integers(0, 16)) / 8.0 for _ in range(draw(st.integers(2, 4)))]
    elif kind in ('DecisionTree', 'RandomForest'):
        c['depth'] = draw(st.one_of(st.none(), st.integers(0, 9), st.sampled_from([16, 100, 256, 300, 1000, 70000])))
        c['explore'] = draw(st.sampled_from([None, 'RoundRobin', 'RoundRobin', 'Static', 'Random']))
        if c['explore'] == 'Random':
            c['execs'] = 60
        c['trees'] = draw(st.one_of(st.none(), st.integers(1, 15), st.sampled_from([40, 100, 300]))) if kind == 'RandomForest' else None
        c['perm'] = draw(st.integers(0, 5))
    return c


@st.composite
def invalid_case(draw):
    kind = draw(st.sampled_from(sorted(PARAMS)))
    what = draw(st.sampled_from(['name', 'name', 'foreign', 'key', 'key', 'region', 'optimal', 'conflict', 'explore', 'staticpol']))
    c = dict(mode='invalid', what=what, np=draw(st.integers(1, 4)), via=draw(st.sampled_from(['env', 'arg'])), name=draw(gen.region_names(1))[0],
             api=draw(st.sampled_from(['cpp', 'c'])), env={})
    c['env'] = {}
    if what == 'name':
        w = draw(mutated(kind, set(PARAMS) | {'StaticRegion', ''}))
        if draw(st.integers(0, 9)) == 0:
            w = ''
        c['model'] = w + draw(st.sampled_from(['', '', ',policy=0', ',max_depth=2'] if w else [',policy=0', ',', ',max_depth=2', ',Static']))
    elif what == 'foreign':
        ps = [p for p in ALLP if p not in PARAMS[kind]]
        good = draw(st.sampled_from(['', ''] + [',%s=%s' % (p, {'explore': 'RoundRobin', 'policy': '0'}.get(p, '1')) for p in PARAMS[kind] if not p.startswith('load')]))
        bad = ',%s=%s' % (draw(st.sampled_from(ps)), draw(st.sampled_from(['1', '0', '2'])))
        c['model'] = kind + (good + bad if draw(st.booleans()) else bad + good)
    elif what == 'key':
        p = draw(st.sampled_from(PARAMS[kind] or ['policy', 'explore']))
        c['model'] = kind + ',%s=1' % draw(mutated(p, set(PARAMS[kind]) | {'explore'}))
    elif what == 'region':
        nm = c['name']
        others = [x for x in ['other', nm + 'x', 'x' + nm, nm[:-1], nm.upper(), nm.lower()] if x and x != nm]
        c['model'] = 'StaticRegion' + ''.join(',%s=0' % x for x in draw(st.lists(st.sampled_from(others), min_size=0, max_size=3)))
    elif what == 'optimal':
        c['model'] = 'Optimal'
        c['file'] = draw(st.sampled_from([None, 'opt-%s-rank-1.txt' % c['name'], 'opt-%s.txt' % c['name'], 'opt-other-rank-0.txt']))
    elif what == 'conflict':
        c['model'] = 'Static,policy=0'
        c['env'] = draw(st.sampled_from(CONFLICTS + [{'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 0}]))
    elif what == 'explore':
        c['model'] = draw(st.sampled_from(['DecisionTree', 'RandomForest'])) + ',explore=' + draw(mutated('RoundRobin', set(PARAMS)))
    else:
        c['model'] = 'Static,policy=' + draw(st.sampled_from(['-1', '-7', 'x', '', 'abc', '99999999999999']))
    return c


# contradictory in any build
CONFLICTS = [{'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 1}, {'APOLLO_COLLECTIVE_TRAINING': 0, 'APOLLO_LOCAL_TRAINING': 0},
             {'APOLLO_LOCAL_TRAINING': 0}, {'APOLLO_COLLECTIVE_TRAINING': 1},
             {'APOLLO_SINGLE_MODEL': 1}, {'APOLLO_SINGLE_MODEL': 1, 'APOLLO_REGION_MODEL': 1}, {'APOLLO_REGION_MODEL': 0},
             {'APOLLO_SINGLE_MODEL': 0, 'APOLLO_REGION_MODEL': 0}]


def fixed(tier, seed):
    for i, e in enumerate(CONFLICTS + [{'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 1, 'APOLLO_SINGLE_MODEL': 1, 'APOLLO_REGION_MODEL': 0},
                                       {'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 0, 'APOLLO_SINGLE_MODEL': 1, 'APOLLO_REGION_MODEL': 1},
                                       {'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 0, 'APOLLO_REGION_MODEL': 0}]):
        yield dict(mode='mpi', env=e, ranks=1 + (i + seed) % 2)
    # long lists and schedules
    names = ['r%d' % i for i in range(120)]
    base = dict(mode='valid', via='env', other='Random', api='cpp', np=600)
    yield dict(base, kind='StaticRegion', names=names, pols=[(i * 7) % 600 for i in range(120)], extra=[['zz%d' % i, 1] for i in range(200)], perm=50, execs=2)
    yield dict(base, kind='Optimal', names=['a', 'b'], scheds=[[(i * 13) % 600 for i in range(3000)], [599] * 5], nl=True, execs=3000)
    yield dict(base, kind='Static', names=['a'], policy=599, via='arg', execs=3)
    yield dict(base, kind='RoundRobin', names=['a', 'b'], execs=1300)
    yield dict(base, kind='RandomForest', np=3, names=['a'], execs=8, depth=1, trees=5000, explore=None, perm=1)
    if tier == 'thorough':
        yield dict(base, kind='RandomForest', np=3, names=['a'], execs=8, depth=None, trees=66000, explore='RoundRobin', perm=0, via='arg')


def strategy(tier):
    return st.one_of(valid_case(), invalid_case())


def check(c, ctx):
    return dict(valid=check_valid, invalid=check_invalid, mpi=check_mpi)[c['mode']](c, ctx)


def check_mpi(c, ctx):
    """contradictory settings in the MPI build"""
    with ctx.case() as k:
        scripts, at = [], []
        for _ in range(c['ranks']):
            s = S()
            s.env(c['env'])
            s.region(0, 'cpp', 1, 2, 0, 'r', 'Static,policy=0', '')
            at.append(s.echo('started'))
            scripts.append(s)
        kind, rc, err, runs = mpirun(k, ctx.exes['mpi'], scripts)
        if any(i in r.obs for i, r in zip(at, runs)) or kind != 'exit' or rc == 0:
            raise Violation('settings %r are not refused in an MPI run of %d rank(s): %s %d' % (c['env'], c['ranks'], kind, rc))
    return dict(nontrivial=True, classes=['invalid conflict, MPI'])


def rot(l, n):
    n %= max(1, len(l))
    return l[n:] + l[:n]


def two_steps(m, P, c, nets, blob, avg1):
    # the second training shows the decay of the moments
    last, avg, n = net.parse(blob, 1, c['np'])
    m2 = [.5 * x + .5 * y for x, y in zip(c['mets'], c['mets'][::-1])]
    want = P['beta'] * avg1 + (1 - P['beta']) * sum(math.exp(-x) for x in m2) / len(m2)
    if n != 2 or abs(avg - want) > 1e-9:
        raise Violation('model %r: average reward %r after %d trainings, expected %r after 2' % (m, avg, n, want))
    if P['threshold'] >= 2:
        if any((a != b).any() for a, b in zip(nets[1], last)):
            raise Violation('model %r learns although the average reward is below its threshold' % m)
        return
    adam, known = net.Adam(P['lr'], P['beta1'], P['beta2']), [True, True]
    X = np.array([net.encode([float(j)]) for j in range(len(c['mets']))])
    acts = np.array([j % c['np'] for j in range(len(c['mets']))])
    for t, (old, new, mets, av) in enumerate([(nets[0], nets[1], c['mets'], avg1), (nets[1], last, m2, avg)]):
        g, (k1, k2) = net.gradient(old, X, acts, np.array([math.exp(-x) for x in mets]) - av / (1 - P['beta'] ** (t + 1)))
        known = [known[0] and not k1 and not k2, known[1] and not k2]
        exp = adam.step(old, g)
        for i in range(6):
            d = np.abs(exp[i] - new[i])
            if (known + [True])[i // 2] and (d > 1e-5 * P['lr'] + 1e-10 * np.abs(old[i]) + 1e-5 * np.abs(exp[i] - old[i])).any():
                raise Violation('model %r: training %d changes layer %d by up to %.9g from what its parameters give' % (m, t + 1, i // 2 + 1, d.max()))


def check_valid(c, ctx):
    kind = c['kind']
    if kind == 'default':
        m = ''
    elif kind == 'Static':
        m = 'Static' + (',policy=%d' % c['policy'] if c['policy'] is not None else '')
    elif kind == 'StaticRegion':
        kv = ['%s=%d' % x for x in zip(c['names'], c['pols'])] + ['%s=%d' % (a, b) for a, b in c['extra'] if a not in c['names']]
        m = ','.join(['StaticRegion'] + rot(kv, c['perm']))
    elif kind in ('DecisionTree', 'RandomForest'):
        kv = []
        if c['depth'] is not None:
            kv.append('max_depth=%d' % c['depth'])
        if c['explore']:
            kv.append('explore=' + c['explore'])
        if c['trees'] is not None:
            kv.append('num_trees=%d' % c['trees'])
        m = ','.join([kind] + rot(kv, c['perm']))
    elif kind == 'PolicyNet':
        m = ','.join([kind] + rot(['%s=%s' % tuple(x) for x in c['kv']], c['perm']))
    else:
        m = kind
    s = S()
    arg = ''
    if kind != 'default':
        if c['via'] == 'env':
            s.env({'APOLLO_POLICY_MODEL': m})
        else:
            arg = m
            if c['via'] == 'both':
                s.env({'APOLLO_POLICY_MODEL': c['other']})
    dec = []
    with ctx.case() as k:
        if kind == 'Optimal':
            for n, sc in zip(c['names'], c['scheds']):
                k.write('opt-%s-rank-0.txt' % n, ','.join(map(str, sc)) + ('\n' if c['nl'] else ''))
        for i, n in enumerate(c['names']):
            s.region(i, c['api'], 1, c['np'], 0, n, arg, '')
        if kind == 'PolicyNet':
            for i in range(len(c['names'])):
                for j, x in enumerate(c['mets']):
                    s.rdins(i, [float(j)], j % c['np'], x)
                s.mstore(i, 'a%d' % i)
            s.train(1)
            for i in range(len(c['names'])):
                s.mstore(i, 'm%d' % i)
                for j, x in enumerate(c['mets'][::-1]):
                    s.rdins(i, [float(j)], j % c['np'], x)
            s.train(2)
            for i in range(len(c['names'])):
                s.mstore(i, 'n%d' % i)
        cnt = [0] * len(c['names'])
        for e in range(c['execs']):
            for i in range(len(c['names'])):
                if kind == 'Optimal' and cnt[i] >= len(c['scheds'][i]):
                    continue
                s.beginf(i, 1, [float(e % 3)])
                dec.append((i, cnt[i], s.pol(1)))
                cnt[i] += 1
                s.endm(1, 1.0 + e)
        if kind in ('DecisionTree', 'RandomForest'):
            s.train(1)
            for i in range(len(c['names'])):
                s.mstore(i, 'm%d' % i)
        ex = None
        if kind == 'Optimal':   # one decision beyond the schedule
            while cnt[0] < len(c['scheds'][0]):
                s.beginf(0, 1, [1.0])
                dec.append((0, cnt[0], s.pol(1)))
                cnt[0] += 1
                s.endm(1, 1.0)
            # the same schedule through the model factory
            s.mnewp(7, 'Optimal', c['np'], 'opt-%s-rank-0.txt' % c['names'][0])
            fac = [s.mget(7, [1.0]) for _ in c['scheds'][0]]
            s.beginf(0, 1, [1.0])
            ex = s.pol(1)
        r = k.run(s)
        if ex is None:
            r.need_ok('model string %r' % m)
        elif ex in r.obs or not r.refused:
            raise Violation('Optimal goes on after the end of its schedule: ' + r.status())
        if ex is not None and [r.int(x) for x in fac] != c['scheds'][0]:
            raise Violation('Optimal created from %s decides %r' % (c['scheds'][0], [r.int(x) for x in fac]))
        rnd = {}
        if kind == 'PolicyNet':
            pn = dict(lr=.01, beta=.5, beta1=.5, beta2=.9, threshold=0.0)
            pn.update({a: float(b) for a, b in c['kv']})
            for i in range(len(c['names'])):
                a, avg0, n0 = net.parse(k.read('a%d' % i, True), 1, c['np'])
                b, avg, n = net.parse(k.read('m%d' % i, True), 1, c['np'])
                R = [math.exp(-x) for x in c['mets']]
                want = (1 - pn['beta']) * sum(R) / len(R)
                if n != 1 or abs(avg - want) > 1e-9:
                    raise Violation('model %r: average reward %r after %d trainings, expected %r after 1' % (m, avg, n, want))
                step = max(float(abs(x - y).max()) for x, y in zip(a, b))
                if pn['threshold'] >= 2:
                    if step:
                        raise Violation('model %r learns although the average reward is below its threshold' % m)
                elif max(R) - min(R) > 0.01 and c['np'] > 1 and abs(step / pn['lr'] - 1) > 0.01:
                    raise Violation('model %r: the largest change of the first training is %r' % (m, step))
                two_steps(m, pn, c, [a, b], k.read('n%d' % i, True), avg)
        for i, e, pi in dec:
            p = r.int(pi)
            if kind == 'default':
                x = 0
            elif kind == 'Static':
                x = c['policy'] or 0
            elif kind == 'StaticRegion':
                x = c['pols'][i]
            elif kind == 'Optimal':
                x = c['scheds'][i][e]
            elif kind == 'PolicyNet':
                if pn['threshold'] < 2:
                    continue
                x = 0
            elif c.get('explore') == 'Static':
                x = 0
            elif c.get('explore') == 'Random':
                if not 0 <= p < c['np']:
                    raise Violation('model %r: exploration gives policy %d of %d' % (m, p, c['np']))
                rnd.setdefault(i, []).append(p)
                continue
            else:
                x = e % c['np']
            if p != x:
                raise Violation('model %r (given by %s, region %s): decision %d is policy %d, expected %d' % (m, c['via'], c['names'][i], e, p, x))
        for i, l in rnd.items():
            if c['np'] > 1 and (l == [j % c['np'] for j in range(len(l))] or len(set(l)) == 1):
                raise Violation('model %r does not explore at random: policies %r' % (m, l))
        for i in range(len(c['names'])):
            if kind == 'DecisionTree':
                d = parse_dtree(k.read('m%d' % i)).max_depth
                if d != (2 if c['depth'] is None else c['depth']):
                    raise Violation('model %r has maximum depth %d' % (m, d))
            elif kind == 'RandomForest':
                f = parse_forest(k.read('m%d' % i))
                if f['max_depth'] != (2 if c['depth'] is None else c['depth']) or len(f['trees']) != (c['trees'] or 10) or f['num_trees'] != len(f['trees']):
                    raise Violation('model %r has %d trees of maximum depth %d' % (m, len(f['trees']), f['max_depth']))
    return dict(nontrivial=kind != 'default', classes=['valid ' + kind, 'by ' + c['via']])


def check_invalid(c, ctx):
    s = S()
    s.env(c['env'])
    if c['via'] == 'env':
        s.env({'APOLLO_POLICY_MODEL': c['model']})
    with ctx.case() as k:
        if c.get('file'):
            k.write(c['file'], '0,0,0')
        s.region(0, c['api'], 1, c['np'], 0, c['name'], '' if c['via'] == 'env' else c['model'], '')
        i = s.echo('started')
        r = k.run(s)
        if i in r.obs or not r.refused:
            raise Violation('model %r with settings %r (given by %s, region %s) is not refused: %s' % (c['model'], c['env'], c['via'], c['name'], r.status()))
    return dict(nontrivial=True, classes=['invalid ' + c['what']])
