"""C21: all interfaces behave identically."""
from hypothesis import strategies as st
from .. import hist
from ..exe import Violation

RULE = ('metamorphic: one random history (1..4 regions, all models, periods, minimum data, trainings, nested executions, scripted clock) is '
        'run through explicit contexts with features set one by one, contexts begun with a feature vector, context-free calls, the '
        'extern "C" functions and a mix of them; decisions, training states, datasets after every operation and final stored models '
        'must be identical; fixed cases run 1200 operations, one with 310 policies; non-trivial: a region was trained and at least five decisions were made')
COUNT = {'quick': 7500, 'thorough': 50000}
ASSUMPTIONS = ['random_device is replaced by a fixed value and the monotonic clock is scripted, so all runs see the same random numbers and times',
               'one open synchronous execution per region at a time']


@st.composite
def strategy_(draw):
    withm = draw(st.booleans())
    h = draw(hist.history(metrics=withm))
    return dict(h=h, withm=withm, mix=draw(st.lists(st.integers(0, 3), min_size=1, max_size=8)), pers=draw(st.integers(0, 3)) == 0)


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    return [dict(h=hist.long_history(seed * 10 + i + 100, 1200 if tier == 'quick' else 3000, metrics=m), withm=m, mix=[0, 3, 1, 2, 2, 0, 1], pers=i == 2) for i, m in enumerate([False, True, False, False])] + \
        [dict(h=hist.long_history(seed * 10 + 200, 1200, models=['RoundRobin', 'Static,policy=300', 'DecisionTree,max_depth=64', 'Random'], nps=310, nr=4), withm=False, mix=[0, 3, 1, 2, 2, 0, 1], pers=False)] + \
        [dict(h=hist.long_history(seed * 10 + 300, 200, models=['Static,policy=70001', 'DecisionTree,max_depth=64,explore=Random', 'Random'], nps=200000, nr=3), withm=False, mix=[0, 3, 1, 2, 2, 0, 1], pers=True)]


def check(c, ctx):
    h = c['h']
    explicit = any(o[0] == 'x' and o[3] is not None for o in h['ops'])
    apis = ['ctx', 'ctxf', 'free'] + ([] if explicit else ['c'])
    mixed = [apis[i % len(apis)] for i in c['mix']]
    runs = [(a, (lambda n, a=a: a), 'c' if a == 'c' else 'cpp') for a in apis] + [('a mix of interfaces', lambda n: mixed[n % len(mixed)], 'cpp')]
    env = {'APOLLO_PERSISTENT_DATASETS': 1} if c['pers'] else None
    regs = h['regs']
    ref = None
    store = [i for i, g in enumerate(regs) if g['model'].startswith('PolicyNet')]
    for name, f, rapi in runs:
        s, ob = hist.render(h, f, env=env, store=store, region_api=rapi)
        with ctx.case() as k:
            r = k.run(s).need_ok('history through ' + name)
            if ref is None:
                # store the models that are trained at the end, too
                last = {}
                for w, i, a, t in ob:
                    if w == 'trainable':
                        last[i] = r.int(a)
                store = sorted(set(store) | {i for i, v in last.items() if not v and regs[i]['model'][0] in 'DR' and regs[i]['model'] not in ('RoundRobin', 'Random')})
                s, ob = hist.render(h, f, env=env, store=store, region_api=rapi)
                with ctx.case() as k2:
                    r = k2.run(s).need_ok('history through ' + name)
                    ref = (name, r, ob, [k2.read('model-%d' % i, True) for i in store])
                continue
            models = [k.read('model-%d' % i, True) for i in store]
        for (w, i, a, t), (_, _, b, _) in zip(ref[2], ob):
            x, y = (ref[1].ds(a), r.ds(b)) if w == 'ds' else (ref[1].int(a), r.int(b))
            if x != y:
                raise Violation('%s, region %s: %s is %r through %s and %r through %s' % (t, regs[i]['name'], w, x, ref[0], y, name))
        for i, x, y in zip(store, ref[3], models):
            if x != y:
                raise Violation('the final model of region %s differs between %s and %s' % (regs[i]['name'], ref[0], name))
    dec = sum(1 for o in ref[2] if o[0] == 'policy')
    return dict(nontrivial=dec >= 5 and len(store) > 0, classes=['with C interface'] * (not explicit) + ['persistent'] * c['pers'], counts={'runs': len(runs), 'models compared': len(store)})
