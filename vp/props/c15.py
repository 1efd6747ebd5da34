"""C15: observability options do not change tuning."""
from hypothesis import strategies as st
from .. import hist
from ..exe import S, Violation

RULE = ('metamorphic: one random history (1..4 regions, some created late, all models, train periods, minimum data, explicit trainings, '
        'nested executions) is run with all options off and with a random non-empty subset of CSV tracing, policy tracing, best-policy '
        'tracing, model storing, execution info and dataset persistence on, in fresh directories; every decision, training state and, '
        'while trainable, dataset must be the same; fixed cases run 500 and 1400 operations; non-trivial: a trainable region made decisions')
COUNT = {'quick': 8000, 'thorough': 80000}
ASSUMPTIONS = ['random_device is replaced by a fixed value, so both runs draw the same random numbers', 'per-region models; no forced training of a trained model']
OPTS = ['APOLLO_TRACE_CSV', 'APOLLO_TRACE_POLICY', 'APOLLO_TRACE_BEST_POLICIES', 'APOLLO_STORE_MODELS', 'APOLLO_STORE_EXEC_INFO', 'APOLLO_PERSISTENT_DATASETS',
        'APOLLO_TRACE_RETRAIN', 'APOLLO_TRACE_ALLGATHER']


@st.composite
def strategy_(draw):
    h = draw(hist.history())
    on = draw(st.one_of(st.lists(st.sampled_from(OPTS), min_size=1, max_size=4, unique=True), st.just(OPTS[:6]), st.just(['APOLLO_PERSISTENT_DATASETS'])))
    return dict(h=h, on=on, dirs=draw(st.booleans()), api=draw(st.sampled_from(['ctx', 'ctxf', 'free'])))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    return [dict(h=hist.long_history(seed * 10 + i, [500, 1400][i % 2] * (1 if tier == 'quick' else 4), metrics=i % 2 == 0), on=on, dirs=i % 2 == 1, api=['ctx', 'free'][i % 2])
            for i, on in enumerate([OPTS[:6], ['APOLLO_TRACE_BEST_POLICIES'], OPTS, ['APOLLO_PERSISTENT_DATASETS'], ['APOLLO_TRACE_CSV', 'APOLLO_STORE_MODELS'], OPTS[1:5]])]


def check(c, ctx):
    env = {o: 1 for o in c['on']}
    if c['dirs']:
        env.update(APOLLO_OUTPUT_DIR='o', APOLLO_MODELS_DIR='m', APOLLO_DATASETS_DIR='d', APOLLO_TRACES_DIR='t')
    s0, ob = hist.render(c['h'], lambda n: c['api'])
    s1, ob1 = hist.render(c['h'], lambda n: c['api'], env=env)
    with ctx.case() as k:
        r0 = k.run(s0).need_ok('history without options')
    with ctx.case() as k:
        r1 = k.run(s1).need_ok('history with %s' % ', '.join(c['on']))
    regs = c['h']['regs']
    tr = {}
    dec = trained = 0
    for (w, i, a, t), (_, _, b, _) in zip(ob, ob1):
        if w == 'policy':
            dec += tr.get(i, False)
            if r0.int(a) != r1.int(b):
                raise Violation('%s of region %s: policy %d, with %s policy %d' % (t, regs[i]['name'], r0.int(a), ', '.join(c['on']), r1.int(b)))
        elif w == 'trainable':
            if r0.int(a) != r1.int(b):
                raise Violation('%s: region %s is %s, with %s %s' % (t, regs[i]['name'], 'trainable' if r0.int(a) else 'trained', ', '.join(c['on']),
                                                                     'trainable' if r1.int(b) else 'trained'))
            trained += tr.get(i, False) and not r0.int(a)
            tr[i] = bool(r0.int(a))
        elif tr[i] and r0.ds(a) != r1.ds(b):
            raise Violation('%s: measurements of region %s are %r, with %s %r' % (t, regs[i]['name'], r0.ds(a), ', '.join(c['on']), r1.ds(b)))
    return dict(nontrivial=dec > 0, classes=[o[7:] for o in c['on']] + ['trained'] * (trained > 0))
