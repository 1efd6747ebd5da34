"""C14: traces and execution reports."""
import random, os
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation

RULE = ('random histories on 1..4 regions (nested and, with event timing, overlapping executions ended in any order, explicit metrics and trained/untrained models) with CSV traces, execution info, '
        'decision traces and/or best-policy traces in configured directories; every trace row, the report and the total at exit are compared with the history (completion order, '
        'index, features, policy, metric at 6 significant digits); non-trivial: at least two regions or ten rows')
VARIANTS = ['base', 'async']
COUNT = {'quick': 8000, 'thorough': 80000}
ASSUMPTIONS = ['region names have no white space; numbers are compared at 6 significant digits; decision and best-policy traces give the integer part of features (not compared beyond 32 bits)', 'timestamps of the global trace are only required to be integers']
MODELS = ['DecisionTree', 'RandomForest,num_trees=2', 'Static,policy=0', 'Static,policy=1', 'RoundRobin', 'Random', 'DecisionTree,explore=Random,max_depth=3', 'PolicyNet', '']


@st.composite
def strategy_(draw):
    nr = draw(st.integers(1, 4))
    names = draw(gen.region_names(nr))
    regs = []
    for i in range(nr):
        m = draw(st.sampled_from(MODELS))
        nf = 1 if m == 'PolicyNet' else draw(st.integers(0, 3))
        regs.append(dict(name=names[i], nf=nf, np=draw(st.integers(1, 4)), model=m, vecs=draw(gen.vectors(nf, 3, styles=['small'] if m == 'PolicyNet' else gen.ALL))))
    asy = draw(st.integers(0, 2)) == 0
    ops = []
    for _ in range(draw(st.integers(0, 24))):
        r = draw(st.integers(0, nr - 1))
        if draw(st.integers(0, 11)) == 0:
            ops.append(['train', draw(gen.step)])
        else:
            ops.append(['x', r, draw(st.integers(0, 2)), draw(gen.metric), draw(st.sampled_from([0, 1, 2, 4] if asy else [0, 0, 1, 2])), draw(st.booleans()),
                        draw(st.sampled_from(['cuda', 'cuda', 'hip', 'sync'])) if asy else 'sync', draw(st.integers(0, 4)), draw(st.sampled_from([1, 1, 1, 1, 2, 3]))])
    env = {}
    k = draw(st.sampled_from(['trace', 'trace', 'both', 'both', 'info', 'none']))
    if k in ('trace', 'both'):
        env['APOLLO_TRACE_CSV'] = 1
    if k in ('info', 'both'):
        env['APOLLO_STORE_EXEC_INFO'] = 1
    if draw(st.integers(0, 3)) == 0:
        env['APOLLO_TRACE_POLICY'] = 1
    if draw(st.integers(0, 3)) == 0:
        env['APOLLO_TRACE_BEST_POLICIES'] = 1
    if draw(st.booleans()):
        env['APOLLO_OUTPUT_DIR'] = 'out.d'
    if draw(st.booleans()):
        env['APOLLO_TRACES_DIR'] = 'tr'
    return dict(regs=regs, ops=ops, env=env, asy=asy, seed=draw(st.integers(0, 10**6)), envmodel=draw(st.sampled_from([None, None, 'RoundRobin', 'DecisionTree'])), twice=draw(st.integers(0, 3)) == 2)


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    rng = random.Random('c14-%s' % seed)
    for k in range(3):
        regs = [dict(name='r%d' % i, nf=[1, 2, 300][k] if i == 0 else 1, np=300, model=['RoundRobin', 'DecisionTree', 'Random'][k], vecs=[[float(rng.randrange(99)) for _ in range([1, 2, 300][k] if i == 0 else 1)] for _ in range(3)])
                for i in range([2, 300, 2][k])]
        ops = [['x', rng.randrange(len(regs)), rng.randrange(3), rng.randrange(1, 9999) / 64.0, 0, False, 'sync', 0] for _ in range(900)]
        yield dict(regs=regs, ops=ops, env={'APOLLO_TRACE_CSV': 1, 'APOLLO_STORE_EXEC_INFO': 1}, asy=False, seed=k, envmodel=None)
    # policies and metrics of many digits
    for m in ('Static,policy=99999', 'Random', 'Static,policy=2147483646'):
        yield dict(regs=[dict(name='big', nf=1, np=2147483647 if '6' in m else 100000, model=m, vecs=[[123456.0]])], ops=[['x', 0, 0, x, 0, False, 'sync', 0] for x in (1.5, 123456.5, 99999.5, 1e9, 1e-9)] * 5,
                   env={'APOLLO_TRACE_CSV': 1, 'APOLLO_TRACE_POLICY': 1, 'APOLLO_TRACE_BEST_POLICIES': 1}, asy=False, seed=8, envmodel=None)
    # reductions of many feature vectors
    many = [[float(i % 1000), float(i // 7)] for i in range(1200)]
    yield dict(regs=[dict(name='vecs', nf=2, np=3, model='DecisionTree', vecs=many)], ops=[['x', 0, i % 1200, rng.randrange(1, 9999) / 64.0, 0, False, 'sync', 0] for i in range(2500)] + [['train', 4]],
               env={'APOLLO_TRACE_BEST_POLICIES': 1, 'APOLLO_TRACE_CSV': 1, 'APOLLO_TRACE_POLICY': 1}, asy=False, seed=10, envmodel=None, twice=True)
    # more executions than fit 16 bits
    yield dict(regs=[dict(name='dev', nf=1, np=3, model='RoundRobin', vecs=[[7.0]])], ops=[['x', 0, 0, 1.5, 2, False, 'cuda' if i % 3 else 'hip', 0] for i in range(66000)], env={'APOLLO_TRACE_CSV': 1, 'APOLLO_STORE_EXEC_INFO': 1}, asy=True, seed=9, envmodel=None)
    yield dict(regs=[dict(name='long', nf=1, np=3, model='RoundRobin', vecs=[[7.0]])], ops=[['x', 0, 0, 1.5, 0, False, 'sync', 0]] * 66000, env={'APOLLO_TRACE_CSV': 1, 'APOLLO_STORE_EXEC_INFO': 1}, asy=False, seed=9, envmodel=None)


def same6(text, v):
    try:
        x = float(text)
    except ValueError:
        return False
    return x == v or abs(x - v) <= 1.01e-5 * abs(v) * .5 or abs(x - v) <= 1e-44


def whole(text, v):
    # features are traced as integers
    return text == str(int(v)) or abs(v) >= 2**31 and text.lstrip('-').isdigit()


def check(c, ctx):
    decisions, trainings, total = [], [], 0
    s = S()
    s.seed(c['seed'])
    s.env(c['env'])
    if c['envmodel']:
        s.env({'APOLLO_POLICY_MODEL': c['envmodel']})
    regs = c['regs']
    for i, g in enumerate(regs):
        s.region(i, 'cpp', g['nf'], g['np'], 0, g['name'], g['model'], '')
    open_ = []
    begun = [0] * len(regs)
    log = []

    def finish(n):
        r, sl, pi, op, idx = open_.pop(n % len(open_))
        op = op[:5] + [op[5] and op[6] == 'sync'] + op[6:]
        s.endm(sl, float(op[3])) if not op[5] else s.endmd(r, float(op[3]))
        log.append((r, idx, regs[r]['vecs'][op[2] % len(regs[r]['vecs'])], pi, op[3]))
    slot = 0
    for op in c['ops']:
        if op[0] == 'train':
            if c['env'].get('APOLLO_TRACE_BEST_POLICIES'):
                trainings.append((op[1], [(s.trainable(i), s.ds(i)) for i in range(len(regs))]))
            s.train(op[1])
            continue
        r = op[1]
        free = op[5] and op[6] == 'sync'
        while open_ and len(open_) > op[4]:
            finish(op[7])
        # one open synchronous execution per region; the context-free interface knows one execution per region
        for o in list(open_):
            if o[0] == r and (free or o[3][6] == 'sync' and (o[3][5] or op[6] == 'sync')):
                finish(open_.index(o))
        slot += 1
        f = regs[r]['vecs'][op[2] % len(regs[r]['vecs'])]
        if free:
            s.begind(r)
            for x in f:
                s.featd(r, x)
        elif op[6] == 'sync':
            s.beginf(r, slot, f)
        else:
            s.op('begin', r, slot, op[6])
            for x in f:
                s.feat(slot, x)
        for _ in range(op[8] if len(op) > 8 else 1):
            pi = s.pold(r) if free else s.pol(slot)
            decisions.append((r, f, pi))
        open_.append((r, slot, pi, op, begun[r]))
        begun[r] += 1
    while open_:
        finish(len(log) // 2)
    out = c['env'].get('APOLLO_OUTPUT_DIR', '.apollo')
    tdir = out + '/' + c['env'].get('APOLLO_TRACES_DIR', 'traces')
    with ctx.case() as k:
        if c.get('twice'):
            # an earlier run in the same directory: traces and report are those of the last run, decisions are added to the list
            k.run(s, 'async' if c['asy'] else 'base').need_ok('earlier run')
        r = k.run(s, 'async' if c['asy'] else 'base').need_ok('history')
        infos = [g['model'] or c['envmodel'] or 'Static,policy=0' for g in regs]
        want = set()
        if c['env'].get('APOLLO_TRACE_CSV'):
            for i, g in enumerate(regs):
                fn = '%s/trace-%s-region-%s-rank-0.csv' % (tdir, infos[i], g['name'])
                want.add(fn)
                if not k.exists(fn):
                    raise Violation('no trace file %s, there are: %r' % (fn, k.files(out)))
                lines = k.read(fn).split('\n')
                if lines[-1] != '':
                    raise Violation('%s: the last row is incomplete' % fn)
                lines.pop()
                head = ('rankid training region idx ' + ''.join('f%d ' % j for j in range(g['nf'])) + 'policy xtime').split()
                if not lines or lines[0].split() != head:
                    raise Violation('%s: header %r, expected %r' % (fn, lines[:1], ' '.join(head)))
                exp = [e for e in log if e[0] == i]
                if len(lines) - 1 != len(exp):
                    raise Violation('%s: %d rows for %d completed executions' % (fn, len(lines) - 1, len(exp)))
                for row, (_, idx, f, pi, m) in zip(lines[1:], exp):
                    w = row.split()
                    p = r.int(pi)
                    ok = len(w) == 6 + len(f) and w[0] == '0' and w[1].split(',')[0] == infos[i].split(',')[0] and w[2] == g['name'] and w[3] == str(idx) and \
                        all(same6(a, b) for a, b in zip(w[4:], f)) and w[-2] == str(p) and same6(w[-1], m)
                    if not ok:
                        raise Violation('%s: row %r, the execution was: model %s region %s index %d features %r policy %d metric %r' %
                                        (fn, row, infos[i].split(',')[0], g['name'], idx, f, p, m))
            fn = tdir + '/trace-rank-0.csv'
            want.add(fn)
            if not k.exists(fn):
                raise Violation('no global trace file %s, there are: %r' % (fn, k.files(out)))
            lines = k.read(fn).split('\n')
            if lines[0] != '# timestamp (us), region, idx, model, policy':
                raise Violation('%s: header %r' % (fn, lines[0]))
            rows = [x.split() for x in lines[1:] if x]
            if len(rows) != len(log):
                raise Violation('%s: %d rows for %d completed executions' % (fn, len(rows), len(log)))
            for w, (i, idx, f, pi, m) in zip(rows, log):
                e = [regs[i]['name'], str(idx), infos[i].split(',')[0], str(r.int(pi))]
                if len(w) != 5 or w[1:] != e or not w[0].isdigit():
                    raise Violation('%s: row %r, expected %r' % (fn, w, e))
        elif any('trace' in os.path.basename(f) for f in k.files(out)):
            raise Violation('trace files although tracing is off: %r' % k.files(out))
        fn = out + '/apollo_exec_info.csv'
        if c['env'].get('APOLLO_STORE_EXEC_INFO'):
            if not k.exists(fn):
                raise Violation('no execution report %s, there are: %r' % (fn, k.files(out)))
            got = sorted(tuple(x.strip() for x in l.rsplit(',', 1)) for l in k.read(fn).split('\n') if l)
            exp = sorted((g['name'], str(begun[i])) for i, g in enumerate(regs))
            if got != exp:
                raise Violation('execution report %r, expected %r' % (got, exp))
        elif k.exists(fn):
            raise Violation('an execution report although it is off')
        # every decision, in order
        fn = 'rank-0-policies.txt'
        if c['env'].get('APOLLO_TRACE_POLICY'):
            lines = k.read(fn).split('\n') if decisions else ['']
            all_ = len(decisions) * (2 if c.get('twice') else 1)
            if len(lines) - 1 != all_ or lines[-1]:
                raise Violation('%s: %d rows for %d decisions' % (fn, len(lines) - 1, all_))
            for row, (i, f, pi) in zip(lines[all_ - len(decisions):], decisions):
                a, _, b = row.partition(' features ')
                w = a.split(',')[0].split() + ['features'] + b.replace(',', ' ').split()
                e = ['Rank', '0', 'region', regs[i]['name'], 'model', infos[i].split(',')[0], 'features', '[']
                if w[:8] != e or w[-3:] != [']', 'policy', str(r.int(pi))] or len(w) != 11 + len(f) or not all(whole(a, b) for a, b in zip(w[8:], f)):
                    raise Violation('%s: row %r, the decision was: %s features %r policy %d' % (fn, row, ' '.join(e[:6]), f, r.int(pi)))
        elif k.exists(fn):
            raise Violation('decisions are traced although it is off')
        # the reduced data of every training
        last = {}
        for step, st_ in trainings:
            for i, (ti, di) in enumerate(st_):
                d = r.ds(di)
                if r.int(ti) and d:
                    last['step-%d-rank-0-%s-best_policies.txt' % (step, regs[i]['name'])] = (i, d)
        have = [f for f in k.files() if f.endswith('best_policies.txt')]
        if sorted(last) != have:
            raise Violation('best policy files %r, expected %r' % (have, sorted(last)))
        for fn, (i, d) in last.items():
            lines = k.read(fn).split('\n')
            if lines[0] != '=== Rank 0 BEST POLICIES Region %s ===' % regs[i]['name']:
                raise Violation('%s: header %r' % (fn, lines[0]))
            vs = sorted({f for f, _ in d})
            if len(lines) - 2 != len(vs):
                raise Violation('%s: %d rows for %d feature vectors' % (fn, len(lines) - 2, len(vs)))
            for row, f in zip(lines[1:], vs):
                w = row.replace(',', ' ').split()
                m = min(x for (g, _), x in d.items() if g == f)
                best = ['P:%d' % p for (g, p), x in d.items() if g == f and x == m]
                if len(w) != 5 + len(f) or w[0] != '[' or not all(whole(a, b) for a, b in zip(w[1:], f)) or w[-4] != ']' or w[-3] not in best or not same6(w[-1], m):
                    raise Violation('%s: row %r, expected features %r, policy %s, metric %r' % (fn, row, f, ' or '.join(best), m))
        tot = [l for l in r.err.split('\n') if l.startswith('Apollo: total region executions:')]
        if len(tot) != 1 or int(tot[0].split(':')[2]) != len(log):
            raise Violation('the total reported at exit is %r after %d executions' % (tot, len(log)))
    return dict(nontrivial=bool(c['env']) and (len(regs) > 1 or len(log) > 10) and len(log) > 0, classes=['asynchronous'] * c['asy'] + ['trace'] * bool(c['env'].get('APOLLO_TRACE_CSV')) +
                ['info'] * bool(c['env'].get('APOLLO_STORE_EXEC_INFO')) + ['decisions'] * bool(c['env'].get('APOLLO_TRACE_POLICY')) + ['reductions'] * (len(trainings) > 0), counts={'rows': len(log)})
