"""C12: asynchronous executions are each recorded once, with their own data."""
import random
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation
from ..ref import close, ema

RULE = ('random schedules of asynchronous executions (CUDA and HIP event timing against scripted events) overlapping with each other and '
        'with synchronous ones (both with contexts and with the context-free calls) on 1..3 regions (with models of their own or a shared one): completion in any order, immediately, after several polls, late or only at program end; '
        'recorded data are compared with the schedule after every operation and after the program ended; non-trivial: at least two '
        'asynchronous executions of one region were in flight together or completed out of order')
COUNT = {'quick': 10000, 'thorough': 120000}
VARIANTS = ['async']
ASSUMPTIONS = ['the CUDA/HIP event API is replaced by scripted events (query and elapsed time report "not ready" until completion)',
               'an open synchronous execution of a region is ended before the next synchronous one of that region begins, and one executed with the context-free calls before any other of that region begins',
               'collecting points are the end of an asynchronous execution and a training of the region that takes place']
ms_ = st.one_of(st.integers(0, 64).map(lambda x: x / 8.0), st.integers(1, 10**6).map(lambda x: x / 1000.0), st.sampled_from([1e-3, 1e6, 0.0, 1e8, 4e9, 1e-5]))


@st.composite
def strategy_(draw):
    nr = draw(st.integers(1, 3))
    names = draw(gen.region_names(nr))
    uniq = draw(st.integers(0, 3)) > 0
    regs = [dict(name=names[i], nf=draw(st.integers(1, 3)), np=draw(st.integers(1, 4)),
                 model=draw(st.sampled_from(['DecisionTree', 'DecisionTree,explore=Random', 'RandomForest', 'PolicyNet', 'Static,policy=0', 'RoundRobin'])),
                 mtd=draw(st.sampled_from([0, 0, 0, 2, 5]))) for i in range(nr)]
    env = {'APOLLO_PERSISTENT_DATASETS': 1, 'APOLLO_TRACE_CSV': 1}
    if draw(st.integers(0, 3)) == 0:
        env['APOLLO_GLOBAL_TRAIN_PERIOD'] = draw(st.integers(1, 9))
    if draw(st.integers(0, 3)) == 0:
        env['APOLLO_PER_REGION_TRAIN_PERIOD'] = draw(st.integers(1, 6))
    single = draw(st.integers(0, 6)) == 3
    if single:
        # one shared model needs regions of one kind
        env['APOLLO_SINGLE_MODEL'], env['APOLLO_REGION_MODEL'] = 1, 0
        env.pop('APOLLO_PER_REGION_TRAIN_PERIOD', None)
        m = draw(st.sampled_from(['DecisionTree', 'RandomForest', 'DecisionTree,explore=Random', 'Static,policy=0']))
        for g in regs:
            g.update(nf=regs[0]['nf'], np=regs[0]['np'], model=m, mtd=0)
    ops = []
    for _ in range(draw(st.integers(1, 40))):
        x = draw(st.integers(0, 19))
        r = draw(st.integers(0, nr - 1))
        if x < 7:
            ops.append(['begin', r, draw(st.sampled_from(['cuda', 'cuda', 'cuda', 'hip', 'hip', 'sync', 'free', 'fcuda', 'fhip'])), draw(st.integers(0, 2))])
        elif x < 13:
            ops.append(['end', draw(st.integers(0, 30)), draw(st.one_of(st.none(), st.none(), st.none(), gen.pos_metric))])
        elif x < 18:
            ops.append(['done', draw(st.integers(0, 30)), draw(st.sampled_from([0, 0, 0, 0, 1, 2, 5])), draw(ms_)])
        elif x < 19 and not single:
            ops.append(['rtrain', r])
        else:
            ops.append(['train'])
    return dict(regs=regs, env=env, ops=ops, uniq=uniq, seed=draw(st.integers(0, 10**6)), endall=draw(st.booleans()), ms=draw(ms_), polls=draw(st.sampled_from([0, 0, 1, 3])))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # hundreds of executions in flight
    rng = random.Random('c12-%s' % seed)
    for k, (kind, nr) in enumerate((('cuda', 1), ('hip', 1), ('cuda', 2))):
        regs = [dict(name='r%d' % i, nf=2, np=3, model=['DecisionTree', 'RoundRobin'][k % 2], mtd=0) for i in range(nr)]
        ops = [['begin', rng.randrange(nr), kind, 1] for _ in range(300)]
        ops += [['end', rng.randrange(300), None] for _ in range(299)]
        ops += [['done', rng.randrange(300), 0, rng.randrange(1, 99) / 8.0] for _ in range(200)] + [['begin', 0, kind, 1], ['end', 0, None]]
        yield dict(regs=regs, env={'APOLLO_PERSISTENT_DATASETS': 1, 'APOLLO_TRACE_CSV': 1}, ops=ops, uniq=True, seed=1, endall=True, ms=2.5, polls=0)
    # policies of more than 16 bits
    for m, n in (('Static,policy=70001', 80000), ('DecisionTree,explore=Random', 10**6), ('RandomForest,explore=Random', 2**31 - 1)):
        ops = [x for i in range(12) for x in (['begin', 0, ['cuda', 'hip', 'sync'][i % 3], 1], ['end', 0, None])] + [['done', 0, 0, 1.5], ['done', 0, 0, 1e8], ['done', 0, 0, 3e7], ['done', 0, 0, 5e9], ['begin', 0, 'cuda', 1], ['end', 0, None]]
        yield dict(regs=[dict(name='r', nf=2, np=n, model=m, mtd=0)], env={'APOLLO_PERSISTENT_DATASETS': 1, 'APOLLO_TRACE_CSV': 1}, ops=ops, uniq=True, seed=1, endall=True, ms=2.5, polls=0)
    # long-running executions at program end
    yield dict(regs=[dict(name='r', nf=1, np=2, model='RoundRobin', mtd=0)], env={'APOLLO_PERSISTENT_DATASETS': 1, 'APOLLO_TRACE_CSV': 1}, ops=[['begin', 0, 'cuda', 1], ['end', 0, None], ['begin', 0, 'hip', 1], ['end', 0, None]], uniq=True, seed=1, endall=True, ms=2.5, polls=3000000)


class Ex:
    pass


def check(c, ctx):
    s = S()
    s.seed(c['seed'])
    s.clock(100, 0)
    s.env(c['env'])
    regs = c['regs']
    for i, g in enumerate(regs):
        s.region(i, 'cpp', g['nf'], g['np'], g['mtd'], g['name'], g['model'], '')
    ex = []
    idx = [0] * len(regs)
    clock = [100.0]
    log = []      # ('end', e, collect) / ('done', e) / ('train', region or None), each with observations

    def observe(*what):
        log.append((what, [s.ds(i) for i in range(len(regs))] if c['uniq'] else None, [s.trainable(i) for i in range(len(regs))]))

    def end(e, m):
        e.ended = True
        if e.late:
            decide(e)
        if m is not None:
            s.endmd(e.r, float(m)) if e.free else s.endm(e.slot, float(m))
            e.metric = m
        elif e.kind == 'sync':
            s.adv(0, 1000000 * (1 + len(log) % 7))
            clock[0] += .001 * (1 + len(log) % 7)
            s.endd(e.r) if e.free else s.end(e.slot)
            e.metric = clock[0] - e.t0
        else:
            s.op('enddg', e.r, e.slot) if e.free else s.end(e.slot)
        observe('end', e, m)

    def decide(e):
        for x in e.f:
            s.featd(e.r, x) if e.free else s.feat(e.slot, x)
        e.pi = s.pold(e.r) if e.free else s.pol(e.slot)

    inflight = 0
    for n, op in enumerate(c['ops']):
        if op[0] == 'begin':
            e = Ex()
            e.slot, e.r, e.kind, e.ended, e.done, e.metric, e.polls, e.t0 = len(ex) + 1, op[1], op[2], False, False, None, -1, clock[0]
            # executed with the calls that take no context; their features and decision are given at its begin or right before its end
            e.free = e.kind[0] == 'f'
            e.late = e.free and op[3] == 2
            if e.free:
                e.kind = dict(free='sync', fcuda='cuda', fhip='hip')[e.kind]
            for o in ex:
                if o.r == e.r and not o.ended and (o.free or e.kind == o.kind == 'sync'):
                    end(o, None)
            e.idx = idx[e.r]
            idx[e.r] += 1
            nf = regs[e.r]['nf']
            e.f = [float(len(ex) if c['uniq'] and j == 0 else (op[3] + j) % 3) for j in range(nf)]
            e.t0 = clock[0]
            s.begind(e.r) if e.free and e.kind == 'sync' else s.op('begin', e.r, e.slot, e.kind)
            e.pi = None
            if not e.late:
                decide(e)
            ex.append(e)
        elif op[0] == 'end':
            o = [e for e in ex if not e.ended]
            if o:
                e = o[op[1] % len(o)]
                end(e, op[2])
                inflight = max(inflight, sum(1 for x in ex if x.r == e.r and x.kind != 'sync' and x.ended and not x.done))
        elif op[0] == 'done':
            o = [e for e in ex if e.kind != 'sync' and e.ended and not e.done and e.metric is None]
            if o:
                e = o[op[1] % len(o)]
                e.done, e.polls, e.metric = True, op[2], op[3] / 1000.0
                s.gpudone(e.slot, op[2], float(op[3]))
                observe('done', e)
        elif op[0] == 'rtrain':
            s.rtrain(op[1], n, 1, 0)
            observe('train', op[1])
        else:
            s.train(n)
            observe('train', None)
    if c['endall']:
        for e in ex:
            if not e.ended:
                end(e, None)
    # what is still pending completes before the program ends
    for e in ex:
        if e.kind != 'sync' and e.ended and e.metric is None:
            e.done, e.polls, e.metric = True, c['polls'], (c['ms'] + e.slot % 3) / 1000.0
            s.gpudone(e.slot, c['polls'], c['ms'] + e.slot % 3)
            observe('done', e)

    def mclose(a, b):
        return close(a, b, 1e-6) or abs(a - b) < 1e-9
    with ctx.case() as k:
        r = k.run(s, 'async').need_ok('schedule')
        for i, t in r.all:
            if t.startswith('GPUBAD'):
                raise Violation('device event misuse: ' + t)
        # windows: not recorded before completion, recorded at the latest at the collecting point after completion
        must, may, left = set(), set(), {}
        trainable = [g['model'].split(',')[0] in ('DecisionTree', 'RandomForest', 'PolicyNet') for g in regs]
        for what, dis, tis in log:
            if what[0] == 'end':
                e, m = what[1], what[2]
                if m is not None or e.kind == 'sync':
                    must.add(e.slot)
                    may.add(e.slot)
                coll = {e.r} if e.kind != 'sync' else set()
            elif what[0] == 'done':
                e = what[1]
                may.add(e.slot)
                left[e.slot] = e.polls + 1
                coll = set()
            else:
                coll = {i for i in range(len(regs)) if (trainable[i] or 'APOLLO_SINGLE_MODEL' in c['env']) and what[1] in (None, i)}
            for e in ex:
                if e.r in coll and e.slot in left:
                    left[e.slot] -= 1
                    if left[e.slot] <= 0:
                        must.add(e.slot)
            trainable = [bool(r.int(t)) for t in tis]
            if dis is None:
                continue
            for i, di in enumerate(dis):
                ds = r.ds(di)
                seen = set()
                for e in ex:
                    if e.r != i or e.pi is None:
                        continue
                    key = (tuple(e.f), r.int(e.pi))
                    w = 'execution %d of region %s (%s, features %r)' % (e.idx, regs[i]['name'], e.kind, e.f)
                    if key in ds:
                        seen.add(key)
                        if e.slot not in may:
                            raise Violation('%s was recorded before it completed' % w)
                        if not mclose(ds[key], e.metric):
                            raise Violation('%s recorded with metric %r instead of %r' % (w, ds[key], e.metric))
                    elif e.slot in must:
                        raise Violation('%s completed but was not recorded by the following end of an execution or training' % w)
                for key in ds:
                    if key not in seen:
                        raise Violation('region %s has an entry %r of no execution' % (regs[i]['name'], key))
        # after the program ended: every ended execution is in the trace once, and the dataset is their moving average
        s2 = S()
        ids = []
        for i, g in enumerate(regs):
            s2.dnew(i)
            s2.dload(i, '.apollo/datasets/Dataset-%s.yaml' % g['name'])
            ids.append(s2.ddump(i))
        r2 = k.run(s2, 'async')
        r2.need_ok('reading the persisted datasets')
        for i, g in enumerate(regs):
            mine = {e.idx: e for e in ex if e.r == i and e.ended}
            rows = k.read('.apollo/traces/trace-%s-region-%s-rank-0.csv' % (g['model'], g['name'])).split('\n')[1:-1]
            exp, order = {}, []
            for row in rows:
                w = row.split()
                j = int(w[3])
                if j not in mine or j in order:
                    raise Violation('region %s: execution %d was recorded %s' % (g['name'], j, 'twice' if j in order else 'but did not end'))
                order.append(j)
                e = mine[j]
                if [float(x) for x in w[4:-2]] != e.f or int(w[-2]) != r.int(e.pi) or abs(float(w[-1]) - e.metric) > 1e-5 * abs(e.metric) + 1e-9:
                    raise Violation('region %s: execution %d recorded as %r, it was features %r policy %d metric %r' % (g['name'], j, row, e.f, r.int(e.pi), e.metric))
                ema(exp, e.f, r.int(e.pi), e.metric)
            if set(order) != set(mine):
                raise Violation('region %s: executions %r ended and completed but were lost' % (g['name'], sorted(set(mine) - set(order))))
            got = r2.ds(ids[i])
            if set(got) != set(exp) or any(not mclose(got[x], exp[x]) for x in exp):
                raise Violation('region %s: persisted dataset %r, expected %r' % (g['name'], got, exp))
    na = sum(1 for e in ex if e.kind != 'sync' and e.ended)
    return dict(nontrivial=na >= 2 and inflight >= 2, classes=['unique features' if c['uniq'] else 'shared features'] + ['open at exit'] * any(not e.ended for e in ex) + ['single model'] * ('APOLLO_SINGLE_MODEL' in c['env']) + ['context-free'] * any(e.free for e in ex),
                counts={'async executions': na, 'recorded at program end': sum(1 for e in ex if e.slot in may and e.slot not in must and e.ended)})
