"""C17: collective training over MPI ranks."""
import random, os, shutil, signal, subprocess
from hypothesis import strategies as st
from .. import build as B
from .. import gen
from ..exe import S, Run, Violation, HarnessError
from ..ref import close, ema, ds_diff

RULE = ('1..5 real MPI ranks (mpirun) with random subsets of 1..4 regions each, random measurements per rank and round (some ranks or regions without '
        'any), collective training by call or by the global period, 1..3 rounds, a part of the executions device-timed and completed before or after a training, some runs with model storing, whose models every rank loads in a second run; every rank\'s datasets are compared with the reference '
        'combination and its decisions with the combined optimum; non-trivial: some rank received a measurement of another rank for a region it has')
COUNT = {'quick': 800, 'thorough': 8000}
VARIANTS = ['mpi']
ASSUMPTIONS = ['all ranks call training the same number of times (it is a collective operation)', 'regions of one name have the same numbers of features and policies on all ranks']

MODELS = ['DecisionTree,max_depth=64', 'DecisionTree,max_depth=64,explore=Random', 'DecisionTree,max_depth=64,explore=Random', 'PolicyNet', 'DecisionTree', 'RandomForest']


@st.composite
def strategy_(draw):
    n = draw(st.sampled_from([2, 2, 3, 3, 4, 5, 1]))
    nr = draw(st.integers(1, 4))
    names = draw(gen.region_names(nr))
    if draw(st.integers(0, 3)) == 0:
        names[0] = ('r' + 'abcdefghi_' * 7)[:63]
    regs = []
    single = draw(st.integers(0, 5)) == 0
    for i in range(nr):
        m = draw(st.sampled_from(MODELS))
        regs.append(dict(name=names[i], nf=draw(st.integers(1, 4)), np=draw(st.integers(1, 4)), model=m))
        if single:
            regs[i].update(nf=regs[0]['nf'], np=regs[0]['np'], model=MODELS[0])
    for i in range(nr):
        regs[i]['vecs'] = regs[0]['vecs'] if single and i else draw(gen.vectors(regs[i]['nf'], 3, styles=['small'] if 'Net' in regs[i]['model'] else gen.COMMON))
    have = [[r for r in range(nr) if draw(st.integers(0, 3))] for _ in range(n)]
    rounds = []
    dev = draw(st.integers(0, 3)) == 2
    period = draw(st.integers(0, 3)) == 0
    k = draw(st.integers(1, 8))
    for _ in range(1 if period else draw(st.integers(1, 3))):
        rd = []
        for a in range(n):
            cnt = k if period else draw(st.integers(0, 10))
            rd.append([[draw(st.sampled_from(have[a])), draw(st.integers(0, 2)), draw(gen.pos_metric)] + ([draw(st.sampled_from([0, 1, 1, 2])), draw(st.integers(1, 4000))] if dev and not period else []) for _ in range(cnt)] if have[a] else [])
        rounds.append(rd)
    if period and any(not h for h in have):
        period = False
    return dict(n=n, regs=regs, have=have, rounds=rounds, period=period and k, single=single, trace=draw(st.booleans()), store=draw(st.integers(0, 3)) == 2, seed=draw(st.integers(0, 10**6)))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # large contributions: measurements, features, policies, regions beyond 8 bits
    rng = random.Random('c17-%s' % seed)
    for n, nr, nf, npol, nvec, cnt in ((3, 1, 2, 300, 200, 500), (2, 260, 1, 2, 2, 400), (3, 2, 300, 3, 3, 40), (8, 1, 1, 3, 600, 900), (3, 1, 90, 60, 60, 2400)):
        regs = [dict(name='r%d' % i, nf=nf, np=npol, model='DecisionTree,max_depth=64', vecs=[gen.wide(rng, nf, lambda: rng.randrange(99)) for _ in range(nvec)]) for i in range(nr)]
        have = [[r for r in range(nr) if (r + a) % 5 or nr == 1] for a in range(n)]
        rounds = [[[[rng.choice(have[a]), rng.randrange(nvec), rng.randrange(1, 9999) / 64.0] for _ in range(cnt)] for a in range(n)] for _ in range(2)]
        yield dict(n=n, regs=regs, have=have, rounds=rounds, period=False, single=False, trace=False, seed=5)
    regs = [dict(name='r%d' % i, nf=2, np=200000, model=m, vecs=[[float(j), 1.0] for j in range(5)]) for i, m in enumerate(('DecisionTree,max_depth=64,explore=Random', 'DecisionTree,explore=Random'))]
    yield dict(n=3, regs=regs, have=[[0, 1]] * 3, rounds=[[[[i % 2, i % 5, 1.5 + i] for i in range(20)]] * 3] * 2, period=False, single=False, trace=True, store=True, seed=6)


def mpirun(k, exe, scripts, timeout=90):
    d = k.d + '/mpi'
    os.makedirs(d + '/tmp')
    for i, s in enumerate(scripts):
        with open('%s/s.%d' % (d, i), 'w') as f:
            f.write(s.text())
    env = {a: b for a, b in os.environ.items() if not a.startswith(('APOLLO_', 'OMPI_'))}
    env.update(B.MPI_ENV)
    env.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0', UBSAN_OPTIONS='exitcode=99')
    env.update(OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_btl_vader_backing_directory=d + '/tmp', TMPDIR=d + '/tmp', OMPI_MCA_orte_tmpdir_base=d + '/tmp')
    with open(d + '/out', 'wb') as o:
        p = subprocess.Popen(['mpirun', '-n', str(len(scripts)), exe, d + '/s', d + '/o'], cwd=k.cwd, env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=o, start_new_session=True)
        try:
            rc = p.wait(timeout)
            kind = 'exit'
        except subprocess.TimeoutExpired:
            kind, rc = 'timeout', 0
            os.killpg(p.pid, signal.SIGTERM)
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                pass
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    with open(d + '/out', errors='replace') as f:
        err = f.read()[-20000:]
    runs = []
    for i in range(len(scripts)):
        q = '%s/o.%d' % (d, i)
        t = ''
        if os.path.exists(q):
            with open(q, errors='surrogateescape') as f:
                t = f.read()
        runs.append(Run(kind, rc, t, err))
    return kind, rc, err, runs


def check(c, ctx):
    n, regs = c['n'], c['regs']
    scripts, plan = [], []
    for a in range(n):
        s = S()
        s.seedc(c['seed'])
        s.clock(5, 0)
        s.env({'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 0, 'APOLLO_TRACE_ALLGATHER': int(c['trace'])})
        if c.get('store'):
            s.env({'APOLLO_STORE_MODELS': 1})
        if c['single']:
            s.env({'APOLLO_SINGLE_MODEL': 1, 'APOLLO_REGION_MODEL': 0})
        if c['period']:
            s.env({'APOLLO_GLOBAL_TRAIN_PERIOD': c['period']})
        rk = s.rank()
        for r in c['have'][a]:
            g = regs[r]
            s.region(r, 'cpp', g['nf'], g['np'], 0, g['name'], g['model'], '')
        pl = []
        slot = 0
        open_ = []
        for ri, rd in enumerate(c['rounds']):
            ex = []
            pend = []
            for o in open_:
                pend.append(o[1:])
            late, open_ = open_, []
            for j, (r, v, m, *dev) in enumerate(rd[a]):
                f = regs[r]['vecs'][v % len(regs[r]['vecs'])]
                if dev and dev[0]:
                    # ended but not complete on the device; 1: completes before this training, 2: before the next
                    s.op('begin', r, slot, 'cuda' if slot % 2 else 'hip')
                    for x in f:
                        s.feat(slot, x)
                    e = (slot, r, tuple(f), s.pol(slot), dev[1] / 1000.0)
                    s.end(slot)
                    if dev[0] == 2:
                        open_.append(e)
                    else:
                        late.append(e)
                        pend.append(e[1:])
                    slot += 1
                    continue
                s.beginf(r, slot, f)
                ex.append((r, tuple(f), s.pol(slot), float(m)))
                s.endm(slot, float(m))
                slot += 1
            before = {} if c['period'] else {r: s.ds(r) for r in c['have'][a]}
            for e in late:
                s.gpudone(e[0], 0, e[4] * 1000)
            able = {r: s.trainable(r) for r in c['have'][a]}
            if not c['period']:
                s.train(ri)
            after = {r: s.ds(r) for r in c['have'][a]}
            # decisions, only asked for after the last round: they are executions too
            pl.append(dict(ex=ex, before=before, after=after, pend=pend, able=able))
        dec = []
        for r in c['have'][a]:
            tr = s.trainable(r)
            for f in regs[r]['vecs']:
                s.beginf(r, slot, f)
                dec.append((r, tuple(f), s.pol(slot), tr))
                slot += 1
        for e in open_:
            s.gpudone(e[0], 0, e[4] * 1000)
        scripts.append(s)
        plan.append((rk, pl, dec))
    got_foreign = 0
    exchanged = timed = 0
    tol = 1e-5 if any(len(e) > 3 for rd in c['rounds'] for x in rd for e in x) else 1e-11
    with ctx.case() as k:
        kind, rc, err, runs = mpirun(k, ctx.exes['mpi'], scripts)
        if hasattr(ctx, 'inspect'):
            ctx.inspect(runs)
        for a in range(n):
            if kind != 'exit' or rc != 0 or not runs[a].done:
                if 'HARNESS' in err:
                    raise HarnessError(err)
                raise Violation('rank %d of %d did not finish the history: %s' % (a, n, runs[a].status()))
        ds = [{r: {} for r in c['have'][a]} for a in range(n)]
        trained_on = [{} for a in range(n)]
        for a in range(n):
            if runs[a].ints(plan[a][0]) != [a, n]:
                raise Violation('rank %d of %d sees itself as %r' % (a, n, runs[a].ints(plan[a][0])))
        for ri in range(len(c['rounds'])):
            for a in range(n):
                if c['period']:
                    for r, f, o, m in plan[a][1][ri]['ex']:
                        ema(ds[a][r], f, runs[a].int(o), m)
                else:
                    for r, o in plan[a][1][ri]['before'].items():
                        ds[a][r] = runs[a].ds(o)
                        if ri == 0:
                            own = {}
                            for q, f, o2, m in plan[a][1][ri]['ex']:
                                if q == r:
                                    ema(own, f, runs[a].int(o2), m)
                            ds_diff(ds[a][r], own, 'rank %d region %s before training' % (a, regs[r]['name']))
                    for r, f, o, m in plan[a][1][ri]['pend']:
                        if runs[a].int(plan[a][1][ri]['able'][r]):
                            ema(ds[a][r], f, runs[a].int(o), m)
                            timed += 1
            old = [{r: dict(d) for r, d in x.items()} for x in ds]
            if c['trace'] and not c['period']:
                want = sorted((str(b), regs[r]['name'], tuple(int(x) if abs(x) < 2**31 else 0 for x in f), p, m) for b in range(n) for r in old[b] for (f, p), m in old[b][r].items())
                for a in range(n):
                    gathered(k, 'step-%d-rank-%d-allgather.txt' % (ri, a), want)
            for a in range(n):
                for b in range(n):
                    if a == b:
                        continue
                    for r in old[b]:
                        exchanged += len(old[b][r])
                        if r in ds[a]:
                            for (f, p), m in old[b][r].items():
                                got_foreign += 1
                                ema(ds[a][r], f, p, m)
                for r, o in plan[a][1][ri]['after'].items():
                    ds_diff(runs[a].ds(o), ds[a][r], 'rank %d of %d round %d region %s after collective training' % (a, n, ri, regs[r]['name']), rel=tol)
                for r in ds[a]:
                    if ds[a][r] and r not in trained_on[a]:
                        trained_on[a][r] = dict(ds[a][r])
        tuned = 0
        for a in range(n):
            for r, f, o, tr in plan[a][2]:
                g = regs[r]
                pol = runs[a].int(o)
                if not 0 <= pol < g['np']:
                    raise Violation('rank %d region %s: policy %d of %d' % (a, g['name'], pol, g['np']))
                if not g['model'].startswith('DecisionTree'):
                    continue
                if c['single']:
                    pool = ds[a]
                    if all(not d for d in pool.values()):
                        continue
                    if runs[a].int(tr):
                        raise Violation('rank %d region %s is still untrained after collective training' % (a, g['name']))
                    # the merged value of a pair held by several regions depends on the merge order: judge vectors of one region only
                    am = [x for x in (argmins_tol(d, tol).get(f) for d in pool.values()) if x]
                    if len(am) != 1:
                        continue
                    tuned += 1
                    if pol not in am[0]:
                        raise Violation('rank %d region %s (single model): features %r get policy %d, best in the combined data: %r' % (a, g['name'], f, pol, sorted(am[0])))
                    continue
                if r not in trained_on[a]:
                    continue
                if runs[a].int(tr):
                    raise Violation('rank %d region %s has combined data but is still untrained' % (a, g['name']))
                d = trained_on[a][r]
                if 'max_depth=64' not in g['model']:
                    continue
                best = argmins_tol(d, tol).get(f)
                if best is None:
                    continue
                tuned += 1
                if pol not in best:
                    raise Violation('rank %d of %d region %s: features %r get policy %d after collective training, best in the combined data: %r (%r)' % (
                        a, n, g['name'], f, pol, sorted(best), sorted(d.items())))
        loaded = 0
        if c.get('store') and not c['single']:
            # a later run: every rank loads the models it stored
            shutil.rmtree(k.d + '/mpi')
            sc2, obs2 = [], []
            for a in range(n):
                s = S()
                s.env({'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 0})
                ob = []
                rk = s.rank()
                slot = 0
                first = {}
                for r, f, o, tr in plan[a][2]:
                    first.setdefault(r, []).append((f, o))
                for r in first:
                    g = regs[r]
                    if r not in trained_on[a] or not g['model'].startswith(('DecisionTree', 'RandomForest')):
                        continue
                    kind = g['model'].split(',')[0]
                    fn = '.apollo/models/%s-latest-rank-%d-%s.yaml' % (kind, a, g['name'])
                    if not k.exists(fn):
                        raise Violation('rank %d of %d stores no model of region %s, trained collectively: %r' % (a, n, g['name'], sorted(f for f in k.files() if 'models' in f)[:20]))
                    s.region(r, 'cpp', g['nf'], g['np'], 0, g['name'], kind + ',load', '')
                    for f, o in first[r]:
                        s.beginf(r, slot, f)
                        ob.append((r, f, o, s.pol(slot)))
                        slot += 1
                sc2.append(s)
                obs2.append(ob)
            kind, rc, err, runs2 = mpirun(k, ctx.exes['mpi'], sc2)
            if 'HARNESS' in err:
                raise HarnessError(err)
            for a in range(n):
                if kind != 'exit' or rc != 0 or not runs2[a].done:
                    raise Violation('rank %d of %d did not finish the run that loads the stored models: %s' % (a, n, runs2[a].status()))
                for r, f, o, o2 in obs2[a]:
                    loaded += 1
                    if runs[a].int(o) != runs2[a].int(o2):
                        raise Violation('rank %d of %d region %s: features %r get policy %d after collective training, but %d from the stored model' % (a, n, regs[r]['name'], f, runs[a].int(o), runs2[a].int(o2)))
    return dict(nontrivial=got_foreign > 0, classes=['%d ranks' % n] + ['single model'] * c['single'] + ['by period'] * bool(c['period']) + ['allgather trace'] * c['trace'] + ['device-timed'] * (timed > 0),
                counts={'decisions of stored models compared': loaded, 'device-timed executions collected by the training': timed, 'measurements received from other ranks': got_foreign, 'decisions compared with the combined optimum': tuned})


def gathered(k, fn, want):
    lines = k.read(fn).split('\n')
    if lines[0].replace(' ', '') != 'rank,region_name,features,policy,time_avg':
        raise Violation('%s: header %r' % (fn, lines[0]))
    got = []
    for l in lines[1:]:
        if l:
            w = l.replace(',', ' ').split()
            try:
                i, j = w.index('['), w.index(']')
                got.append((w[0], w[1], tuple(int(x) if abs(int(x)) < 2**31 - 1 else 0 for x in w[i + 1:j]), int(w[j + 1]), float(w[j + 2])))
            except (ValueError, IndexError):
                raise Violation('%s: row %r' % (fn, l))
    got.sort()
    if len(got) != len(want) or any(a[:4] != b[:4] or abs(a[4] - b[4]) > 1e-5 * abs(b[4]) + 1e-300 for a, b in zip(got, want)):
        raise Violation('%s lists %r, the ranks held %r' % (fn, got, want))


def argmins_tol(ds, tol):
    best = {}
    for (f, p), m in ds.items():
        best.setdefault(f, []).append((m, p))
    return {f: {p for m, p in x if close(m, min(x)[0], tol)} for f, x in best.items()}
