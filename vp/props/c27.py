"""C27: MPI ranks that train locally."""
import os, re, shutil
from hypothesis import strategies as st
from .. import gen, hist
from ..exe import S, Violation, HarnessError
from .c17 import mpirun

RULE = ('2..4 (fixed cases: up to 11) real MPI ranks (mpirun) with local training, each with its own random history (regions of partly the same names, all models, train periods, '
        'minimum data, explicit trainings at different times, nested executions, optional schedule file), in one shared output directory with a random subset of the '
        'traces and model storing on, and for stored models a second run that loads them; every observation and every file of a rank is compared with a run of the '
        'same history alone in the default build; in one case of 16 one rank lacks the schedule or model file that the others have and must be refused; non-trivial: at least two ranks made decisions with a trainable model and their histories differ, or one lacks its file')
COUNT = {'quick': 1000, 'thorough': 8000}
VARIANTS = ['base', 'mpi']
ASSUMPTIONS = ['random_device is replaced by a fixed value and the clock by a scripted one, so the runs are comparable',
               'dataset persistence and execution info are off: their file names do not contain the rank, so ranks that share a directory overwrite each other',
               'timestamps of the global trace are not compared']
OPTS = ['APOLLO_TRACE_CSV', 'APOLLO_TRACE_POLICY', 'APOLLO_TRACE_BEST_POLICIES', 'APOLLO_STORE_MODELS']


@st.composite
def strategy_(draw):
    n = draw(st.sampled_from([2, 2, 3, 4]))
    names = draw(gen.region_names(4))
    hs = [draw(hist.history(max_regions=3, max_ops=18)) for _ in range(n)]
    for h in hs:
        for i, g in enumerate(h['regs']):
            if draw(st.integers(0, 4)):
                g['name'] = names[i]
        if len({g['name'] for g in h['regs']}) < len(h['regs']):
            for i, g in enumerate(h['regs']):
                g['name'] = names[i]
    if draw(st.booleans()):
        # the same regions on all ranks, different executions
        for h in hs[1:]:
            h['regs'] = [dict(g) for g in hs[0]['regs']]
            h['ops'] = [[o[0], o[1] % len(h['regs'])] + o[2:] if o[0] != 'train' else o for o in h['ops']]
    on = draw(st.one_of(st.just(OPTS), st.lists(st.sampled_from(OPTS), max_size=4, unique=True)))
    return dict(hs=hs, on=on, api=draw(st.sampled_from(['ctx', 'ctxf', 'free'])), dirs=draw(st.booleans()), load=draw(st.integers(0, 2)) > 0,
                opt=[draw(st.lists(st.integers(0, 3), min_size=1, max_size=6)) for _ in range(n)] if draw(st.integers(0, 2)) == 0 else None)


@st.composite
def lacking_(draw):
    # one rank lacks the file that the others have
    n = draw(st.sampled_from([2, 2, 3]))
    return dict(lack=draw(st.integers(0, n - 1)), n=n, what=draw(st.sampled_from(['Optimal', 'DecisionTree', 'RandomForest', 'PolicyNet'])), name=draw(gen.region_names(1))[0],
                sched=draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)), dirs=draw(st.booleans()))


def strategy(tier):
    return st.integers(0, 15).flatmap(lambda x: lacking_() if x == 9 else strategy_())


def fixed(tier, seed):
    # more ranks, longer histories
    for n, m in ((5, 200), (8, 60), (11, 30)) if tier == 'quick' else ((5, 900), (8, 200), (12, 90), (16, 40)):
        hs = [hist.long_history(seed * 100 + a, m, metrics=bool(a % 2)) for a in range(n)]
        for h in hs:
            h['env'] = {k: v // 10 for k, v in h['env'].items()}
        yield dict(hs=hs, on=OPTS, api='ctx', dirs=n == 8, load=True, opt=[[a % 4, 3, (a + 1) % 4] for a in range(n)])


def scripts(c, hs, env, opt):
    out = []
    for a, h in enumerate(hs):
        s, ob = hist.render(h, lambda n: c['api'], env=env)
        s.echo('rank')
        if opt and 'APOLLO_GLOBAL_TRAIN_PERIOD' not in h['env']:
            s.region(90, 'cpp', 0, 4, 0, 'sched', 'Optimal', '')
            for j, p in enumerate(opt[a]):
                s.beginf(90, 9000 + j, [])
                ob.append(('policy', 90, s.pol(9000 + j), 'scheduled execution %d' % j))
                s.endm(9000 + j, 1.0 + a)
        out.append((s, ob))
    return out


def norm(fn, text, a):
    b = fn.split('/')[-1]
    if re.match(r'trace-rank-\d+\.csv$', b):
        return [l.split()[1:] if not l.startswith('#') else l for l in text.replace(',', ' ').split('\n')]
    if b.startswith('trace-'):
        rows = [l.split() for l in text.split('\n') if l]
        for w in rows[1:]:
            if w[0] != str(a):
                raise Violation('%s: row %r is not of rank %d' % (fn, ' '.join(w), a))
            w[0] = '0'
        return rows
    if b.endswith('-policies.txt') and not 'best' in b:
        rows = [l.split() for l in text.split('\n') if l]
        for w in rows:
            if w[:2] != ['Rank', str(a)]:
                raise Violation('%s: row %r is not of rank %d' % (fn, ' '.join(w), a))
            w[1] = '0'
        return rows
    if b.endswith('best_policies.txt'):
        head, rest = text.split('\n', 1)
        if not head.startswith('=== Rank %d ' % a):
            raise Violation('%s: header %r is not of rank %d' % (fn, head, a))
        return head.replace('Rank %d ' % a, 'Rank 0 ', 1) + rest
    return text


def pattern(a):
    return re.compile(r'(^|-)rank-%d(?=[-.])' % a)


def check_lack(c, ctx):
    n, a, w, name = c['n'], c['lack'], c['what'], c['name']
    env = {'APOLLO_STORE_MODELS': 1}
    if c['dirs']:
        env.update(APOLLO_OUTPUT_DIR='o', APOLLO_MODELS_DIR='m')
    with ctx.case() as k:
        if w == 'Optimal':
            for x in range(n):
                if x != a:
                    k.write('opt-%s-rank-%d.txt' % (name, x), ','.join(map(str, c['sched'])))
        else:
            s = S()
            s.env(env)
            s.region(0, 'cpp', 1, 4, 0, name, w, '')
            for i, p in enumerate(c['sched']):
                s.beginf(0, 1, [float(i)])
                s.pol(1)
                s.endm(1, 1.0)
            s.rtrain(0, 0, 1, 0)
            k.run(s).need_ok('storing a model')
            d = 'o/m' if c['dirs'] else '.apollo/models'
            text = k.read('%s/%s-latest-rank-0-%s.yaml' % (d, w, name), True)
            for f in k.files():
                os.unlink(k.cwd + '/' + f)
            for x in range(n):
                if x != a:
                    k.write('%s/%s-latest-rank-%d-%s.yaml' % (d, w, x, name), text)
        sc = []
        for x in range(n):
            s = S()
            s.env(env)
            s.region(0, 'cpp', 1, 4, 0, name, w if w == 'Optimal' else w + ',load', '')
            s.beginf(0, 1, [0.0])
            s.pol(1)
            s.endm(1, 1.0)
            i = s.echo('started')
            sc.append(s)
        kind, rc, err, runs = mpirun(k, ctx.exes['mpi'], sc)
        if 'HARNESS' in err:
            raise HarnessError(err)
        if i in runs[a].obs or kind == 'exit' and rc == 0:
            raise Violation('rank %d of %d starts a region %s with %s although it has no file of its own: %s' % (a, n, name, w, runs[a].status()))
    return dict(nontrivial=True, classes=['rank without its file: ' + w])


def check(c, ctx):
    if 'lack' in c:
        return check_lack(c, ctx)
    hs, n = c['hs'], len(c['hs'])
    env = {o: 1 for o in c['on']}
    if c['dirs']:
        env.update(APOLLO_OUTPUT_DIR='o', APOLLO_MODELS_DIR='m', APOLLO_TRACES_DIR='t')
    mdir = ('o/m' if c['dirs'] else '.apollo/models')
    nfiles = loads = dec = 0
    solo = []     # per rank: list of phases of (obs, files)
    phases2 = []
    first = scripts(c, hs, env, c['opt'])
    for a, h in enumerate(hs):
        with ctx.case() as k:
            if c['opt']:
                k.write('opt-sched-rank-0.txt', ','.join(map(str, c['opt'][a])))
            r = k.run(first[a][0]).need_ok('history of rank %d alone' % a)
            ph = [(r, {f: k.read(f, True) for f in k.files()})]
            h2 = None
            if c['load'] and 'APOLLO_STORE_MODELS' in c['on']:
                regs = []
                for g in h['regs']:
                    g = dict(g, mtd=0)
                    kind = g['model'].split(',')[0]
                    if kind in ('DecisionTree', 'RandomForest', 'PolicyNet') and k.exists('%s/%s-latest-rank-0-%s.yaml' % (mdir, kind, g['name'])):
                        g['model'] += ',load'
                        loads += 1
                    regs.append(g)
                h2 = dict(h, regs=regs, ops=[o for o in h['ops'] if o[0] == 'x'][:8])
                s2, ob2 = scripts(c, [h2], env, None)[0]
                r2 = k.run(s2).need_ok('second run of rank %d alone' % a)
                ph.append((r2, {f: k.read(f, True) for f in k.files()}))
            phases2.append(h2)
            solo.append(ph)
    with ctx.case() as k:
        if c['opt']:
            for a in range(n):
                k.write('opt-sched-rank-%d.txt' % a, ','.join(map(str, c['opt'][a])))
        for p in range(len(solo[0])):
            sc = first if p == 0 else scripts(c, phases2, env, None)
            if p:
                shutil.rmtree(k.d + '/mpi')
            kind, rc, err, runs = mpirun(k, ctx.exes['mpi'], [x[0] for x in sc])
            what = ['run', 'second run (loading models)'][p]
            if 'HARNESS' in err:
                raise HarnessError(err)
            for a in range(n):
                if kind != 'exit' or rc != 0 or not runs[a].done:
                    raise Violation('%s: rank %d of %d did not finish the history: %s' % (what, a, n, runs[a].status()))
            for a in range(n):
                regs = hs[a]['regs']
                for w, i, o, t in sc[a][1]:
                    x, y = solo[a][p][0].get(o), runs[a].get(o)
                    if w == 'policy':
                        dec += 1
                    if x.split('|')[0] != y.split('|')[0] or sorted(x.split('|')) != sorted(y.split('|')):
                        raise Violation('%s, %s of rank %d of %d: %s of region %s is %r, alone it is %r' % (what, t, a, n, w, 'sched' if i == 90 else regs[i]['name'], y, x))
            got = {f: k.read(f, True) for f in k.files()}
            used = set()
            for a in range(n):
                pa = pattern(a)
                mine = {f: b for f, b in got.items() if pa.search(f.split('/')[-1])}
                used |= set(mine)
                ren = {'/'.join(f.split('/')[:-1] + [pa.sub(r'\1rank-0', f.split('/')[-1])]): f for f in mine}
                alone = solo[a][p][1]
                if set(ren) != set(alone):
                    raise Violation('%s: rank %d of %d writes the files %r, alone %r' % (what, a, n, sorted(set(ren) - set(alone)), sorted(set(alone) - set(ren))))
                for f, real in ren.items():
                    nfiles += 1
                    x, y = alone[f].decode('latin1'), mine[real].decode('latin1')
                    if norm(f, x, 0) != norm(real, y, a):
                        raise Violation('%s: the contents of %s differ from those of a run of rank %d alone' % (what, real, a))
            if set(got) - used:
                raise Violation('%s: files of no rank: %r' % (what, sorted(set(got) - used)))
    tr = sum(any(o[0] == 'x' and h['regs'][o[1]]['model'][0] in 'DRP' for o in h['ops']) for h in hs)
    return dict(nontrivial=tr > 1 and len({repr(h) for h in hs}) > 1, classes=['%d ranks' % n] + [o[7:] for o in c['on']] + ['loading'] * (loads > 0) + ['schedule'] * bool(c['opt']),
                counts={'decisions compared': dec, 'files compared': nfiles, 'models loaded': loads})
