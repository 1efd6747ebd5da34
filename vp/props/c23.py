"""C23: valid use is memory-safe and runs in bounded memory."""
import importlib, os, subprocess
from hypothesis import strategies as st
from .. import gen
from ..exe import HarnessError, Run, S, Violation, enc
from .c17 import mpirun

RULE = ('(a) valid programs drawn from the generators of the other properties (regions and histories of all models, datasets, trainings, '
        'stores and loads, asynchronous executions, traces, single models, collective training, the Kokkos connector) are run under AddressSanitizer with bounds '
        'checks (a sample also under valgrind, for reads of uninitialised memory); any report, or death by a memory signal, is a violation; '
        '(b) a random block of operations (executions of every kind, trainings, tuning requests; creations, trainings, stores, loads and queries of models and datasets; or executions and collective trainings of 1..3 ranks) is repeated until every '
        'pair has been measured, then two more times as often: live C++ allocations and device events must not keep growing; '
        'non-trivial: the program ran to its end, or the block was repeated')
COUNT = {'quick': 4400, 'thorough': 60000}
VARIANTS = ['base', 'asan', 'async', 'asan-mpi', 'grind']
ASSUMPTIONS = ['finite features and metrics; valid use as in the other properties (contexts are ended once, one synchronous context per region)',
               'memory growth is measured on allocations by operator new (collective training: on all allocations of the process)']
MODS = ['c01', 'c02', 'c05', 'c06', 'c07', 'c09', 'c12', 'c14', 'c16', 'c18', 'c19', 'c19', 'c21', 'c12']


class Found(Exception):
    pass


def judge(r, what):
    bad = r.kind == 'exit' and r.code == 99 or r.kind == 'signal' and r.code in (4, 7, 8, 11) or 'ERROR: AddressSanitizer' in r.err or 'runtime error:' in r.err
    if bad:
        t = r.err
        i = max(t.find('ERROR: AddressSanitizer'), t.find('runtime error:'))
        raise Found('memory error (%s) after operation %d: %s' % (what, r.last, t[max(0, i - 100):i + 1500] if i >= 0 else t[:1500]))
    return r


class SanServer:
    def __init__(self, inner):
        self.inner = inner

    def run(self, cwd, base, script, **kw):
        return judge(self.inner.run(cwd, base, script, cpu=120, wall=240000), 'AddressSanitizer')


class GrindServer:
    def __init__(self, exe):
        self.exe = exe

    def run(self, cwd, base, script, **kw):
        with open(base + '.script', 'w') as f:
            f.write(script)
        e = {k: v for k, v in os.environ.items() if not k.startswith('APOLLO_')}
        with open(base + '.err', 'w') as err:
            p = subprocess.run(['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--show-mismatched-frees=no', '--soname-synonyms=somalloc=nouserintercepts', '--num-callers=20', self.exe, base + '.script', base + '.obs'],
                               cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, timeout=300)
        with open(base + '.obs', errors='surrogateescape') as f:
            obs = f.read()
        with open(base + '.err', errors='replace') as f:
            err = f.read()[:20000]
        rc = p.returncode
        return judge(Run('signal', -rc, obs, err) if rc < 0 else Run('exit', rc, obs, err), 'valgrind')


class SanCtx:
    """Stands in for the context of another property's check: every program it runs is instrumented."""

    def __init__(self, ctx, grind):
        self.ctx, self.grind = ctx, grind
        self.exes = dict(ctx.exes, mpi=ctx.exes['asan-mpi'])
        self.runs = 0

    def server(self, v):
        self.runs += 1
        if self.grind:
            return GrindServer(self.ctx.exes['grind'])
        return SanServer(self.ctx.server('asan'))

    def inspect(self, runs):
        self.runs += 1
        for r in runs:
            judge(r, 'AddressSanitizer, MPI')

    def case(self):
        k = self.ctx.case()
        k.ctx = self
        return k


GMODELS = ['DecisionTree', 'DecisionTree,max_depth=8', 'RandomForest,num_trees=3', 'Static,policy=0', 'RoundRobin', 'Random', 'DecisionTree,explore=Random', 'PolicyNet', 'PolicyNet,threshold=2', 'PolicyNet,threshold=0.5,lr=0.1', 'RandomForest,num_trees=2,explore=Random']


@st.composite
def grow(draw):
    nr = draw(st.integers(1, 3))
    regs = []
    for i in range(nr):
        m = draw(st.sampled_from(GMODELS))
        nf = draw(st.integers(1, 2)) if m.startswith('PolicyNet') else draw(st.integers(0, 3))
        regs.append(dict(nf=nf, np=draw(st.integers(1, 4)), model=m, mtd=draw(st.sampled_from([0, 0, 0, 3])), long=draw(st.sampled_from([0, 0, 0, 3, 60, 61, 62, 63, 90])), vecs=draw(gen.vectors(nf, 3, styles=['small', 'dec']))))
    block = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 19))
        r = draw(st.integers(0, nr - 1))
        if k < 14:
            block.append(['x', r, draw(st.integers(0, 2)), draw(st.sampled_from(['sync', 'sync', 'free', 'c', 'beginf', 'cuda', 'hip'])), draw(st.sampled_from(['m', 't', 't'])),
                          draw(st.integers(0, 2))])
        elif k < 16:
            block.append(['train'])
        elif k < 18:
            block.append(['rtrain', r, int(draw(st.booleans()))])
        else:
            block.append(['store', r])
    env = {}
    for o in ('APOLLO_TRACE_CSV', 'APOLLO_STORE_MODELS', 'APOLLO_PERSISTENT_DATASETS', 'APOLLO_TRACE_POLICY'):
        if draw(st.integers(0, 4)) == 2:
            env[o] = 1
    if draw(st.integers(0, 3)) == 2:
        env['APOLLO_PER_REGION_TRAIN_PERIOD'] = draw(st.integers(1, 9))
    return dict(regs=regs, block=block, env=env, seed=draw(st.integers(0, 10**6)))


@st.composite
def kgrow(draw):
    outs = [draw(st.sampled_from([['i', [1, 2]], ['i', [4, 5, 6]], ['s', ['a', 'bb']], ['d', [.5, .25]]])) for _ in range(draw(st.integers(1, 2)))]
    return dict(outs=outs, ctxs=draw(st.lists(st.integers(0, 3), max_size=2)), model=draw(st.sampled_from(['DecisionTree', 'RoundRobin', 'Random', None])),
                flush=draw(st.sampled_from([0, 0, 5, 50])), fresh=draw(st.booleans()), par=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


@st.composite
def mgrow(draw):
    kind = draw(st.sampled_from(['DecisionTree', 'DecisionTree', 'RandomForest', 'PolicyNet']))
    nf, npol = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    vecs = draw(gen.vectors(nf, 5, styles=['small', 'dec']))
    ins = [[v, draw(st.integers(0, npol - 1)), draw(st.integers(1, 50))] for v in vecs for _ in range(draw(st.integers(1, 2)))]
    ops = draw(st.lists(st.sampled_from(['mld', 'mld', 'mst', 'mget', 'mtrain', 'mnew', 'mnewp', 'mdel', 'tmnew', 'dload', 'dstore', 'dmerge', 'dclear', 'dins', 'dbest']), min_size=1, max_size=5))
    return dict(kind=kind, nf=nf, np=npol, ins=ins, ops=ops, seed=draw(st.integers(0, 10**6)))


def mscript(c):
    """a model 0 trained on dataset 0 and stored as 'a', dataset 0 stored as 'd'; then the operations to be repeated"""
    s = S()
    s.seed(c['seed'])
    s.clock(9, 0)
    s.dnew(0)
    s.dnew(1)
    for f, p, m in c['ins']:
        s.dins(0, f, p, float(m))
    par = [1, 'num_trees', '3'] if c['kind'] == 'RandomForest' else [0]
    s.mnew(0, c['kind'], c['nf'], c['np'], *par)
    s.mtrain(0, 0)
    s.mst(0, 'a')
    s.dstore(0, 'd')
    b = S()
    for o in c['ops']:
        f, p, m = c['ins'][-1]
        if o in ('mld', 'mst'):
            b.op(o, 0, 'a')
        elif o == 'mget':
            b.mget(0, f)
        elif o == 'mtrain':
            b.mtrain(0, 0)
        elif o == 'mnew':
            b.mnew(1, c['kind'], c['nf'], c['np'], *par)
            b.mtrain(1, 0)
        elif o == 'mnewp':
            b.mnewp(1, c['kind'], c['np'], 'a')
        elif o == 'mdel':
            b.mdel(1)
        elif o == 'tmnew':
            b.tmnew(0, 0)
        elif o == 'dload':
            b.dload(1, 'd')
        elif o == 'dstore':
            b.dstore(0, 'd')
        elif o == 'dmerge':
            b.dmerge(1, 0)
        elif o == 'dclear':
            b.dclear(1)
        elif o == 'dins':
            b.dins(1, f, p, float(m))
        else:
            b.dbest(0)
    return s, b


@st.composite
def cgrow(draw):
    """the block of every rank, repeated, with one collective training at its end"""
    n = draw(st.sampled_from([1, 1, 2, 3]))
    regs = []
    for i in range(draw(st.integers(1, 3))):
        m = draw(st.sampled_from(['DecisionTree', 'RandomForest,num_trees=2', 'DecisionTree', 'RoundRobin']))
        nf = draw(st.integers(0, 3))
        regs.append(dict(nf=nf, np=draw(st.integers(1, 3)), model=m, vecs=draw(gen.vectors(nf, 3, styles=['small', 'dec']))))
    blocks = [[[draw(st.integers(0, len(regs) - 1)), draw(st.integers(0, 2))] for _ in range(draw(st.sampled_from([0, 1, 2, 4])))] for _ in range(n)]
    return dict(regs=regs, blocks=blocks, single=False, trace=int(draw(st.booleans())), seed=draw(st.integers(0, 10**6)))


def check_cgrow(c, ctx):
    scripts, hs = [], []
    for a, b in enumerate(c['blocks']):
        s = S()
        s.seedc(c['seed'])
        s.clock(5, 0)
        s.env({'APOLLO_COLLECTIVE_TRAINING': 1, 'APOLLO_LOCAL_TRAINING': 0, 'APOLLO_TRACE_ALLGATHER': c['trace']})
        for i, g in enumerate(c['regs']):
            s.region(i, 'cpp', g['nf'], g['np'], 0, 'r%d' % i, g['model'], '')
        q = S()
        for r, v in b:
            q.beginf(r, 1, c['regs'][r]['vecs'][v % len(c['regs'][r]['vecs'])])
            q.pol(1)
            q.endm(1, 1.5)
        q.train(1)
        h = []
        for _ in range(5):
            s.raw('repeat 80 ' + ' ; '.join(q.lines))
            h.append(s.raw('hall'))
        hs.append(h)
        scripts.append(s)
    with ctx.case() as k:
        kind, rc, err, runs = mpirun(k, ctx.exes['asan-mpi'], scripts)
        if kind != 'exit':
            return dict(nontrivial=False, classes=['cgrow timeout'])
        try:
            for r in runs:
                judge(r, 'AddressSanitizer, MPI')
        except Found as e:
            raise Violation(str(e))
        if rc:
            return dict(nontrivial=False, classes=['refused cgrow'])
        for a, (r, h) in enumerate(zip(runs, hs)):
            h = [r.int(x) for x in h]
            if min(y - x for x, y in zip(h, h[1:])) > 60:
                raise Violation('rank %d of %d: allocated memory grew, in bytes, from %s while the same %d execution(s) and a collective training were repeated 80 times each' % (
                    a, len(runs), ' to '.join(map(str, h)), len(c['blocks'][a])))
    return dict(nontrivial=True, classes=['cgrow'], counts={'repetitions': 400})


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 99)) == 57:
        return dict(m='cgrow', c=draw(cgrow()))
    k = draw(st.integers(0, 10))
    if k == 6:
        return dict(m='mgrow', c=draw(mgrow()))
    if k == 4:
        return dict(m='grow', c=draw(grow()))
    if k == 5:
        return dict(m='kgrow', c=draw(kgrow()))
    m = draw(st.sampled_from(MODS)) if draw(st.integers(0, 49)) != 13 else 'c17'
    return dict(m=m, c=draw(importlib.import_module('vp.props.' + m).strategy('quick')), grind=m not in ('c05', 'c17') and draw(st.integers(0, 39)) == 13)


def strategy(tier):
    return strategy_()


def script(c):
    s = S()
    s.seed(c['seed'])
    s.clock(9, 0)
    s.env(c['env'])
    for i, g in enumerate(c['regs']):
        s.region(i, 'cpp', g['nf'], g['np'], g['mtd'], ('r%d' % i) + 'x' * g['long'], g['model'], '')
    return s


def block(c):
    b = S()
    late = []
    nx = 0
    for n, op in enumerate(c['block']):
        if op[0] == 'train':
            b.train(1)
        elif op[0] == 'rtrain':
            b.rtrain(op[1], 2, 1, op[2])
        elif op[0] == 'store':
            b.mstore(op[1], 'model-%d' % op[1]) if c['regs'][op[1]]['model'].startswith('PolicyNet') else b.adv(0, 1)
        else:
            _, r, v, kind, how, polls = op
            nx += 1
            f = c['regs'][r]['vecs'][v % len(c['regs'][r]['vecs'])]
            if kind == 'free':
                b.begind(r)
                for x in f:
                    b.featd(r, x)
                b.pold(r)
                b.adv(0, 1000 + n)
                b.endd(r) if how == 't' else b.endmd(r, 1.0 + n)
                continue
            if kind == 'c':
                b.beginc(r)
                for x in f:
                    b.featc(r, x)
                b.polc(r)
                b.adv(0, 1000 + n)
                b.endc(r)
                continue
            if kind == 'beginf':
                b.beginf(r, n, f)
            else:
                b.op('begin', r, n, kind)
                for x in f:
                    b.feat(n, x)
            b.pol(n)
            if how == 'm':
                b.endm(n, 1.0 + n)
            elif kind in ('sync', 'beginf'):
                b.adv(0, 1000 + n)
                b.end(n)
            else:
                b.gpudone(n, polls, 2.0 + n)
                b.end(n)
                b.collect(r)
                b.collect(r)
                b.collect(r)
    return b, nx


def kscript(c):
    s = S()
    s.seed(c['seed'])
    s.clock(9, 0)
    s.raw('kparse 0')
    if c['model']:
        s.env({'APOLLO_POLICY_MODEL': c['model']})
    if c['flush']:
        s.env({'APOLLO_GLOBAL_TRAIN_PERIOD': c['flush']})
    s.kinit()
    for j, _ in enumerate(c['ctxs']):
        s.raw('kin %d in%d i unb' % (j, j))
    for j, (ty, v) in enumerate(c['outs']):
        s.raw('kout %d out%d %s set %d %s' % (10 + j, j, ty, len(v), ' '.join(str(x) if ty == 'i' else float(x).hex() if ty == 'd' else enc(x) for x in v)))
    return s


def check_grow(c, ctx, kind):
    if kind == 'grow':
        s = script(c)
        b, nx = block(c)
        pairs = sum(len(g['vecs']) * g['np'] for g in c['regs'])
        asy = any(o[0] == 'x' and o[3] in ('cuda', 'hip') for o in c['block'])
        if not nx:
            nx = 1
        n = 2200 // nx + 1
        if any(g['model'].startswith('PolicyNet') or g['mtd'] for g in c['regs']) or any(o[0] in ('rtrain', 'train') for o in c['block']):
            n = min(n, 700)
        text = ' ; '.join(b.lines)
        warm = n
    elif kind == 'mgrow':
        s, b = mscript(c)
        asy = False
        n = 60 if c['kind'] == 'PolicyNet' and set(c['ops']) & {'mtrain', 'mnew'} else 200
        text = ' ; '.join(b.lines)
        warm = n
    else:
        s = kscript(c)
        pairs = 3
        for _, v in c['outs']:
            pairs *= len(v)
        asy = False
        nx = 1
        n = 1500
        ins = ' '.join('%d %d' % (j, x) for j, x in enumerate(c['ctxs']))
        text = 'kreq 5 %d %s %d %s ; adv 0 1000 ; %skend 5' % (len(c['ctxs']), ins, len(c['outs']), ' '.join(str(10 + j) for j in range(len(c['outs']))),
                                                              'kpar for 0 ; ' if c['par'] else '')
        warm = n
    with SanCtx(ctx, False).case() as k:
        q = S()
        q.lines = list(s.lines)
        q.raw('repeat 7 ' + text)
        names = [q.op('rname', i) for i in range(len(c['regs']))] if kind == 'grow' else []
        try:
            r = k.run(q)
            for i in names:
                if r.ok and r.ints(i)[0] > 63:
                    raise Found('the name of a region, an array of 64 characters, is not terminated')
        except Found as e:
            raise Violation(str(e))
    hs = []
    if kind == 'kgrow' and c['fresh']:
        # every context has an id of its own
        ln = text
        k = 1
        for seg in range(3):
            for _ in range(n // 3):
                for o in ln.replace('kreq 5 ', 'kreq %d ' % k).replace('kend 5', 'kend %d' % k).split(' ; '):
                    s.raw(o)
                k += 1
            hs.append(s.heap())
        n //= 3
    else:
        s.raw('repeat %d %s' % (warm, text))
        hs.append(s.heap())
        for _ in range(2):
            s.raw('repeat %d %s' % (n, text))
            hs.append(s.heap())
    with ctx.case() as k:
        r = k.run(s, 'async' if asy else 'base', cpu=200, wall=300000)
        if r.kind == 'signal' and r.code in (4, 7, 8, 11):
            raise Violation('memory signal: ' + r.status())
        if not r.ok:
            return dict(nontrivial=False, classes=['refused ' + kind])
        h = [r.ints(x) for x in hs]
    grown = min(h[2][0] - h[1][0], h[1][0] - h[0][0])
    events = h[2][1] - h[1][1]
    # new pairs under random exploration cost a bounded amount
    if grown > 2048 + 8 * n:
        raise Violation('live memory grew from %d to %d to %d bytes while the same %d operation(s) were repeated %d and %d times more' %
                        (h[0][0], h[1][0], h[2][0], len(text.split(' ; ')), n, n))
    if events > 4:
        raise Violation('live device events grew from %d to %d to %d while the same completed executions were repeated' % (h[0][1], h[1][1], h[2][1]))
    return dict(nontrivial=True, classes=[kind], counts={'repetitions': 3 * n})


def check(c, ctx):
    if c['m'] == 'cgrow':
        return check_cgrow(c['c'], ctx)
    if c['m'] in ('grow', 'kgrow', 'mgrow'):
        return check_grow(c['c'], ctx, c['m'])
    x = SanCtx(ctx, c.get('grind'))
    done = False
    try:
        importlib.import_module('vp.props.' + c['m']).check(c['c'], x)
        done = True
    except Found as e:
        raise Violation('%s [program of %s]' % (e, c['m'].upper()))
    except (Violation, HarnessError):
        pass     # what it computes is the business of the other properties
    except subprocess.TimeoutExpired:
        pass
    return dict(nontrivial=done and x.runs > 0, classes=['valgrind' if c.get('grind') else 'sanitizer', 'program of ' + c['m'].upper()] + ['stopped early'] * (not done), counts={'programs': x.runs})
