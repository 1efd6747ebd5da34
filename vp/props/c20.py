"""C20: JIT-compiled trees decide like interpreted ones."""
import os, random, subprocess
from hypothesis import strategies as st
from .. import gen
from ..exe import HarnessError, Run, S, Violation
from ..ref import f32, nextf, parse_flow

RULE = ('differential: two or three programs with random histories of measurements, trainings, re-trainings, stores and loads of decision '
        'trees and forests (values at all magnitudes) run at the same time with the JIT build, and one by one with the default build; '
        'decisions for all training vectors, points at and one ulp around every threshold and random points must be equal after every '
        'training and load; non-trivial: a model with a split was re-trained or loaded')
COUNT = {'quick': 240, 'thorough': 4000}
VARIANTS = ['base', 'jit']
ASSUMPTIONS = ['the compiler used by the JIT build is c++ of this machine']


@st.composite
def prog(draw):
    nf, npol = draw(st.integers(1, 3)), draw(st.sampled_from([2, 2, 3, 4, 5, 20]))
    styles = draw(st.sampled_from([gen.COMMON, ['sym'], ['sym'], gen.ALL, ['ulps', 'frac', 'big'], ['dec', 'any']]))
    ops = []
    nm = draw(st.integers(1, 2))
    models = [draw(st.sampled_from([['DecisionTree', {}], ['DecisionTree', {'max_depth': '6'}], ['DecisionTree', {'max_depth': '12'}], ['RandomForest', {'num_trees': '2', 'max_depth': '3'}]])) for _ in range(nm)]
    ops.append(['ins', draw(gen.data(nf, npol, 5, 10, styles=styles, met=gen.pos_metric, min_size=2))])
    ops.append(['train', 0])
    for _ in range(draw(st.integers(1, 4))):
        x = draw(st.integers(0, 5))
        m = draw(st.integers(0, nm - 1))
        if x < 2:
            ops.append(['ins', draw(gen.inserts(nf, npol, 4, 8, styles=styles, met=gen.pos_metric, min_size=1))])
            ops.append(['train', m])
        elif x < 3:
            ops.append(['train', m])
        elif x < 4:
            ops.append(['store', m])
        elif x < 5:
            ops.append(['load', m])
        else:
            ops.append(['file', m])
    return dict(nf=nf, np=npol, models=models, ops=ops, probes=draw(st.lists(gen.vec('mixed', nf), min_size=0, max_size=4)), region=draw(st.booleans()))


@st.composite
def strategy_(draw):
    return dict(progs=[draw(prog()) for _ in range(draw(st.integers(2, 3)))], seed=draw(st.integers(0, 10**6)))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # large deep trees, thresholds of either sign and zero
    rng = random.Random('c20-%s' % seed)
    for n in range(24 if tier == 'quick' else 240):
        progs = []
        for _ in range(2):
            nf = rng.choice([1, 1, 2, 3])
            npol = rng.choice([2, 3, 6])
            grid = rng.choice([[float(x) for x in range(-9, 10, 2)], [x / 4 for x in range(-8, 9)], [f32(10.0 ** x) for x in range(-30, 38, 4)] + [f32(-10.0 ** x) for x in range(-30, 38, 6)],
                               [f32(.1 * x) for x in range(-9, 10)], [2.0 ** 24 + 2 * x for x in range(9)]])
            pts = {tuple(rng.choice(grid) for _ in range(nf)) for _ in range(60)}
            ins = [[list(f), rng.randrange(npol), 1.0] for f in sorted(pts)]
            ops = [['ins', ins], ['train', 0], ['store', 0], ['ins', [[i[0], rng.randrange(npol), .25] for i in ins[::3]]], ['train', 0], ['load', 0]]
            if n < 3:   # many features, of which late ones decide
                nf = 290
                ins = [[gen.wide(rng, nf, lambda: rng.choice(grid)), rng.randrange(npol), 1.0] for _ in range(12)]
                ops = [['ins', ins], ['train', 0], ['store', 0], ['load', 0]]
            progs.append(dict(nf=nf, np=npol, models=[['DecisionTree', {'max_depth': '64'}]], ops=ops, probes=[], region=rng.random() < .3))
        yield dict(progs=progs, seed=n)
    # policies of more than 16 bits
    ins = [[[float(i)], p, 1.0] for i, p in enumerate([0, 1, 255, 256, 32767, 32768, 65535, 65536, 70001, 99999])]
    yield dict(progs=[dict(nf=1, np=100000, models=[['DecisionTree', {'max_depth': '64'}]], ops=[['ins', ins], ['train', 0], ['store', 0], ['load', 0]], probes=[], region=False)], seed=98)
    # hundreds of trees in one process
    ins = [[[float(i)], i % 3, 1.0 + i] for i in range(9)]
    if tier == 'thorough':
        yield dict(progs=[dict(nf=1, np=3, models=[['RandomForest', {'num_trees': '270', 'max_depth': '2'}]], ops=[['ins', ins], ['train', 0]], probes=[], region=False)], seed=97)
    ins = [[f, i, 1.0] for i, f in enumerate(gen.chain(110))]
    yield dict(progs=[dict(nf=110, np=110, models=[['DecisionTree', {'max_depth': '200'}]], ops=[['ins', ins], ['train', 0], ['store', 0], ['load', 0]], probes=[], region=False)], seed=99)


def script(p, probes):
    """returns the script, the observation indices, the stored files, whether a trained model was re-trained or loaded"""
    s = S()
    s.seedc(1)
    flat = ' '.join('%d %s' % (len(q), ' '.join(float(x).hex() for x in q)) for q in probes)
    s.dnew(0)
    trained = [False] * len(p['models'])
    stored = {}
    obs, files = [], []
    again = 0
    reg = p['region']
    for i, (m, par) in enumerate(p['models']):
        if reg:
            s.region(i, 'cpp', p['nf'], p['np'], 0, 'r%d' % i, m + ''.join(',%s=%s' % kv for kv in par.items()), '')
        else:
            s.mnew(i, m, p['nf'], p['np'], len(par), *[x for kv in par.items() for x in kv])

    def ask(i, r=reg):
        if probes:
            obs.append(s.raw('%s %d %d %s' % ('probes' if r else 'mgets', i, len(probes), flat)))
    n = 0
    for op in p['ops']:
        if op[0] == 'ins':
            for f, pol, m in op[1]:
                if reg:
                    for i in range(len(p['models'])):
                        s.rdins(i, f, pol, float(m))
                else:
                    s.dins(0, f, pol, float(m))
            continue
        i = op[1]
        kind = p['models'][i][0]
        if op[0] == 'train':
            again += trained[i]
            if reg:
                s.rtrain(i, n, 1, 1)
            else:
                s.mtrain(i, 0)
            trained[i] = True
            fn = 'm%d' % n
            n += 1
            s.op('mstore' if reg else 'mst', i, fn)
            files.append((fn, kind))
        elif op[0] == 'store':
            if not trained[i]:
                continue
            stored[kind] = fn = 'm%d' % n
            n += 1
            s.op('mstore' if reg else 'mst', i, fn)
            continue
        elif op[0] == 'load':
            if kind not in stored:
                continue
            s.op('mload' if reg else 'mld', i, stored[kind])
            again += 1
            trained[i] = True
        else:
            if kind not in stored:
                continue
            s.mnewp(50 + n, kind, p['np'], stored[kind])
            ask(50 + n, False)
            again += 1
            n += 1
            continue
        ask(i)
        for j in range(len(p['models'])):
            if j != i and trained[j]:
                ask(j)
    return s, obs, files, again


def thresholds(d):
    if isinstance(d, dict):
        if 'threshold' in d and int(d.get('feature_idx', -1)) >= 0:
            yield int(d['feature_idx']), f32(float(d['threshold']))
        for v in d.values():
            yield from thresholds(v)
    elif isinstance(d, list):
        for v in d:
            yield from thresholds(v)


def check(c, ctx):
    from .. import exe as X
    base, todo = [], []
    splits = again = 0
    with ctx.case() as k:
        for pi, p in enumerate(c['progs']):
            d = 'p%d' % pi
            os.makedirs(k.path(d))
            vecs = [f for op in p['ops'] if op[0] == 'ins' for f, _, _ in op[1]]
            s, _, files, _ = script(p, [])
            k.run(s, 'base', cwd=d).need_ok('default build, first pass')
            probes = []
            for f in vecs:
                if f not in probes:
                    probes.append(f)
            thr = set()
            for fn, kind in files:
                thr |= set(thresholds(parse_flow(k.read(d + '/' + fn))))
            splits += len(thr)
            for fi, t in sorted(thr)[:80]:
                for x in (t, nextf(t, False), nextf(t, True)):
                    q = list(vecs[len(probes) % len(vecs)])
                    q[fi] = x
                    probes.append(q)
            probes += p['probes']
            s, obs, _, ag = script(p, probes)
            again += ag
            base.append(k.run(s, 'base', cwd=d).need_ok('default build'))
            os.makedirs(k.path(d + 'j'))
            sp = k.path(d + '.script')
            with open(sp, 'w') as f:
                f.write(s.text())
            todo.append((d, sp, obs, probes))
        env = {x: y for x, y in os.environ.items() if not x.startswith('APOLLO_')}
        ps = []
        for d, sp, obs, probes in todo:
            err = open(k.path(d + '.err'), 'w')
            ps.append(subprocess.Popen([ctx.exes['jit'], sp, k.path(d + '.obs')], cwd=k.path(d + 'j'), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err))
            err.close()
        for pr in ps:
            try:
                pr.wait(300)
            except subprocess.TimeoutExpired:
                for x in ps:
                    x.kill()
                raise Violation('a program of the JIT build does not finish')
        for pi, (pr, (d, sp, obs, probes)) in enumerate(zip(ps, todo)):
            rc = pr.returncode
            o = k.read(d + '.obs') if k.exists(d + '.obs') else ''
            r = Run('exit' if rc >= 0 else 'signal', abs(rc), o, k.read(d + '.err'))
            r.need_ok('JIT build, program %d of %d running at the same time' % (pi, len(ps)))
            for ob in obs:
                a, b = base[pi].ints(ob), r.ints(ob)
                for q, x, y in zip(probes, a, b):
                    if x != y:
                        raise Violation('program %d, observation %d: the JIT build decides %d for %r, the default build %d' % (pi, ob, y, q, x))
    return dict(nontrivial=splits > 0 and again > 0, classes=['programs %d' % len(c['progs'])], counts={'thresholds': splits, 're-trainings and loads': again, 'decisions compared': sum(len(t[3]) * len(t[2]) for t in todo)})
