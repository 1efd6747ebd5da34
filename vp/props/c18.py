"""C18: PolicyNet learning and sampling."""
import random, struct, numpy as np
from hypothesis import strategies as st
from .. import gen, net
from ..exe import S, Violation
from ..ref import ema, f32

RULE = ('random sequences of measurements, trainings on datasets of changing size and decision samples on a PolicyNet with random shape '
        'and parameters; after every training the stored network is compared with a numpy REINFORCE + Adam step from the network stored '
        'before, the reward average and count with the reference, and samples of decisions with the softmax of the stored network '
        '(chi-square, 1e-10); "bandit" cases train on data with a consistently fastest policy, which must become dominant; '
        'non-trivial: at least two trainings that changed the network, or a bandit case')
COUNT = {'quick': 12000, 'thorough': 80000}
ASSUMPTIONS = ['features are non-negative and below 2^64', 'gradients are not compared where a hidden unit is at the kink of its activation',
               'update tolerance 1e-5 * learning rate + 1e-10 relative', 'statistical tests at significance 1e-10']
feat = st.one_of(st.integers(1, 12).map(float), st.integers(0, 300).map(float), st.integers(1, 2**24).map(float), st.sampled_from([2.0**31, 2.0**32 + 512, 2.0**40, 2.0**63]),
                 st.integers(0, 80).map(lambda x: x / 8.0)).map(f32)
met = st.one_of(st.integers(0, 24).map(lambda x: x / 8.0), st.integers(1, 10**6).map(lambda x: x / 1e6), st.floats(0, 40, allow_nan=False, allow_subnormal=False))


@st.composite
def seq_case(draw):
    nf, npol = draw(st.sampled_from([1, 1, 1, 2, 3])), draw(st.integers(1, 6))
    vecs = [[draw(feat) for _ in range(nf)] for _ in range(draw(st.integers(1, 6)))]
    params = {}
    for k, vs in (('lr', ['0.01', '0.1', '0.001', '0.5']), ('beta', ['0.5', '0.9', '0.1', '0', '0.99']), ('beta1', ['0.5', '0.9', '0', '0.3']),
                  ('beta2', ['0.9', '0.999', '0.5']), ('threshold', ['0', '0.2', '0.5', '0.9', '1e-3', '2'])):
        if draw(st.integers(0, 2)) == 0:
            params[k] = draw(st.sampled_from(vs))
    ops = [['ins', 0, [[draw(st.integers(0, len(vecs) - 1)), draw(st.integers(0, npol - 1)), draw(met)] for _ in range(draw(st.integers(1, 8)))]]]
    for _ in range(draw(st.integers(1, 16))):
        x = draw(st.integers(0, 9))
        d = draw(st.integers(0, 1))
        if x < 4:
            ops.append(['ins', d, [[draw(st.integers(0, len(vecs) - 1)), draw(st.integers(0, npol - 1)), draw(met)] for _ in range(draw(st.integers(1, 6)))]])
        elif x < 8:
            ops.append(['train', d])
        elif x < 9:
            ops.append(['sample', draw(st.integers(0, len(vecs) - 1)), draw(st.sampled_from([50, 600, 2000]))])
        else:
            ops.append(['clear', d])
    ops.append(['sample', 0, 600])
    c = dict(mode='seq', nf=nf, np=npol, vecs=vecs, params=params, ops=ops, seed=draw(st.integers(0, 2**40)))
    if draw(st.integers(0, 3)) == 2:
        # the network starts from a file: weights of any size, outputs far from zero
        c['start'] = [draw(st.sampled_from([0.1, 0.3, 1.0, 3.0])), draw(st.sampled_from([0.0, -2000.0, 2000.0, 750.0, -750.0, 1e5])), draw(st.integers(0, 2**30)), draw(st.integers(0, 6)), draw(st.integers(0, 8)) / 8.0]
    return c


@st.composite
def bandit_case(draw):
    npol = draw(st.integers(2, 5))
    nv = draw(st.integers(1, 3))
    return dict(mode='bandit', np=npol, vecs=[[float(draw(st.integers(1, 200)))] for _ in range(nv)], best=draw(st.integers(0, npol - 1)),
                fast=draw(st.sampled_from([0.0, 0.05, 0.2])), slow=draw(st.sampled_from([1.5, 3.0, 10.0])), seed=draw(st.integers(0, 2**40)), loop=draw(st.booleans()))


def strategy(tier):
    return st.one_of(seq_case(), seq_case(), seq_case(), bandit_case())


def fixed(tier, seed):
    # batches beyond 8 bits, wide networks
    rng = random.Random('c18-%s' % seed)
    for nf, npol, nvec in ((1, 3, 300), (1, 300, 4), (6, 2, 300), (2, 260, 300)):
        vecs = [[float(rng.randrange(1, 300)) for _ in range(nf)] for _ in range(nvec)]
        data = lambda n: [[rng.randrange(nvec), rng.randrange(npol), rng.randrange(1, 24) / 8.0] for _ in range(n)]
        yield dict(mode='seq', nf=nf, np=npol, vecs=vecs, params={}, ops=[['ins', 0, data(5)], ['train', 0], ['ins', 0, data(700)], ['train', 0], ['ins', 1, data(20)], ['train', 1], ['train', 0], ['sample', 0, 600]], seed=11)
    # many feature vectors evaluated between trainings, many trainings
    vecs = [[float(i + 1)] for i in range(400)]
    yield dict(mode='seq', nf=1, np=4, vecs=vecs, params={'lr': '0.1'}, ops=[['ins', 0, [[i, i % 4, i % 7 / 4.0] for i in range(40)]], ['train', 0], ['train', 0], ['train', 0]] + [['sample', i, 40] for i in range(400)] + [['sample', i, 3000] for i in (0, 127, 399)], seed=12)
    yield dict(mode='seq', nf=1, np=3, vecs=vecs, params={}, ops=[['ins', 0, [[i, i % 3, i % 7 / 4.0] for i in range(6)]]] + [['train', 0]] * 300 + [['sample', 1, 600]], seed=13)
    yield dict(mode='seq', nf=1, np=3, vecs=vecs, params={'beta': '0.97', 'beta1': '0.95', 'beta2': '0.99'}, ops=[['ins', 0, [[i, i % 3, i % 7 / 4.0] for i in range(60)]]] + [['train', 0]] * 90 + [['ins', 0, [[i, 0, 0.5] for i in range(60)]]] + [['train', 0]] * 5 + [['sample', 1, 600]], seed=14)
    # every bit of a feature counts, however many vectors are evaluated between trainings; what was evaluated before a training is not reused
    for nf in (1, 2):
        bits = [[0.0] * nf] + [[2.0 ** i if j == w else 1.0 for j in range(nf)] for w in range(nf) for i in range(64)] + [[2.0 ** i + 2.0 ** (i - 20)] * nf for i in range(20, 64)]
        yield dict(mode='seq', nf=nf, np=3, vecs=bits, params={}, start=[1.0, 0.0, rng.randrange(2**30), 3, 0.5], ops=[['sample', i, 300] for i in range(len(bits))], seed=16)
    for nvec in (20, 70, 130, 300):
        vecs2 = vecs[:nvec]
        smp = [['sample', i, 500] for i in range(0, nvec, max(1, nvec // 12))]
        ins = [['ins', 0, [[i, i % 4, i % 4 * 2.0] for i in range(nvec)]]]
        yield dict(mode='seq', nf=1, np=4, vecs=vecs2, params={'lr': '0.5'}, start=[0.3, 0.0, rng.randrange(2**30), 3, 0.5], ops=smp + ins + [['train', 0]] + smp + [['train', 0]] + smp, seed=17)
    # an average that is exactly the threshold is not below it
    for thr, data in (('0.5', [[0, 0, 0.0], [1, 1, 1e6]]), ('1', [[0, 2, 0.0]]), ('0', [[0, 1, 1e6]]), ('0.75', [[0, 0, 0.0], [1, 1, 1e6], [2, 2, 0.0], [3, 1, 0.0]])):
        yield dict(mode='seq', nf=1, np=3, vecs=vecs[:4], params={'beta': '0.5', 'threshold': thr}, ops=[['ins', 0, data], ['train', 0], ['sample', 1, 600], ['train', 0], ['train', 0], ['sample', 0, 600]], seed=15)


def check(c, ctx):
    return bandit(c, ctx) if c['mode'] == 'bandit' else seq(c, ctx)


def bandit(c, ctx):
    s = S()
    s.seed(c['seed'])
    v = c['vecs']
    if not c['loop']:
        s.dnew(0)
        for f in v:
            for p in range(c['np']):
                s.dins(0, f, p, c['fast'] if p == c['best'] else c['slow'])
        s.mnew(0, 'PolicyNet', 1, c['np'], 0)
        for _ in range(120):
            s.mtrain(0, 0)
        s.mst(0, 'net')
        obs = [(f, s.msample(0, 500, f)) for f in v]
        with ctx.case() as k:
            r = k.run(s).need_ok('bandit')
            par, _, cnt = net.parse(k.read('net', True), 1, c['np'])
            for f, o in obs:
                h = net.hist(r.get(o, 'H'), c['np'])
                if h[c['best']] < 300:
                    raise Violation('after 120 trainings policy %d, always fastest (%r against %r), is taken %d of 500 times for %r' % (c['best'], c['fast'], c['slow'], h[c['best']], f))
                net.fits(h, net.probs(par, f), 'decisions for %r' % f)
        return dict(nontrivial=True, classes=['bandit'])
    # closed loop through a region
    s.region(0, 'cpp', 1, c['np'], 0, 'bandit', 'PolicyNet', '')
    pis = []
    n = 0
    # every policy is measured first, as the application cannot know the decisions beforehand the metric depends on them: scripted by data
    for f in v:
        for p in range(c['np']):
            s.rdins(0, f, p, c['fast'] if p == c['best'] else c['slow'])
    for e in range(120):
        s.train(e)
    for j in range(300):
        s.beginf(0, j, v[j % len(v)])
        pis.append(s.pol(j))
        s.endm(j, c['slow'])
    with ctx.case() as k:
        r = k.run(s).need_ok('bandit')
        good = sum(r.int(p) == c['best'] for p in pis)
        if good < 180:
            raise Violation('region: policy %d, always fastest, is taken %d of 300 times after 120 trainings' % (c['best'], good))
    return dict(nontrivial=True, classes=['bandit region'])


def seq(c, ctx):
    nf, npol = c['nf'], c['np']
    P = {'lr': .01, 'beta': .5, 'beta1': .5, 'beta2': .9, 'threshold': 0.0}
    P.update({k: float(v) for k, v in c['params'].items()})
    s = S()
    s.seed(c['seed'])
    s.mnew(0, 'PolicyNet', nf, npol, len(c['params']), *[x for kv in c['params'].items() for x in kv])
    s.dnew(0)
    s.dnew(1)
    blob = None
    if c.get('start'):
        scale, shift, sd, n, avg = c['start']
        rng = np.random.RandomState(sd)
        par = [rng.standard_normal(x) * scale for x in net.shapes(nf, npol)]
        par[5] = par[5] + shift
        blob = b''.join(x.astype('<f8').tobytes() for x in par) + struct.pack('<di', avg if n else 0.0, n)
        s.mld(0, 'start')
    s.mst(0, 'n0')
    nst = 1
    refds = [{}, {}]
    log = []
    for op in c['ops']:
        if op[0] == 'ins':
            for vi, p, m in op[2]:
                s.dins(op[1], c['vecs'][vi], p, float(m))
                ema(refds[op[1]], c['vecs'][vi], p, m)
        elif op[0] == 'clear':
            s.dclear(op[1])
            refds[op[1]] = {}
        elif op[0] == 'train':
            s.mtrain(0, op[1])
            s.mst(0, 'n%d' % nst)
            log.append(('train', dict(refds[op[1]]), nst))
            nst += 1
        else:
            log.append(('sample', c['vecs'][op[1]], op[2], s.msample(0, op[2], c['vecs'][op[1]]), nst - 1))
    upd = below = skipped = 0
    with ctx.case() as k:
        if blob is not None:
            with open(k.path('start'), 'wb') as fh:
                fh.write(blob)
        r = k.run(s).need_ok('PolicyNet sequence')
        nets = [net.parse(k.read('n%d' % i, True), nf, npol) for i in range(nst)]
        if blob is not None:
            if k.read('n0', True) != blob:
                raise Violation('the network stored after loading differs from the loaded file')
        elif nets[0][1] != 0 or nets[0][2] != 0:
            raise Violation('a fresh network has reward average %r after %d trainings' % (nets[0][1], nets[0][2]))
        adam = net.Adam(P['lr'], P['beta1'], P['beta2'])
        okl = [True, True]   # gradients of layer 1 / 2 known so far
        amb = False
        for e in log:
            if e[0] == 'sample':
                _, f, times, o, at = e
                par, avg, cnt = nets[at]
                h = net.hist(r.get(o, 'H'), npol)
                base = avg / (1 - P['beta'] ** cnt) if cnt else 0.0
                if abs(base - P['threshold']) < 1e-12 and base != P['threshold']:
                    continue
                if base < P['threshold']:
                    below += 1
                    if h[0] != times:
                        raise Violation('the average reward %r is below the threshold %r, but policies %r are taken for %r' % (base, P['threshold'], h, f))
                else:
                    net.fits(h, net.probs(par, f), 'decisions for %r' % f)
                continue
            _, ds, at = e
            old, oavg, ocnt = nets[at - 1]
            new, navg, ncnt = nets[at]
            if not ds:
                if ncnt != ocnt or navg != oavg or any((a != b).any() for a, b in zip(old, new)):
                    raise Violation('training without data changed the network')
                continue
            keys = sorted(ds)
            R = np.array([np.exp(-ds[x]) for x in keys])
            avg = P['beta'] * oavg + (1 - P['beta']) * R.mean()
            if abs(avg - navg) > 1e-11 * max(1, abs(avg)) or ncnt != ocnt + 1:
                raise Violation('training %d on %r: reward average %r after %d trainings, expected %r after %d' % (at, ds, navg, ncnt, avg, ocnt + 1))
            base = navg / (1 - P['beta'] ** ncnt)
            if abs(base - P['threshold']) < 1e-12 and base != P['threshold']:
                amb = True
            if amb:
                continue
            if base < P['threshold']:
                below += 1
                if any((a != b).any() for a, b in zip(old, new)):
                    raise Violation('training %d changed the network although the average reward %r is below the threshold %r' % (at, base, P['threshold']))
                continue
            X = np.array([net.encode(x[0]) for x in keys])
            acts = np.array([x[1] for x in keys])
            g, (k1, k2) = net.gradient(old, X, acts, R - base)
            exp = adam.step(old, g)
            okl[1] = okl[1] and not k2
            okl[0] = okl[0] and not k2 and not k1
            upd += 1
            skipped += not okl[0]
            for i in range(6):
                if not (okl[0], okl[1], True)[i // 2]:
                    continue
                d = np.abs(exp[i] - new[i])
                bad = d > 1e-5 * P['lr'] + 1e-10 * np.abs(old[i])
                if bad.any():
                    j = tuple(int(x) for x in np.argwhere(bad)[0])
                    raise Violation('training %d on %r: %s of layer %d at %r changed by %.9g, the Adam step of the policy gradient is %.9g (%d of %d parameters differ)' %
                                    (at, ds, 'weight' if i % 2 == 0 else 'bias', i // 2 + 1, j, new[i][j] - old[i][j], exp[i][j] - old[i][j], bad.sum(), bad.size))
    return dict(nontrivial=upd >= 2, classes=['from file'] * bool(c.get('start')) + ['params'] * bool(c['params']) + ['below threshold'] * (below > 0), counts={'updates': upd, 'updates with kinks': skipped})
