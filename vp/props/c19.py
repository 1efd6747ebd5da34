"""C19: the Kokkos connector."""
import random, itertools, math
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation, enc
from ..ref import close, ema, f32, ds_diff

RULE = ('random declarations of context and tuning variables (int, double and string sets, int and double ranges with every combination of '
        'open ends and steps, unbounded) and random histories of requests (context ids also re-used), kernels and context ends (also of unknown or already ended contexts) on 1..3 tuning problems under '
        'exploring and trained models, then a second run in the same directory (the default output directories or others); proposals are compared with the declared candidates, '
        'recorded data with the history under a scripted clock; non-trivial: a problem with at least two combinations was requested at '
        'least as often as it has combinations')
COUNT = {'quick': 12000, 'thorough': 120000}
ASSUMPTIONS = ['range steps are positive or, for a continuous double range, 0', 'no two contexts of one tuning problem are open at the same time',
               'the names of the tuning problems (their variable names joined, cut to 63 characters) are distinct', 'double grid points closer than 1e-9 steps to the upper bound may or may not be candidates']

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.'


@st.composite
def cands(draw, ty, mx=4):
    mn = 1 if draw(st.integers(0, 4)) == 3 else 2
    if ty == 's':
        return dict(q='set', v=draw(st.lists(st.text(alphabet=LETTERS, min_size=1, max_size=12).map(lambda t: t if len(t) != 3 else ('prefix-' * 9)[:63 - len(t)] + t), min_size=mn, max_size=max(mn, mx))))
    if ty == 'i':
        if draw(st.booleans()):
            return dict(q='set', v=draw(st.lists(st.one_of(st.integers(-5, 40), st.integers(-2**40, 2**40)), min_size=mn, max_size=mx + 1)))
        lo = draw(st.one_of(st.integers(-10, 20), st.integers(-2**35, 2**35)))
        step = draw(st.sampled_from([1, 1, 2, 3, 5, 64, 2**33]))
        n = draw(st.integers(mn - 1, mx + 1 if mx > 2 else mx))
        return dict(q='range', lo=lo, hi=lo + n * step + draw(st.integers(0, min(step - 1, 70))), step=step, ol=draw(st.booleans()), ou=draw(st.booleans()))
    if draw(st.booleans()):
        return dict(q='set', v=draw(st.lists(st.one_of(st.integers(-40, 40).map(lambda x: x / 8.0), st.floats(-1e9, 1e9, allow_nan=False)), min_size=mn, max_size=mx + 1)))
    lo = draw(st.one_of(st.integers(-40, 40).map(lambda x: x / 4.0), st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: round(x, 2))))
    k = draw(st.integers(0, 19))
    if k in (6, 13):
        return dict(q='range', lo=lo, hi=lo + draw(st.sampled_from([1.0, 0.5, 10.0, 1000.0])), step=0.0, ol=draw(st.booleans()), ou=draw(st.booleans()))
    step = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 0.1, 0.3, 1e-3]))
    n = draw(st.integers(mn - 1, mx + 1 if mx > 2 else mx))
    if n > 0 and draw(st.integers(0, 5)) == 4:   # a bound just beside a step
        return dict(q='range', lo=lo, hi=lo + (n + draw(st.sampled_from([1e-3, 1e-5, -1e-3, -1e-5, 1e-7, -1e-7]))) * step, step=step, ol=draw(st.booleans()), ou=draw(st.booleans()))
    return dict(q='range', lo=lo, hi=lo + n * step + draw(st.sampled_from([0, 0, 0.5, 0.25] if step in (0.25, 0.5, 1.0, 2.0) else [0.5, 0.25, 0.5, 0])) * step, step=step, ol=draw(st.booleans()), ou=draw(st.booleans()))


def pname(vs, p):
    return ('_'.join(vs[x]['name'][:64] for x in p['i'] + p['o']) + '.yaml')[:63]


@st.composite
def strategy_(draw):
    nin, nout = draw(st.integers(0, 3)), draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5]))
    ids = draw(st.permutations(range(1, 14)))
    if draw(st.integers(0, 7)) == 3:   # identifiers beyond 32 bits that agree in their lower bits
        ids = [i << 32 | i % 3 for i in ids]
    small = nout > 2 or draw(st.booleans())   # few candidates per variable: whole cycles
    vs = []
    for j in range(nin + nout):
        out = j >= nin
        ty = draw(st.sampled_from('iiidds' if out else 'iiidds'))
        nm = draw(st.sampled_from(['tile', 'size', 'kernel.name', 'x' * 20, 'y' * 63, 'z' * 64, 'w' * 80])) if draw(st.booleans()) else draw(st.text(alphabet=LETTERS, min_size=1, max_size=20))
        c = draw(cands(ty, 1 + draw(st.integers(0, 1)) if small else 4)) if out and draw(st.integers(0, 24)) != 13 else dict(q='unb')
        if not out and draw(st.booleans()):
            c = draw(cands(ty))
        vs.append(dict(id=ids[j], name='v%d.%s' % (j, nm), ty=ty, out=out, c=c))
    probs = []
    for _ in range(draw(st.integers(1, 3))):
        p = dict(i=draw(st.lists(st.integers(0, nin - 1), unique=True, max_size=3)) if nin else [],
                 o=nin and [] or [], n=draw(st.integers(1, 4)))
        p['o'] = [nin + x for x in draw(st.lists(st.integers(0, nout - 1), unique=True, min_size=draw(st.integers(1, nout)) if draw(st.integers(0, 19)) != 13 else 0, max_size=nout))]
        n = 1
        for x in p['o']:
            cs = candidates(vs[x])
            n *= 100 if cs[0] is None else max(1, len(cs[0]) + len(cs[1] or []))
        if n > 2**20:   # the connector calls more than 2**21 combinations too many
            p['o'] = [x for x in p['o'] if vs[x]['c'].get('step') != 0.0] or p['o'][:1]
        if not any(q['i'] == p['i'] and q['o'] == p['o'] or pname(vs, q) == pname(vs, p) for q in probs):
            probs.append(p)
    for p in probs:
        # a few contexts per problem
        p['ctx'] = [[draw(st.one_of(st.integers(0, 20), st.integers(-2**40, 2**40))) if vs[x]['ty'] == 'i' else
                     draw(st.integers(-40, 40)) / 8.0 if vs[x]['ty'] == 'd' else draw(st.sampled_from(['a', 'kern', 'Z9', 'k' * 62 + 'a', 'k' * 62 + 'b'])) for x in p['i']] for _ in range(p.pop('n'))]
    ops = []
    focus = draw(st.integers(0, len(probs) - 1))
    n = 1
    for x in probs[focus]['o']:
        cs = candidates(vs[x])
        n *= max(1, len(cs[0] or []) + len(cs[1] or []))
    k = draw(st.sampled_from([1, 5, 20, n + 3, 2 * n, 2 * n + n // 2 + 4, 3 * n + 10, 60]))
    for _ in range(min(k, 120)):
        x = draw(st.integers(0, 19))
        if x < 17:
            ops.append(['x', focus if draw(st.integers(0, 4)) else draw(st.integers(0, len(probs) - 1)), draw(st.integers(0, 3)), draw(st.integers(1, 10**9 - 1)), draw(st.sampled_from([0, 0, 0, 1, 2])), draw(st.sampled_from([0, 0, 0, 1]))])
        elif x < 18:
            ops.append(['par', draw(st.sampled_from(['for', 'scan', 'reduce'])), draw(st.one_of(st.integers(0, 5), st.integers(0, 2**32 - 1)))])
        else:
            ops.append(['endbad', draw(st.integers(100000, 100005)) if draw(st.integers(0, 3)) == 0 else -draw(st.integers(1, 12))])
    return dict(vars=vs, probs=probs, ops=ops, model=draw(st.sampled_from(['args', 'args', 'args', 'DecisionTree', 'RoundRobin', 'Random', 'RandomForest,explore=RoundRobin', None])),
                flush=draw(st.sampled_from([0, 0, 2, 3, 7, 10, 20, 40])), fence=draw(st.booleans()), second=draw(st.booleans()), dirs=draw(st.sampled_from([None, None, ['out', 'm', 'd'], ['out', 'models', 'datasets'], ['.apollo', 'm', 'datasets']])), seed=draw(st.integers(0, 10**6)), base=draw(st.sampled_from([0, 0, 0, 255, 65530, 2**31 - 3, 2**32 - 2, 2**48])))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # many candidates, contexts and variables
    rng = random.Random('c19-%s' % seed)
    for m in ('RoundRobin', 'args'):
        vs = [dict(id=1, name='in', ty='i', out=False, c=dict(q='unb')), dict(id=2, name='a', ty='i', out=True, c=dict(q='range', lo=1, hi=140, step=1, ol=False, ou=False)),
              dict(id=3, name='b', ty='s', out=True, c=dict(q='set', v=['x', 'y']))]
        ops = [['x', 0, rng.randrange(300), rng.randrange(1, 10**9), 0, 0] for _ in range(1200)]
        yield dict(vars=vs, probs=[dict(i=[0], o=[1, 2], ctx=[[i] for i in range(300)])], ops=ops, model=m, flush=700 if m == 'args' else 0, fence=False, second=True, seed=3)
    # a long range of candidates, many open contexts, large identifiers
    vs = [dict(id=7, name='r', ty='i', out=True, c=dict(q='range', lo=-5, hi=5200, step=2, ol=True, ou=False))]
    yield dict(vars=vs, probs=[dict(i=[], o=[0], ctx=[[]])], ops=[['x', 0, 0, 1000, 0, 0] for _ in range(2610)], model='RoundRobin', flush=0, fence=False, second=False, seed=5)
    # more combinations than fit 16 bits
    vs = [dict(id=7, name='r', ty='i', out=True, c=dict(q='range', lo=0, hi=252, step=1, ol=False, ou=False)), dict(id=8, name='q', ty='i', out=True, c=dict(q='range', lo=0, hi=2600, step=10, ol=False, ou=False))]
    yield dict(vars=vs, probs=[dict(i=[], o=[0, 1], ctx=[[]])], ops=[['x', 0, 0, 1000, 0, 0]] * 66035, model='RoundRobin', flush=0, fence=False, second=False, seed=5)
    # and one variable of that many candidates
    vs = [dict(id=7, name='r', ty='i', out=True, c=dict(q='range', lo=3, hi=40002, step=1, ol=False, ou=False))]
    yield dict(vars=vs, probs=[dict(i=[], o=[0], ctx=[[]])], ops=[['x', 0, 0, 1000, 0, 0]] * 40002, model='RoundRobin', flush=0, fence=False, second=False, seed=5)
    vs = [dict(id=2**33 + j, name='in%d' % j, ty='i', out=False, c=dict(q='unb')) for j in range(70)] + [dict(id=2**34 + 1, name='o', ty='i', out=True, c=dict(q='set', v=[1, 2, 4]))]
    yield dict(vars=vs, probs=[dict(i=[j], o=[70], ctx=[[j + 3]]) for j in range(70)], ops=[['x', i % 70, 0, rng.randrange(1, 10**6), 69, 0] for i in range(350)], model='RoundRobin', flush=0, fence=False, second=False, seed=6, base=2**40)
    vs = [dict(id=300 + j, name='i%d' % j, ty='d', out=False, c=dict(q='unb')) for j in range(20)] + [dict(id=600 + j, name='o%d' % j, ty='i', out=True, c=dict(q='set', v=[j, j + 1000])) for j in range(8)]
    ops = [['x', 0, rng.randrange(3), rng.randrange(1, 10**9), 0, 0] for _ in range(530)]
    yield dict(vars=vs, probs=[dict(i=list(range(20)), o=list(range(20, 28)), ctx=[[float(i + j) for j in range(20)] for i in range(3)])], ops=ops, model='RoundRobin', flush=0, fence=False, second=False, seed=4)


def candidates(v):
    """(list of certain candidates, list of possible ones, predicate of admissible values)"""
    c = v['c']
    if c['q'] == 'unb':
        return [], [], lambda x: False
    if c['q'] == 'set':
        return list(c['v']), [], lambda x: x in c['v']
    lo, hi, st_ = c['lo'], c['hi'], c['step']
    inb = lambda x: (x > lo if c['ol'] else x >= lo) and (x < hi if c['ou'] else x <= hi)
    if v['ty'] == 'i':
        g = [x for x in range(lo, hi + 1, st_) if inb(x)]
        gs = set(g)
        return g, [], lambda x: x in gs
    if st_ == 0:
        return None, None, inb
    sure, maybe = [], []
    k = 0
    while k < 100:
        x = lo + k * st_
        if x > hi + 1e-9 * st_ * (1 + abs(k)) + abs(hi) * 1e-12:
            break
        edge = abs(x - hi) <= 1e-9 * st_ + abs(hi) * 1e-12
        if x == hi and hi - lo == k * st_ and float(lo * 1024).is_integer() and float(st_ * 1024).is_integer():
            edge = False
        if k == 0 and c['ol']:
            pass
        elif edge:
            maybe.append(x)
        elif x < hi or x == hi and not c['ou']:
            sure.append(x)
        k += 1
    tol = 1e-9 * st_ + 1e-12 * (abs(lo) + abs(hi))
    return sure, maybe, lambda x: inb(x) and any(abs(x - y) <= tol for y in sure + maybe)


def fl(v, x):
    return f32(float(x))


def decl(s, v):
    a = ['kout' if v['out'] else 'kin', str(v['id']), enc(v['name']), v['ty']]

    def val(x):
        return str(x) if v['ty'] == 'i' else float(x).hex() if v['ty'] == 'd' else enc(x)
    c = v['c']
    if c['q'] == 'set':
        a += ['set', str(len(c['v']))] + [val(x) for x in c['v']]
    elif c['q'] == 'range':
        a += ['range', val(c['lo']), val(c['hi']), val(c['step']), str(int(c['ol'])), str(int(c['ou']))]
    else:
        a += ['unb']
    s.raw(' '.join(a))


def req(s, cid, c, p, ci):
    ctx = p['ctx'][ci % len(p['ctx'])]
    a = ['kreq', str(cid), str(len(p['i']))]
    for x, val in zip(p['i'], ctx):
        v = c['vars'][x]
        a += [str(v['id']), str(val) if v['ty'] == 'i' else float(val).hex() if v['ty'] == 'd' else enc(val)]
    a += [str(len(p['o']))] + [str(c['vars'][x]['id']) for x in p['o']]
    return s.raw(' '.join(a)), ctx


def head(c):
    s = S()
    s.seed(c['seed'])
    s.clock(10, 0)
    s.env({'APOLLO_PERSISTENT_DATASETS': 1})
    if c.get('dirs'):
        s.env(dict(zip(('APOLLO_OUTPUT_DIR', 'APOLLO_MODELS_DIR', 'APOLLO_DATASETS_DIR'), c['dirs'])))
    if c['model'] == 'args':
        s.raw('kparse 2 prog ' + ('--flush-rate=%d' % c['flush'] if c['flush'] else '--trace'))
    else:
        if c['model']:
            s.env({'APOLLO_POLICY_MODEL': c['model']})
    if c['fence']:
        s.kfence()
    s.kinit()
    for v in c['vars']:
        decl(s, v)
    return s


def proposal(c, p, line):
    """observation -> list of values; checks the other fields and admissibility"""
    if 'INPUT-CHANGED' in line:
        raise Violation('a request changed its context variables')
    parts = line.split('|')[1:]
    vals = []
    for x, part in zip(p['o'], parts):
        v = c['vars'][x]
        w = part.split()
        if int(w[0]) != v['id'] or w[1] != '1':
            raise Violation('a request changed type id or metadata of variable %s' % v['name'])
        if v['ty'] == 'i':
            val, unset = int(w[2]), -777777
        elif v['ty'] == 'd':
            val, unset = float.fromhex(w[2]), -777777.5
        else:
            val, unset = bytes.fromhex(w[2].rstrip('.')).decode(), '<unset>'
        sure, maybe, adm = v['_c']
        if sure is not None and not sure and not maybe:
            if val != unset:
                raise Violation('variable %s has no candidates but got the value %r' % (v['name'], val))
        elif not adm(val) and not (val == unset and sure == [] and maybe):
            raise Violation('variable %s got the value %r, declared candidates: %r' % (v['name'], val, v['c']))
        vals.append(val)
    return tuple(vals)


def check(c, ctx):
    c = dict(c, vars=[dict(v) for v in c['vars']])
    for v in c['vars']:
        v['_c'] = candidates(v)
    s = head(c)
    log, open_, done = [], [], []
    cid = c.get('base', 0)
    now = [0]
    ended = 0
    events = []

    def finish(j=-1):
        nonlocal ended
        e = open_.pop(j)
        s.adv(0, e['ns'])
        now[0] += e['ns']
        s.kend(e['cid'])
        done.append(e['cid'])
        e['t'] = (now[0] - e['t0']) / 1e9
        events.append(('end', e))
    for op in c['ops']:
        if op[0] == 'x':
            p = c['probs'][op[1]]
            j = [i for i, e in enumerate(open_) if e['pi'] == op[1]]
            if j:
                finish(j[0])
            while len(open_) > op[4]:
                finish()
            cid += 1
            use = cid
            if op[5] and done and all(e['cid'] != done[-1] for e in open_):
                use = done[-1]   # the id of an ended context again
            t0 = now[0]
            o, cv = req(s, use, c, p, op[2])
            e = dict(pi=op[1], cid=use, t0=t0, ns=op[3], o=o, cv=cv)
            events.append(('req', e))
            open_.append(e)
        elif op[0] == 'par':
            events.append(('par', op[2], s.kpar(op[1], op[2])))
        elif op[1] > 0:
            s.kend(op[1])
        elif len(done) >= -op[1] and all(e['cid'] != done[op[1]] for e in open_):
            s.kend(done[op[1]])   # ended before
    while open_:
        finish()
    finalq = []
    for pi, p in enumerate(c['probs']):
        if p['o'] and any(e[0] == 'req' and e[1]['pi'] == pi for e in events):
            for ci in range(len(p['ctx'])):
                cid += 1
                o, cv = req(s, cid, c, p, ci)
                finalq.append((pi, ci, o))
                s.kend(cid)
    s.kfin()
    flush = c['flush'] if c['model'] == 'args' and c['flush'] else 500
    exploring_rr = c['model'] in ('args', 'DecisionTree', 'RoundRobin', 'RandomForest,explore=RoundRobin')
    full = cycles = 0
    with ctx.case() as k:
        r = k.run(s).need_ok('connector history')
        # proposals
        seen = {}
        ends = 0
        trained = set()
        data = {}
        created = tuned = 0
        best = {}
        for ev in events:
            if ev[0] == 'par':
                f = r.ints(ev[2])
                if c['fence'] and created and ends < flush and (f[0] < 1 or f[1] < 1 or f[2] != ev[1]):
                    raise Violation('a kernel on device %d while exploring is fenced %d times at its begin, %d times at its end (last device %d)' % (ev[1], f[0], f[1], f[2]))
                continue
            e = ev[1]
            p = c['probs'][e['pi']]
            if ev[0] == 'req':
                vals = proposal(c, p, r.get(e['o'], 'KREQ'))
                if p['o']:
                    created += 1
                    q = seen.setdefault(e['pi'], [])
                    if e['pi'] in best:
                        tuned += 1
                        if vals != best[e['pi']][0]:
                            raise Violation('a problem measured in one context only proposes %r after training, the best combination measured is %r: %r' % (vals, best[e['pi']][0], best[e['pi']][1]))
                    if e['pi'] not in trained:
                        q.append(vals)
                e['vals'] = vals
                continue
            if not p['o']:
                continue
            ends += 1
            data.setdefault(e['pi'], []).append(e)
            if ends % flush == 0:
                for pi in set(data) - trained:
                    exp = {}
                    for x in data[pi]:
                        kk = x['vals']
                        exp[kk] = x['t'] if kk not in exp else .5 * exp[kk] + .5 * x['t']
                    m = sorted(exp.values())
                    if c['model'] in ('args', 'DecisionTree', 'RandomForest,explore=RoundRobin') and len({tuple(x['cv']) for x in data[pi]}) == 1 and (len(m) == 1 or m[1] > m[0] * (1 + 1e-6)) and not dupcand(c, c['probs'][pi]):
                        if all(x == y for x, y in zip(c['probs'][pi]['ctx'], c['probs'][pi]['ctx'][1:])):
                            best[pi] = min(exp, key=exp.get), exp
                if c['model'] not in ('RoundRobin', 'Random', None):
                    trained |= set(data)
        if exploring_rr:
            for pi, q in seen.items():
                p = c['probs'][pi]
                cs = [c['vars'][x]['_c'] for x in p['o']]
                if any(x[0] is None or x[1] for x in cs):
                    continue
                combos = sorted(itertools.product(*[sorted(x[0]) or [None] for x in cs]), key=repr)
                n = len(combos)
                cycles += len(q) // n
                if n > 1 and len(q) >= n:
                    full += 1
                for a in range(0, len(q) - n + 1):
                    got = sorted([tuple(y if x[0] else None for x, y in zip(cs, w)) for w in q[a:a + n]], key=repr)
                    if any(not all(same(x, y) for x, y in zip(u, v)) for u, v in zip(got, combos)) and not rematch(got, combos):
                        raise Violation('%d requests of a problem with %d combinations %r propose %r' % (n, n, combos[:40], got[:40]))
        # recorded data
        s2 = S()
        dd = '%s/%s' % (c['dirs'][0], c['dirs'][2]) if c.get('dirs') else '.apollo/datasets'
        want = {}
        for pi, es in data.items():
            name = pname(c['vars'], c['probs'][pi])
            s2.dnew(pi)
            s2.dload(pi, '%s/Dataset-%s.yaml' % (dd, name))
            want[pi] = s2.ddump(pi)
            if not k.exists('%s/Dataset-%s.yaml' % (dd, name)):
                raise Violation('no data were recorded for the problem %s: %r' % (name, k.files('.apollo')))
        if want:
            r2 = k.run(s2).need_ok('reading the recorded data')
        for pi, es in data.items():
            p = c['probs'][pi]
            got = r2.ds(want[pi])
            # group by policy values: the policy index of a proposal is not observable, the grouping is
            pol = {}
            exp = {}
            for e in es + [dict(cv=p['ctx'][ci], vals=proposal(c, p, r.get(o, 'KREQ')), t=0.0) for q, ci, o in finalq if q == pi]:
                key = tuple(x if c['vars'][y]['ty'] == 's' else fl(c['vars'][y], x) for x, y in zip(e['cv'], p['i']))
                kk = (key, e['vals'])
                exp[kk] = e['t'] if kk not in exp else .5 * exp[kk] + .5 * e['t']
            dup = dupcand(c, p)
            if dup:
                continue   # equal values of different candidates cannot be told apart
            strs = [j for j, y in enumerate(p['i']) if c['vars'][y]['ty'] == 's']

            def strip(f):
                return tuple(x for j, x in enumerate(f) if j not in strs)
            a = sorted((strip(f), m) for (f, q), m in got.items())
            b = sorted((strip(f), m) for (f, q), m in exp.items())
            if len(a) != len(b) or any(x[0] != y[0] or abs(x[1] - y[1]) > 1e-8 + 1e-9 * abs(y[1]) for x, y in zip(a, b)):
                raise Violation('problem %r: recorded (context, time) %r, the ended contexts were %r' % ([c['vars'][x]['name'] for x in p['i'] + p['o']], a[:30], b[:30]))
        # a second run finds the stored models
        if c['second'] and c['model'] in ('args', 'RandomForest,explore=RoundRobin') and trained:
            s3 = head(dict(c, flush=0))
            q3 = []
            order = sorted({x[0] for x in finalq})
            for rep in range(2):
                for pi, ci, o in finalq:
                    if pi in trained:
                        cid += 1
                        o3, _ = req(s3, cid, c, c['probs'][pi], ci)
                        q3.append((pi, ci, o, o3))
                        s3.kend(cid)
            r3 = k.run(s3).need_ok('second run with the stored models')
            for pi, ci, o, o3 in q3:
                p = c['probs'][pi]
                x, y = proposal(c, p, r.get(o, 'KREQ')), proposal(c, p, r3.get(o3, 'KREQ'))
                if x != y:
                    raise Violation('the second run proposes %r for the context %r, the stored model says %r' % (y, p['ctx'][ci], x))
    return dict(nontrivial=full > 0, classes=['model %s' % c['model']] + ['trained'] * bool(trained) + ['second run'] * (c['second'] and bool(trained) and c['model'] == 'args'),
                counts={'full cycles': cycles, 'requests': sum(len(q) for q in seen.values()), 'ended contexts': ends, 'proposals of the best combination': tuned})


def dupcand(c, p):
    return any(v['_c'][0] is None and v['c']['lo'] == v['c']['hi'] or v['_c'][0] and len(set(v['_c'][0])) < len(v['_c'][0]) for v in (c['vars'][y] for y in p['o']))


def same(x, y):
    return x == y or isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))


def rematch(got, combos):
    left = list(combos)
    for g in got:
        for x in left:
            if all(same(a, b) for a, b in zip(g, x)):
                left.remove(x)
                break
        else:
            return False
    return True
