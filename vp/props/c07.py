"""C07: persisted datasets."""
import random, struct
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation
from ..ref import argmins, ds_diff, ema, f32, parse_dtree, parse_forest, verify_training_data

RULE = ('random datasets with features of many float styles and metrics over the whole double range are stored and loaded '
        '(file and string stream, into empty and non-empty datasets); histories of 2..4 program runs with persistent datasets '
        'on 1..3 regions in configured directories, where every run must start with the bits the previous one ended with; '
        '`load-dataset` runs; dataset files with comments, other spacing and number formats and repeated pairs, loaded by datasets and regions; non-trivial: at least two entries, one of which needs more than 6 significant digits')
COUNT = {'quick': 12000, 'thorough': 80000}
ASSUMPTIONS = ['features and metrics are finite', 'region names are file names', 'a region is created by one process at a time']

wide = st.one_of(gen.metric, st.floats(allow_nan=False, allow_infinity=False))


@st.composite
def ds_case(draw):
    nf = draw(st.sampled_from([0, 1, 1, 2, 3, 6]))
    return dict(mode='ds', nf=nf, ins=draw(gen.inserts(nf, draw(st.sampled_from([1, 3, 70000, 2**31 - 1])), 6, 14, met=wide)),
                ins2=draw(gen.inserts(nf, 3, 3, 4)), stream=draw(st.booleans()))


@st.composite
def runs_case(draw):
    nr = draw(st.integers(1, 3))
    names = draw(gen.region_names(nr))
    regs = []
    for i in range(nr):
        nf = draw(st.integers(0, 3))
        regs.append(dict(name=names[i], nf=nf, np=draw(st.integers(1, 5)), vecs=draw(gen.vectors(nf, 4)),
                         model=draw(st.sampled_from(['DecisionTree', 'RandomForest', 'Static,policy=0', 'RoundRobin', 'DecisionTree,explore=Random'])),
                         load=draw(st.integers(0, 2)) == 0))
    runs = []
    for _ in range(draw(st.integers(2, 4))):
        ops = []
        for _ in range(draw(st.integers(0, 10))):
            r = draw(st.integers(0, nr - 1))
            if draw(st.integers(0, 6)) == 0:
                ops.append(['train'])
            else:
                ops.append([r, draw(st.sampled_from(regs[r]['vecs'])), draw(gen.metric)])
        runs.append(ops)
    return dict(mode='runs', regs=regs, runs=runs, seed=draw(st.integers(0, 10**6)), order=draw(st.booleans()),
                env=draw(st.sampled_from([{}, {}, {'APOLLO_OUTPUT_DIR': 'oo'}, {'APOLLO_DATASETS_DIR': 'dd'},
                                          {'APOLLO_OUTPUT_DIR': 'o1', 'APOLLO_DATASETS_DIR': 'd1'}])))


@st.composite
def load_case(draw):
    nf = draw(st.sampled_from([1, 1, 2, 3]))
    npol = draw(st.integers(1, 5))
    return dict(mode='load', nf=nf, np=npol, ins=draw(gen.inserts(nf, npol, 6, 14, met=gen.pos_metric)), mtd=draw(st.sampled_from([0, 0, 1, 50])),
                kind=draw(st.sampled_from(['DecisionTree', 'RandomForest'])), depth=draw(st.integers(0, 4)), name=draw(gen.region_names(1))[0],
                persistent=draw(st.booleans()), missing=draw(st.integers(0, 5)) == 0)


gap = st.sampled_from([' ', ' ', ' ', ' ', '\n', '\t', '   ', '\r\n', '\n\n', ' # xtime: 3 }, \n', '\n#\n', '\n## a } [ b,\n  # more\n',
                       '\n#' + 'word 1 } ' * 9 + '\n', '\n# ' + 'x' * 90 + '\n', '\n#' + '=' * 300 + ' data: {\n', '\n#' + 'trace-1.csv ' * 400 + '\n', ' ' * 300])


@st.composite
def file_case(draw):
    """a file as create-dataset.py or a person writes it: comments, other spacing and number formats, repeated pairs"""
    nf = draw(st.sampled_from([0, 1, 1, 2, 3]))
    npol = draw(st.integers(1, 4))
    vecs = draw(gen.vectors(nf, 4))
    ents = [[draw(st.integers(0, 10**6)), [[x, draw(st.integers(0, 3))] for x in draw(st.sampled_from(vecs))], draw(st.integers(0, npol - 1)), draw(gen.pos_metric), draw(st.integers(0, 3))]
            for _ in range(draw(st.integers(0, 8)))]
    return dict(mode='file', nf=nf, np=npol, ents=ents, head=draw(st.sampled_from(['', '# agg by none\n', '# agg by mean\n', '\n  # a\n# b\n'])), gaps=draw(st.lists(gap, min_size=1, max_size=25)),
                tail=draw(st.sampled_from(['', '\n', '\n\n'])), into=draw(st.sampled_from(['dataset', 'persistent', 'DatasetMap', 'load-dataset'])), too=draw(st.booleans()), mtd=draw(st.sampled_from([0, 50])))


def number(x, how):
    if how == 1 and x == int(x) and abs(x) < 1e9:
        return '%d' % x
    if how == 2:
        return '%.17e' % x
    if how == 3:
        return '%.17G' % x
    return repr(x)


def check_file(c, ctx):
    tok = ['data:', '{']
    exp = {}
    for i, f, p, m, how in c['ents']:
        tok += ['%d:' % i, '{', 'features:', '['] + [number(x, h) + ',' for x, h in f] + ['],', 'policy:', '%d,' % p, 'xtime:', number(m, how), '},']
        ema(exp, tuple(f32(x) for x, _ in f), p, float(m))
    tok.append('}')
    text = c['head'] + ''.join(t + c['gaps'][i % len(c['gaps'])] for i, t in enumerate(tok[:-1])) + tok[-1] + c['tail']
    with ctx.case() as k:
        s = S()
        what = 'dataset file %r loaded by %s%s' % (text, c['into'], ' with persistent datasets' * bool(c.get('too')))
        if c['into'] == 'dataset':
            k.write('f', text)
            s.dnew(0)
            s.dload(0, 'f')
            d = s.ddump(0)
            ds_diff(k.run(s).need_ok(what).ds(d), exp, what)
        else:
            k.write('.apollo/datasets/Dataset-reg.yaml', text)
            if c['into'] == 'persistent' or c.get('too'):
                s.env({'APOLLO_PERSISTENT_DATASETS': 1})
            model = dict([('DatasetMap', 'DatasetMap'), ('load-dataset', 'DecisionTree,load-dataset')]).get(c['into'], 'DecisionTree')
            s.region(0, 'cpp', c['nf'], c['np'], c['mtd'], 'reg', model, '')
            d = s.ds(0)
            t = s.trainable(0)
            qs = []
            if c['into'] == 'DatasetMap':
                for f in {f for f, _ in exp}:
                    s.op('beginf', 0, 1, list(f))
                    qs.append((f, s.pol(1)))
                    s.endm(1, 1.0)
            r = k.run(s)
            if c['into'] in ('load-dataset', 'DatasetMap') and not exp:
                if r.ok:
                    raise Violation(what + ': training with an empty dataset does not end with an error')
                return dict(nontrivial=False, classes=['file'])
            r.need_ok(what)
            ds_diff(r.ds(d), exp, what)
            if c['into'] == 'load-dataset' and r.int(t):
                raise Violation(what + ': the region is not trained')
            am = argmins(exp)
            for f, i in qs:
                # averages of equal real values may differ in the last bit
                if r.int(i) not in am[f] and exp[(f, r.int(i))] > min(v for (g, _), v in exp.items() if g == f) * (1 + 1e-12):
                    raise Violation('%s: policy %d for %r, fastest %r' % (what, r.int(i), f, am[f]))
    return dict(nontrivial=len(exp) > 1 and '#' in text, classes=['file'] + ['repeated pairs'] * (len(exp) < len(c['ents'])))


def strategy(tier):
    return st.one_of(ds_case(), runs_case(), load_case(), file_case())


def fixed(tier, seed):
    rng = random.Random('c07-%s' % seed)
    for nf, npol, n in ((1, 3, 3000), (2, 100000, 700), (2, 2**31 - 1, 300), (300, 3, 30)):
        yield dict(mode='ds', nf=nf, ins=[[gen.wide(rng, nf, lambda: rng.uniform(-1e5, 1e5)), rng.randrange(npol), rng.expovariate(1)] for _ in range(n)],
                   ins2=[[[1.0] * nf, 0, 1.0]], stream=bool(nf % 2))
    vecs = [[f32(i * .1)] for i in range(4000)]
    ops = [[0, vecs[i % 4000], rng.expovariate(1)] for i in range(5000)]
    yield dict(mode='runs', regs=[dict(name='big', nf=1, np=3, vecs=vecs, model='DecisionTree')], runs=[ops, ops[:300], []], seed=3, order=False, env={})


def check(c, ctx):
    return dict(ds=check_ds, runs=check_runs, load=check_load, file=check_file)[c['mode']](c, ctx)


def key(d):
    return sorted((tuple(struct.pack('f', x) for x in f), p, struct.pack('d', m)) for (f, p), m in d.items())


def same(got, exp, what):
    if key(got) != key(exp):
        for k in exp:
            if k not in got:
                raise Violation('%s: entry of features %r policy %d is missing (there are %r)' % (what, list(k[0]), k[1], list(got)[:6]))
            if struct.pack('d', got[k]) != struct.pack('d', exp[k]):
                raise Violation('%s: metric of features %r policy %d is %r, was %r' % (what, list(k[0]), k[1], got[k], exp[k]))
        raise Violation('%s: entries differ: %r, expected %r' % (what, sorted(got.items())[:6], sorted(exp.items())[:6]))


def digits(d):
    return any(float('%.6g' % m) != m for m in d.values()) or any(float('%.6g' % x) != x for f, p in d for x in f)


def check_ds(c, ctx):
    s = S()
    s.dnew(0)
    for f, p, m in c['ins']:
        s.dins(0, f, p, float(m))
    a = s.ddump(0)
    s.op('dstores' if c['stream'] else 'dstore', 0, 'f')
    b = s.ddump(0)
    s.dnew(1)
    s.dload(1, 'f')
    d = s.ddump(1)
    s.op('dstore', 1, 'g')
    s.dnew(2)
    for f, p, m in c['ins2']:
        s.dins(2, f, p, float(m))
    e0 = s.ddump(2)
    s.dload(2, 'f')
    e = s.ddump(2)
    s.dnew(3)
    s.dload(3, 'g')
    g = s.ddump(3)
    with ctx.case() as k:
        r = k.run(s).need_ok('store and load')
        x = r.ds(a)
        same(r.ds(b), x, 'dataset after being stored')
        same(r.ds(d), x, 'loaded dataset')
        same(r.ds(g), x, 'dataset loaded, stored and loaded again')
        ref = dict(r.ds(e0))
        for (f, p), m in x.items():
            ema(ref, f, p, m)
        ds_diff(r.ds(e), ref, 'dataset loaded on top of another')
    return dict(nontrivial=len(x) > 1 and digits(x), classes=['dataset'] + ['subnormal'] * any(0 < abs(m) < 2.3e-308 for m in x.values()))


def check_runs(c, ctx):
    ref = [None] * len(c['regs'])
    end = [{} for _ in c['regs']]
    nd = loaded = 0
    with ctx.case() as k:
        for ri, ops in enumerate(c['runs']):
            s = S()
            s.seed(c['seed'] + ri)
            s.env(c['env'])
            s.env({'APOLLO_PERSISTENT_DATASETS': 1, 'APOLLO_STORE_MODELS': 1})
            ids = list(range(len(c['regs'])))
            if c['order'] and ri % 2:
                ids.reverse()
            st0 = {}
            for i in ids:
                g = c['regs'][i]
                # a region that follows its stored model keeps its measurements all the same
                kind = g['model'].split(',')[0]
                latest = '%s/models/%s-latest-rank-0-%s.yaml' % (c['env'].get('APOLLO_OUTPUT_DIR', '.apollo'), kind, g['name'])
                load = g.get('load') and kind in ('DecisionTree', 'RandomForest') and k.exists(latest)
                loaded += bool(load)
                s.region(i, 'cpp', g['nf'], g['np'], 0, g['name'], g['model'] + ',load' * bool(load), '')
                st0[i] = s.ds(i)
            log = []
            for op in ops:
                if op[0] == 'train':
                    s.train(1)
                else:
                    i, f, m = op
                    s.beginf(i, 1, f)
                    log.append((i, f, s.pol(1), m))
                    s.endm(1, float(m))
            en = {i: s.ds(i) for i in ids}
            r = k.run(s).need_ok('run %d' % ri)
            for i in ids:
                same(r.ds(st0[i]), end[i], 'run %d, region %s at creation' % (ri, c['regs'][i]['name']))
            exp = [dict(x) for x in end]
            for i, f, pi, m in log:
                ema(exp[i], f, r.int(pi), m)
            for i in ids:
                end[i] = r.ds(en[i])
                ds_diff(end[i], exp[i], 'run %d, region %s' % (ri, c['regs'][i]['name']))
            nd += sum(len(x) for x in end)
        d = '%s/%s' % (c['env'].get('APOLLO_OUTPUT_DIR', '.apollo'), c['env'].get('APOLLO_DATASETS_DIR', 'datasets'))
        for g in c['regs']:
            if not k.exists('%s/Dataset-%s.yaml' % (d, g['name'])):
                raise Violation('no dataset file of region %s in %s' % (g['name'], d))
    return dict(nontrivial=any(len(x) > 1 and digits(x) for x in end), classes=['runs'] + ['runs with loaded models'] * (loaded > 0))


def check_load(c, ctx):
    with ctx.case() as k:
        s = S()
        s.dnew(0)
        for f, p, m in c['ins']:
            s.dins(0, f, p, float(m))
        a = s.ddump(0)
        if not c['missing']:
            s.op('dstore', 0, '.apollo/datasets/Dataset-%s.yaml' % c['name'])
        k.write('.apollo/datasets/x', '')
        r = k.run(s).need_ok('store')
        x = r.ds(a)
        s = S()
        if c['persistent']:
            s.env({'APOLLO_PERSISTENT_DATASETS': 1})
        s.region(0, 'cpp', c['nf'], c['np'], c['mtd'], c['name'], '%s,load-dataset,max_depth=%d' % (c['kind'], c['depth']), '')
        t, d = s.trainable(0), s.ds(0)
        s.mstore(0, 'm')
        r = k.run(s)
        if c['missing'] or not x:
            if t in r.obs or not r.refused:
                raise Violation('load-dataset with a missing or empty dataset does not end with an error: ' + r.status())
            return dict(nontrivial=False, classes=['load-dataset refused'])
        r.need_ok('load-dataset')
        if r.int(t):
            raise Violation('load-dataset did not train the region at creation')
        if c['persistent']:
            ds_diff(r.ds(d), x, 'dataset after load-dataset')
        else:
            same(r.ds(d), x, 'dataset after load-dataset')
        if c['kind'] == 'DecisionTree':
            verify_training_data(parse_dtree(k.read('m')).data, x, 'load-dataset')
        else:
            am = argmins(x)
            for tr in parse_forest(k.read('m'))['trees']:
                for f, y in tr.data:
                    if f not in am or y not in am[f]:
                        raise Violation('load-dataset: forest trained with %r -> %d, fastest stored %r' % (f, y, am.get(f)))
    return dict(nontrivial=len(x) > 1 and digits(x), classes=['load-dataset'])
