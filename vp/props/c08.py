"""C08: damaged files."""
import random, re
from hypothesis import strategies as st
from .. import gen
from ..exe import S, HarnessError, Violation

RULE = ('a stored dataset, DecisionTree, RandomForest or PolicyNet file of random content is (a) cut at every byte (text) or at '
        'every 37th byte plus all structural boundaries (binary) and every cut must be refused by the loader, also at region '
        'creation, (b) stripped of, or given a wrong or repeated, key or bracket, or has a word in place of a number, which must be refused too, and (c) mutated (bytes, tokens, lines, numbers, splices of two files) and loaded with the address sanitizer, '
        'where only success or an error exit is allowed; non-trivial: at least 100 damaged files were loaded')
COUNT = {'quick': 160, 'thorough': 4000}
VARIANTS = ['base', 'asan']
ASSUMPTIONS = ['trailing white space of a text file is not significant', 'a refusal is abort() or an uncaught exception',
               'recursion depth of the text stays small (mutations of files of at most a few thousand bytes)']
KINDS = ['dataset', 'dataset', 'DecisionTree', 'DecisionTree', 'RandomForest', 'PolicyNet']
NUMS = ['-1', '0', '4294967295', '4294967296', '-2147483648', '2147483647', '99999999999999999999999', 'nan', 'inf', '1e999', '-', '1e-400', '0x10',
        '18446744073709551615', '.', '1,2', '', '7' * 70]
TOKS = ['{', '}', '},', '[', ']', '],', 'data:', 'left:', 'right:', 'root:', 'tree:', 'classes:', '#', 'features:', ',', 'trees:', 'x' * 63, 'y' * 64, 'z' * 65, 'w' * 200]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(KINDS))
    nf = draw(st.sampled_from([1, 2])) if kind == 'PolicyNet' else draw(st.sampled_from([1, 1, 2, 3]))
    npol = draw(st.integers(1, 4))
    styles = ['small'] if kind == 'PolicyNet' else gen.ALL
    return dict(kind=kind, nf=nf, np=npol, ins=draw(gen.inserts(nf, npol, 5, 8, styles=styles, met=gen.pos_metric, min_size=1)),
                trees=draw(st.integers(1, 2)), depth=draw(st.integers(0, 3)), mseed=draw(st.integers(0, 2**32)),
                nmut=draw(st.sampled_from([60])), cut=draw(st.floats(0, 1)), loader=draw(st.sampled_from(['load', 'ctor'])))


def strategy(tier):
    return strategy_()


def mutate(rng, data, other):
    """one mutated copy of a text"""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.randrange(11)
        if op == 0 and b:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif op == 1 and b:
            i = rng.randrange(len(b))
            del b[i:i + rng.choice([1, 1, 2, 10, 100])]
        elif op == 2:
            i = rng.randrange(len(b) + 1)
            b[i:i] = bytes(rng.choice(b' \n\t{}[],:#-0123456789eE.xabcdf\0\xff') for _ in range(rng.choice([1, 1, 3, 20])))
        elif op in (3, 4, 5):   # replace, duplicate or drop a token
            t = bytes(b).split(b' ')
            i = rng.randrange(len(t))
            if op == 3:
                t[i] = rng.choice(TOKS).encode()
            elif op == 4:
                t.insert(i, t[rng.randrange(len(t))])
            else:
                del t[i]
            b = bytearray(b' '.join(t))
        elif op in (6, 7):      # a number
            ms = list(re.finditer(rb'-?\d[\d.e+-]*', bytes(b)))
            if ms:
                m = rng.choice(ms)
                b[m.start():m.end()] = rng.choice(NUMS).encode()
        elif op == 8:           # lines
            t = bytes(b).split(b'\n')
            i, j = rng.randrange(len(t)), rng.randrange(len(t))
            if rng.random() < .5:
                t[i], t[j] = t[j], t[i]
            else:
                t.insert(i, t[j])
            b = bytearray(b'\n'.join(t))
        elif op == 9:           # splice
            i, j = rng.randrange(len(b) + 1), rng.randrange(len(other) + 1)
            b = bytearray(bytes(b[:i]) + other[j:])
        else:
            i = rng.randrange(len(b) + 1)
            b = b[:i] + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 300])))
    return bytes(b)


def check(c, ctx):
    kind, nf, npol = c['kind'], c['nf'], c['np']
    n = 0
    with ctx.case() as k:
        s = S()
        for d, ins in ((0, c['ins']), (1, c['ins'][::2])):
            s.dnew(d)
            for f, p, m in ins:
                s.dins(d, f, p, float(m))
            if kind == 'dataset':
                s.op('dstore', d, 'f%d' % d)
            else:
                pr = dict(DecisionTree=[1, 'max_depth', str(c['depth'])], RandomForest=[2, 'max_depth', str(c['depth']), 'num_trees', str(c['trees'])],
                          PolicyNet=[0])[kind]
                s.mnew(d, kind, nf, npol, *pr)
                s.mtrain(d, d)
                s.mst(d, 'f%d' % d)
        k.run(s).need_ok('store')
        data, other = k.read('f0', True), k.read('f1', True)
        lk = ('+' + kind) if c['loader'] == 'ctor' and kind in ('DecisionTree', 'RandomForest') else kind
        # every cut is refused
        s = S()
        if kind == 'PolicyNet':
            sig = len(data)
            cuts = [s.tload(lk, nf, npol, 'f0', 0, sig, 1 + sig // 150), s.tload(lk, nf, npol, 'f0', max(0, sig - 24), sig, 1)]
            n += 170
        else:
            sig = len(data.rstrip())
            step = 1 if sig < 900 else 1 + sig // 600
            cuts = [s.tload(lk, nf, npol, 'f0', 0, sig, step), s.tload(lk, nf, npol, 'f0', max(0, sig - 60), sig, 1)]
            n += sig // step
        whole = s.lload(lk, nf, npol, 1, 'f0')
        r = k.run(s).need_ok('truncations')
        if r.get(whole).split()[1] != 'ok':
            raise Violation('the undamaged file is not loadable: ' + r.get(whole))
        for i in cuts:
            bad = r.get(i).split()[1:]
            if bad:
                raise Violation('a %s file of %d bytes cut to %s byte(s) was not refused (cut:outcome)' % (kind, len(data), ' '.join(bad[:5])))
        # at region creation
        cut = min(sig - 1, int(c['cut'] * sig))
        s = S()
        if kind == 'dataset':
            k.write('.apollo/datasets/Dataset-r.yaml', data[:cut])
            if c['mseed'] % 2:
                s.env({'APOLLO_PERSISTENT_DATASETS': 1})
                s.region(0, 'cpp', nf, npol, 0, 'r', 'DecisionTree', '')
            else:
                s.region(0, 'cpp', nf, npol, 0, 'r', 'DatasetMap' if c['mseed'] % 3 else 'DecisionTree,load-dataset', '')
        else:
            k.write('cut', data[:cut])
            if c['mseed'] % 2:
                s.region(0, 'cpp', nf, npol, 0, 'r', kind + ',load=cut', '')
            else:
                s.region(0, 'cpp', nf, npol, 0, 'r', kind, 'cut')
        e = s.echo('started')
        r = k.run(s)
        if e in r.obs or not r.refused:
            raise Violation('a region starts from a %s file cut to %d of %d bytes: %s' % (kind, cut, len(data), r.status()))
        rng = random.Random(c['mseed'])
        # a key or a bracket that is missing, wrong or repeated, a word in place of a number
        if kind != 'PolicyNet':
            text = data.decode()
            ms = [m for m in re.finditer(r'\S+', text) if re.fullmatch(r'[a-z_]+:|[\[\]{}]|[\]}],', m.group(0))]
            jobs = []
            for i, m in enumerate(ms):
                w = m.group(0)
                for how, rep in (('removed', ''), ('replaced', 'zzz'), ('replaced', 'policies:' if w[-1] == ':' else rng.choice([x for x in '{}[]' if x != w])), ('repeated', w + ' ' + w)):
                    if how != 'repeated' or i < len(ms) - 1:
                        jobs.append((how, m, text[:m.start()] + rep + text[m.end():]))
            for m in re.finditer(r'-?(?:\d[-+.\de]*|nan|inf)(?![:\w])', text):
                jobs.append(('replaced', m, text[:m.start()] + 'zzz' + text[m.end():]))
            rng.shuffle(jobs)
            jobs = jobs[:240]
            for i, j in enumerate(jobs):
                k.write('s%d' % i, j[2])
            s = S()
            li = s.raw('lload %s %d %d %d %s' % (lk, nf, npol, len(jobs), ' '.join('s%d' % i for i in range(len(jobs)))))
            res = k.run(s).need_ok('structural damage').get(li).split()[1:]
            n += len(jobs)
            for (how, m, _), o in zip(jobs, res):
                if o != 'refused':
                    raise Violation('a %s file is not refused (%s) with "%s" %s at byte %d of %r' % (kind, o, m.group(0), how, m.start(), text[:600]))
        # mutations
        names = []
        for i in range(c['nmut']):
            k.write('m%d' % i, mutate(rng, data, other))
            names.append('m%d' % i)
        s = S()
        li = s.raw('lload %s %d %d %d %s' % (lk, nf, npol, len(names), ' '.join(names)))
        r = k.run(s, variant='asan', cpu=300, wall=600000).need_ok('mutations')
        res = r.get(li).split()[1:]
        n += len(names)
        for nm, o in zip(names, res):
            if o not in ('ok', 'refused'):
                raise Violation('loading a corrupted %s file ends with %s: %r ... %s' % (kind, o, k.read(nm, True)[:300], r.err[-1500:]))
        acc = sum(o == 'ok' for o in res)
    return dict(nontrivial=n >= 100, evals=n + 1, classes=[lk], counts={'mutants accepted': acc, 'mutants refused': len(res) - acc,
                                                                        'cuts': n - len(names)})
