"""C29: datasets made from traces."""
import contextlib, io, os, random, re, subprocess, sys, types
from hypothesis import strategies as st
from .. import build, gen
from ..exe import S, Violation
from ..ref import close, ds_diff, ema, f32

RULE = ('1..3 runs of generated programs (1..4 regions of 1..13 features, differing between regions, under static policies and exploration, as run-exhaustive.py runs '
        'them) write CSV traces to one or several directories; create-dataset.py reads the directories or a random order of the files with each aggregation; its datasets, read by an '
        'independent parser and loaded by Apollo, are compared with the rows of the traces; non-trivial: two regions with different numbers of features, or a '
        'feature vector with two policies')
COUNT = {'quick': 6000, 'thorough': 50000}
ASSUMPTIONS = ['pandas is not installed: the script runs with a stand-in (harness/pystub/pandas.py) that models the used part of pandas, group names as in version 1 and 2; a case whose script uses '
               'anything else of pandas is counted as trivial', 'region names are not numbers or words for missing values, and each traced region is executed', 'features and times are finite, at the six digits of the traces']
PY = build.REPO + '/src/python/modeling/create-dataset.py'
STUB = build.ROOT + '/harness/pystub'
AGGS = ['none', 'mean', 'min', 'mean-min']


@st.composite
def strategy_(draw):
    nr = draw(st.integers(1, 4))
    names = ['r%s%d' % (n[:40], i) for i, n in enumerate(draw(gen.region_names(nr)))]
    regs = []
    for i in range(nr):
        nf = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 11, 13]))
        regs.append(dict(name=names[i], nf=nf, np=draw(st.integers(1, 5)), vecs=draw(gen.vectors(nf, 3, styles=gen.COMMON))))
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        pol = draw(st.one_of(st.integers(0, 4), st.none(), st.none(), st.sampled_from([9, 10, 255, 9999, 70001])))
        ops = [[draw(st.integers(0, nr - 1)), draw(st.integers(0, 2)), draw(st.one_of(st.integers(1, 6).map(float), gen.pos_metric))] for _ in range(draw(st.integers(1, 12)))]
        runs.append(dict(pol=pol, dir=draw(st.integers(0, 2)), ops=ops, order=draw(st.permutations(range(nr)))))
    return dict(regs=regs, runs=runs, agg=draw(st.sampled_from(AGGS)), by=draw(st.sampled_from(['dirs', 'files'])), shuffle=draw(st.integers(0, 10**6)), names=draw(st.sampled_from([2, 2, 1])),
                cli=draw(st.integers(0, 29)) == 17, rank=draw(st.sampled_from([0, 0, 0, 1, 10, 127])))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    rng = random.Random('c29-%s' % seed)
    for agg in AGGS:
        regs = [dict(name='big%d' % i, nf=nf, np=130, vecs=[[float(rng.randrange(30)) for _ in range(nf)] for _ in range(40)]) for i, nf in enumerate((2, 110, 1))]
        runs = [dict(pol=None, dir=d, order=[0, 1, 2], ops=[[rng.randrange(3), rng.randrange(40), rng.uniform(1e-6, 1)] for _ in range(500)]) for d in (0, 1)]
        yield dict(regs=regs, runs=runs, agg=agg, by='dirs', shuffle=1, names=2, cli=True)


_code = []


def run(args, cwd, cli, names):
    """None, or the error text; Unsupported is passed on"""
    if cli:
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=STUB)
        code = 'import sys, runpy, pandas; pandas.NAMES = %d; sys.argv = sys.argv[1:]; runpy.run_path(sys.argv[0], run_name="__main__")' % names
        r = subprocess.run([sys.executable, '-c', code, PY] + args, capture_output=True, text=True, env=e, cwd=cwd, timeout=300)
        if 'Unsupported' in r.stderr:
            return 'unsupported'
        if r.returncode:
            raise Violation('create-dataset.py %s fails: %s' % (' '.join(args), r.stderr[-500:]))
        return None
    sys.dont_write_bytecode = True
    if STUB not in sys.path:
        sys.path.insert(0, STUB)
    import pandas
    if not _code:
        with open(PY) as f:
            _code.append(compile(f.read(), PY, 'exec'))
    m = types.ModuleType('__main__')
    m.__file__ = PY
    old, here, pandas.NAMES = sys.argv, os.getcwd(), names
    sys.argv = [PY] + args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            exec(_code[0], m.__dict__)
    except SystemExit as e:
        if e.code:
            raise Violation('create-dataset.py %s fails: exit %r' % (' '.join(args), e.code))
    except pandas.Unsupported:
        return 'unsupported'
    except Exception as e:
        raise Violation('create-dataset.py %s fails: %r' % (' '.join(args), e))
    finally:
        sys.argv = old
        os.chdir(here)
    return None


NUM = r'[-+0-9.eE]+'
ENTRY = re.compile(r'\d+:\s*\{\s*features:\s*\[([^\]]*)\],?\s*policy:\s*(%s)\s*,\s*xtime:\s*(%s)\s*\}' % (NUM, NUM))


def parse(text, what):
    body = '\n'.join(l.split('#')[0] for l in text.splitlines())
    out = []
    for f, p, x in ENTRY.findall(body):
        try:
            out.append((tuple(float(t) for t in f.replace(',', ' ').split()), int(p), float(x)))
        except ValueError:
            raise Violation('%s: entry with features %r, policy %r, time %r' % (what, f, p, x))
    if re.sub(r'[\s,]', '', ENTRY.sub('', body)) != 'data:{}':
        raise Violation('%s cannot be read: %r' % (what, text[:300]))
    return out


def near(a, b):
    return close(a, b, 1e-9)


def compare(agg, rows, got, what):
    """got: entries of the dataset; rows: of the traces"""
    by = {}
    for f, p, x in rows:
        by.setdefault(f, {}).setdefault(p, []).append(x)
    if agg == 'none':
        a, b = sorted(rows), sorted(got)
        if len(a) != len(b) or any(x[:2] != y[:2] or not near(x[2], y[2]) for x, y in zip(a, b)):
            raise Violation('%s has entries %r, the traces rows %r' % (what, [x for x in b if x not in a][:3] or len(b), [x for x in a if x not in b][:3] or len(a)))
        return
    mean = {f: {p: sum(v) / len(v) for p, v in d.items()} for f, d in by.items()}
    keys = [(f, p) if agg == 'mean' else f for f, p, _ in got]
    want = [(f, p) for f in by for p in by[f]] if agg == 'mean' else list(by)
    if sorted(keys) != sorted(want):
        raise Violation('%s has %d entries, expected %d: surplus %r, missing %r' % (what, len(keys), len(want), [k for k in keys if k not in want or keys.count(k) > 1][:3], [k for k in want if k not in keys][:3]))
    for f, p, x in got:
        if p not in by[f]:
            raise Violation('%s: policy %d was not measured with %r' % (what, p, f))
        if agg == 'min':
            best = min(min(v) for v in by[f].values())
            ok, say = near(x, best) and any(near(v, best) for v in by[f][p]), 'the least time is %r' % best
        else:
            least = min(mean[f].values())
            ok, say = near(x, mean[f][p]) and (agg == 'mean' or near(mean[f][p], least)), 'mean times %r' % mean[f]
        if not ok:
            raise Violation('%s: entry %r with policy %d, time %r, %s' % (what, f, p, x, say))


def check(c, ctx):
    regs = c['regs']
    with ctx.case() as k:
        dirs = []
        for n, r in enumerate(c['runs']):
            used = {o[0] for o in r['ops']}
            d = 'run%d' % r['dir'] if not any(q['dir'] == r['dir'] and q['pol'] == r['pol'] for q in c['runs'][:n]) else 'other%d' % n   # a run in the same directory under the same model replaces the trace
            s = S()
            s.env({'APOLLO_TRACE_CSV': 1, 'APOLLO_OUTPUT_DIR': d, 'APOLLO_POLICY_MODEL': 'RoundRobin' if r['pol'] is None else 'Static,policy=%d' % r['pol']})
            for i in r['order']:
                if i in used:
                    g = regs[i]
                    s.region(i, 'cpp', g['nf'], max(g['np'], (r['pol'] or 0) + 1), 0, g['name'], '', '')
            for i, v, m in r['ops']:
                s.beginf(i, 1, regs[i]['vecs'][v % len(regs[i]['vecs'])])
                s.pol(1)
                s.endm(1, m)
            s.quit()
            k.run(s).need_ok('traced run')
            if d + '/traces' not in dirs:
                dirs.append(d + '/traces')
        rows, files = {}, []
        if c.get('rank'):       # as another process of the run writes them
            for f in k.files():
                if f.endswith('-rank-0.csv'):
                    t = k.read(f).splitlines(True)
                    k.write(f, ''.join(t[:1] + ['%d %s' % (c['rank'], l.split(' ', 1)[1]) for l in t[1:]]))
                    os.rename(k.path(f), k.path(f[:-5] + '%d.csv' % c['rank']))
        for f in k.files():
            m = re.fullmatch(r'.*/trace-(.*)-region-(.*)-rank-\d+\.csv', f)
            if m:
                files.append(f)
                for l in k.read(f).splitlines()[1:]:
                    t = l.split()
                    rows.setdefault(t[2], []).append((tuple(float(x) for x in t[4:-2]), int(t[-2]), float(t[-1])))
        random.Random(c['shuffle']).shuffle(files)
        os.makedirs(k.path('made'))
        args = ['--agg', c['agg']] + (['--tracedirs'] + ['../' + d for d in dirs] if c['by'] == 'dirs' else ['--tracefiles'] + ['../' + f for f in files])
        if run(args, k.path('made'), c['cli'], c['names']):
            return dict(nontrivial=False, classes=['beyond the stand-in'])
        have = sorted(os.listdir(k.path('made')))
        want = sorted('Dataset-%s.yaml' % r for r in rows)
        if have != want:
            raise Violation('create-dataset.py makes %r of traces of %r' % (have, sorted(rows)))
        s, obs = S(), {}
        for i, r in enumerate(sorted(rows)):
            s.dnew(i)
            s.dload(i, 'made/Dataset-%s.yaml' % r)
            obs[r] = s.ddump(i)
        got = {r: parse(k.read('made/Dataset-%s.yaml' % r), 'dataset of region %s (aggregation %s)' % (r, c['agg'])) for r in rows}
        for r in rows:
            compare(c['agg'], rows[r], got[r], 'dataset of region %s (aggregation %s, from %s)' % (r, c['agg'], c['by']))
        o = k.run(s).need_ok('loading the datasets')
        for r in rows:
            exp = {}
            for f, p, x in got[r]:
                ema(exp, tuple(f32(y) for y in f), p, x)
            ds_diff(o.ds(obs[r]), exp, 'dataset of region %s loaded by Apollo' % r)
    multi = any(len({p for g, p, _ in v if g == f}) > 1 for v in rows.values() for f, _, _ in v)
    return dict(nontrivial=multi or len({len(v[0][0]) for v in rows.values()}) > 1, classes=[c['agg'], 'from ' + c['by']] + ['as a program'] * c['cli'], counts={'trace rows': sum(map(len, rows.values()))})
