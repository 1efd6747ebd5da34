"""C28: outputs under crashes and output failures."""
import os
from hypothesis import strategies as st
from .. import hist
from ..exe import S, Violation, parse_ds
from ..ref import ds_diff
from .c27 import norm

RULE = ('random histories (1..3 regions, all models, train periods, minimum data, explicit trainings) with model storing, traces, best-policy and decision lists, '
        'execution info and dataset persistence; "kill": the program is killed (SIGKILL) after a random operation, once with and once without data of an earlier run, '
        'and its files are compared with an undisturbed run up to that operation; "block": every output file and directory of an undisturbed run (at most 10, picked '
        'at random) is made unwritable in turn (a directory, a file, a dangling link or a full device in its place), and decisions, measurements and all other files '
        'are compared with the undisturbed run; non-trivial: killed after a file was stored, or a file blocked')
COUNT = {'quick': 6000, 'thorough': 60000}
ASSUMPTIONS = ['random_device is replaced by a fixed value and the clock by a scripted one, so the runs are comparable',
               'rows of the CSV traces are buffered: a killed run leaves a prefix of them',
               'a file is on disk when the kernel has it (a crash of the machine is not modelled)']
OPTS = ['APOLLO_TRACE_CSV', 'APOLLO_TRACE_POLICY', 'APOLLO_TRACE_BEST_POLICIES', 'APOLLO_STORE_MODELS', 'APOLLO_STORE_EXEC_INFO', 'APOLLO_PERSISTENT_DATASETS']


@st.composite
def strategy_(draw):
    return dict(mode=draw(st.sampled_from(['kill', 'block'])), h=draw(hist.history(max_regions=3, max_ops=16)), before=draw(hist.history(max_regions=1, max_ops=8))['ops'],
                on=draw(st.one_of(st.just(OPTS), st.lists(st.sampled_from(OPTS), min_size=1, max_size=6, unique=True))), dirs=draw(st.booleans()),
                at=draw(st.integers(0, 10**6)), pick=draw(st.integers(0, 10**6)), api=draw(st.sampled_from(['ctx', 'ctxf', 'free'])))


def strategy(tier):
    return strategy_()


def check(c, ctx):
    env = {o: 1 for o in c['on']}
    if c['dirs']:
        env.update(APOLLO_OUTPUT_DIR='o', APOLLO_MODELS_DIR='m', APOLLO_TRACES_DIR='t', APOLLO_DATASETS_DIR='d')
    d = dict(out='o', traces='o/t', models='o/m', datasets='o/d') if c['dirs'] else dict(out='.apollo', traces='.apollo/traces', models='.apollo/models', datasets='.apollo/datasets')
    s, ob = hist.render(c['h'], lambda n: c['api'], env=env)
    return (kill if c['mode'] == 'kill' else block)(c, ctx, env, d, s, ob)


def durable(fn, d):
    b = fn.split('/')[-1]
    return fn.startswith(d['models'] + '/') or b.endswith('best_policies.txt') or b.endswith('-policies.txt')


def script(lines):
    s = S()
    s.lines = list(lines)
    return s


def kill(c, ctx, env, d, s, ob):
    n = len(s.lines)
    lo = next(i for i, l in enumerate(s.lines) if l.startswith('region '))
    at = lo + 1 + c['at'] % (n - lo)      # number of operations before the end
    head = s.lines[:at]
    regs = c['h']['regs']
    stored = 0
    with ctx.case() as k, ctx.case() as q:
        r = k.run(script(head))
        # observations of the part of the history; executions may be open at its end
        r.need_ok('part of the history')
        good = {f: k.read(f, True) for f in k.files()}
        x = q.run(script(head + ['die']))
        if x.kind != 'signal' or x.code != 9:
            raise Violation('the run up to operation %d ended before it was killed: %s' % (at, x.status()))
        left = {f: q.read(f, True) for f in q.files()}
        for f, b in good.items():
            if durable(f, d):
                stored += 1
                if f not in left:
                    raise Violation('%s is missing after the program was killed, %s' % (f, s.lines[at - 1]))
                if left[f] != b:
                    raise Violation('%s has %d of %d bytes (or differs) after the program was killed, %s' % (f, len(left[f]), len(b), s.lines[at - 1]))
            elif f in left and f.startswith(d['traces'] + '/'):
                if f.endswith('/trace-rank-0.csv'):
                    continue
                if not b.startswith(left[f]):
                    raise Violation('%s of a killed run is not the beginning of the trace' % f)
        for f in left:
            if f not in good and durable(f, d):
                raise Violation('%s is left by a killed run only' % f)
    # data of an earlier run
    kept = 0
    if 'APOLLO_PERSISTENT_DATASETS' in c['on']:
        h1 = dict(c['h'], ops=[o[:1] + [o[1] % len(regs)] + o[2:] if o[0] != 'train' else o for o in c['before']] + c['h']['ops'][:4])
        s1, _ = hist.render(h1, lambda i: 'ctxf', env=env)
        with ctx.case() as k:
            k.run(s1).need_ok('earlier run')
            old = {f: k.read(f, True) for f in k.files(d['datasets'])}
            r = k.run(script(head + ['die']))
            if r.kind != 'signal' or r.code != 9:
                raise Violation('a second run up to operation %d ended before it was killed: %s' % (at, r.status()))
            new = {f: k.read(f, True) for f in k.files(d['datasets'])}
            if old != new:
                raise Violation('the datasets of the earlier run are changed by a killed run: %r' % [f for f in set(old) | set(new) if old.get(f) != new.get(f)])
            kept = len(old)
            # the next run starts from them
            s2 = S()
            s2.env(dict(env, APOLLO_GLOBAL_TRAIN_PERIOD=0, APOLLO_PER_REGION_TRAIN_PERIOD=0))
            look = []
            for i, g in enumerate(regs):
                s2.region(i, 'cpp', g['nf'], g['np'], 0, g['name'], g['model'], '')
                look.append(s2.ds(i))
            for i, g in enumerate(regs):
                f = '%s/Dataset-%s.yaml' % (d['datasets'], g['name'])
                if f in old:
                    s2.dnew(i)
                    s2.dload(i, f)
                    look[i] = (look[i], s2.ddump(i))
            r = k.run(s2).need_ok('run after a killed run')
            for i, o in enumerate(look):
                if isinstance(o, tuple):
                    ds_diff(r.ds(o[0]), r.ds(o[1]), 'region %s in the run after a killed run' % regs[i]['name'])
    return dict(nontrivial=stored > 0 or kept > 0, classes=['kill'], counts={'files complete after kill': stored, 'datasets kept after kill': kept})


def obstruct(path, how):
    if how == 'dir':
        os.makedirs(path)
        with open(path + '/x', 'w'):
            pass
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if how == 'file':
        with open(path, 'w') as f:
            f.write('x')
    elif how == 'link':
        os.symlink('/nonexistent/dir/file', path)
    else:
        os.symlink('/dev/full', path)


def block(c, ctx, env, d, s, ob):
    import random
    rng = random.Random(c['pick'])
    with ctx.case() as k:
        r0 = k.run(s).need_ok('history')
        good = {f: k.read(f, True).decode('latin1') for f in k.files()}
    todo = [(f, h) for f in sorted(good) for h in (('link',) if f.startswith(d['datasets'] + '/') else ('dir', 'link', 'full'))]   # datasets are read first
    todo += [(x, 'file') for x in sorted({os.path.dirname(f) for f in good} - {''})]
    if d['out'] not in [x for x, _ in todo]:
        todo.append((d['out'], 'file'))
    todo += [(v, 'parent') for v, o in (('APOLLO_OUTPUT_DIR', None), ('APOLLO_TRACES_DIR', 'APOLLO_TRACE_CSV'), ('APOLLO_MODELS_DIR', 'APOLLO_STORE_MODELS'), ('APOLLO_DATASETS_DIR', 'APOLLO_PERSISTENT_DATASETS'))
             if o is None or o in c['on']]
    rng.shuffle(todo)
    done = refused = 0
    for f, how in todo[:10]:
        trace = f.startswith(d['traces'])
        if how == 'parent':
            with ctx.case() as k:
                r = k.run(hist.render(c['h'], lambda n: c['api'], env=dict(env, **{f: 'no/such/directory'}))[0])
                done += 1
                refused += 1
                if not r.refused or r.all:
                    raise Violation('a directory %s that cannot be made does not end the run at its start: %s' % (f, r.status()))
            continue
        with ctx.case() as k:
            obstruct(k.path(f), how)
            r = k.run(s)
            what = 'with %s in the place of %s' % ({'dir': 'a directory', 'file': 'a file', 'link': 'a dangling link', 'full': 'a full device'}[how], f)
            done += 1
            if (trace and how != 'full') or f == d['out'] and 'APOLLO_TRACE_CSV' in c['on']:
                refused += 1
                if not r.refused:
                    raise Violation('%s the run goes on: %s' % (what, r.status()))
                continue
            if f == d['out']:
                # a sub-directory that is needed cannot be made: refused; otherwise nothing can be stored
                if any(o in c['on'] for o in ('APOLLO_STORE_MODELS', 'APOLLO_PERSISTENT_DATASETS')):
                    refused += 1
                    if not r.refused:
                        raise Violation('%s the run goes on: %s' % (what, r.status()))
                    continue
            r.need_ok('history ' + what)
            for w, i, o, t in ob:
                if r.get(o) != r0.get(o):
                    raise Violation('%s, %s: %s of region %s is %r instead of %r' % (what, t, w, c['h']['regs'][i]['name'], r.get(o), r0.get(o)))
            for g, b in good.items():
                if g == f or g.startswith(f + '/'):
                    continue
                if norm(g, k.read(g, True).decode('latin1'), 0) != norm(g, b, 0):
                    raise Violation('%s the contents of %s differ' % (what, g))
            if how != 'full' and (f.startswith(d['datasets']) or f.endswith('apollo_exec_info.csv')) and 'ERROR' not in r.err:
                raise Violation('%s nothing is reported: %r' % (what, r.err[-300:]))
    return dict(nontrivial=done > 0, classes=['block'], counts={'blocked outputs': done, 'refused': refused})
