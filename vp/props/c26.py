"""C26: exhaustive measurement of a program."""
import os, shlex, subprocess, sys
from hypothesis import strategies as st
from .. import build, gen
from ..exe import S, Violation

RULE = ('run-exhaustive.py is run on generated programs (1..3 regions of up to 8 policies, up to 12 executions, given as a shell command with quoted arguments) '
        'for 1..6 policies, with and without contradicting APOLLO_ variables in the environment, and with a program that fails in a generated run; the '
        'commands run, their settings, and the trace files must be those of one run per static policy and one cyclic exploration, up to the failing one; '
        'non-trivial: at least two policies and two executions')
COUNT = {'quick': 1200, 'thorough': 8000}
ASSUMPTIONS = ['traces are read back at the six digits they are printed with']
FORMS = ['sh prog.sh %s', 'cd . && sh prog.sh %s', 'sh prog.sh %s > shown', 'V=%s; sh prog.sh "$V"', 'true | sh prog.sh %s', 'false || sh prog.sh %s']
PY = build.REPO + '/src/python/analysis/run-exhaustive.py'


@st.composite
def case(draw):
    n = draw(st.integers(1, 6))
    nr = draw(st.integers(1, 3))
    names = draw(gen.region_names(nr))
    regs = [dict(name=names[i], nf=draw(st.integers(0, 2)), np=n + draw(st.integers(0, 2))) for i in range(nr)]
    ops = [[draw(st.integers(0, nr - 1)), draw(st.integers(0, 5)), draw(st.integers(1, 4000)) / 64.0] for _ in range(draw(st.integers(0, 12)))]
    env = {k: v for k, v in dict(APOLLO_TRACE_CSV='0', APOLLO_RETRAIN_ENABLE='1', APOLLO_POLICY_MODEL='Random', APOLLO_OUTPUT_DIR='oo', APOLLO_TRACES_DIR='tt').items() if draw(st.booleans())}
    return dict(n=n, regs=regs, ops=ops, env=env, fail=draw(st.one_of(st.none(), st.none(), st.integers(0, n))), rc=draw(st.sampled_from([1, 2, 127])),
                arg=draw(st.text("ab '$;*&|\\\"", max_size=6)), long=draw(st.booleans()), form=draw(st.sampled_from(FORMS + FORMS[:1] * 3)))


def strategy(tier):
    return case()


def fixed(tier, seed):
    for n in (70, 130) + ((300,) if tier == 'thorough' else ()):
        regs = [dict(name='m%d' % i, nf=i, np=n + i) for i in range(2)]
        yield dict(n=n, regs=regs, ops=[[i % 2, i % 5, 1.0 + i] for i in range(2 * n + 3)], env={}, fail=None, rc=1, arg='a b', long=True, form=FORMS[0])


def check(c, ctx):
    s = S()
    for i, g in enumerate(c['regs']):
        s.region(i, 'cpp', g['nf'], g['np'], 0, g['name'], '', '')
    for r, x, m in c['ops']:
        s.beginf(r, 1, [float(x + j) for j in range(c['regs'][r]['nf'])])
        s.pol(1)
        s.endm(1, m)
    s.quit()
    with ctx.case() as k:
        k.write('script', s.text())
        k.write('prog.sh', '''#!/bin/sh
n=$(wc -l < log)
printf '%%s|%%s|%%s|%%s|%%s|%%s|%%s\\n' "$APOLLO_POLICY_MODEL" "$APOLLO_TRACE_CSV" "$APOLLO_RETRAIN_ENABLE" "$APOLLO_OUTPUT_DIR" "$OTHER" "$#" "$1" >> log
[ "$n" = "%s" ] && exit %d
exec %s script obs.$n > out.$n 2>&1
''' % (c['fail'], c['rc'], ctx.exes['base']))
        k.write('log', '')
        e = {a: b for a, b in os.environ.items() if not a.startswith('APOLLO_')}
        e.update(c['env'], OTHER='kept', PYTHONDONTWRITEBYTECODE='1')
        cmd = c['form'] % shlex.quote(c['arg'])
        a = ['--npolicies', str(c['n']), '--exe', cmd] if c['long'] else ['-n', str(c['n']), '-x', cmd]
        p = subprocess.run([sys.executable, PY] + a, cwd=k.cwd, env=e, capture_output=True, text=True, timeout=120)
        runs = ['Static,policy=%d' % i for i in range(c['n'])] + ['RoundRobin']
        failed = c['fail'] is not None
        exp = ['%s|1|0|%s|kept|1|%s' % (m, c['env'].get('APOLLO_OUTPUT_DIR', ''), c['arg']) for m in (runs[:c['fail'] + 1] if failed else runs)]
        log = k.read('log').splitlines()
        if log != exp:
            raise Violation('runs of the program (model|tracing|re-training|output|other variable|arguments): %r, expected %r; %s' % (log, exp, p.stderr[-300:]))
        if failed != bool(p.returncode):
            raise Violation('exit status %d of run-exhaustive.py, the program %s' % (p.returncode, 'failed' if failed else 'did not fail: ' + p.stderr[-300:]))
        d = '%s/%s' % (c['env'].get('APOLLO_OUTPUT_DIR', '.apollo'), c['env'].get('APOLLO_TRACES_DIR', 'traces'))
        for i, m in enumerate(runs[:c['fail']] if failed else runs):
            for r, g in enumerate(c['regs']):
                rows = [x.split() for x in k.read('%s/trace-%s-region-%s-rank-0.csv' % (d, m, g['name'])).splitlines()[1:]]
                ops = [o for o in c['ops'] if o[0] == r]
                pol = [i if m != 'RoundRobin' else j % g['np'] for j in range(len(ops))]
                got = [(int(x[-2]), float(x[-1])) for x in rows]
                if [a for a, _ in got] != pol or any(abs(t - o[2]) > 1e-5 * o[2] for (_, t), o in zip(got, ops)):
                    raise Violation('trace of region %s in the run with %s: %r, expected policies %r, times %r' % (g['name'], m, got, pol, [o[2] for o in ops]))
    return dict(nontrivial=c['n'] > 1 and len(c['ops']) > 1, classes=['failing run'] if failed else ['complete'])
