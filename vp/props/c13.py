"""C13: recorded time is the elapsed time."""
import random
from hypothesis import strategies as st
from .. import gen
from ..exe import S, Violation
from ..ref import close, ema

RULE = ('executions of 1..4 regions, nested and interleaved, through all interfaces under a scripted monotonic clock (advances of 0, '
        'nanoseconds to days at every point of an execution, second boundaries, arbitrary starting point; the wall clock moves '
        'independently); the recorded metric of every execution ended without one must be the scripted elapsed time, explicit metrics '
        'must be recorded as given; non-trivial: at least two timed executions overlap or advance the clock inside')
COUNT = {'quick': 12000, 'thorough': 100000}
ASSUMPTIONS = ['the clock is read through clock_gettime or std::chrono (interposed)', 'tolerance: 1e-9 s plus the double rounding of the clock value']
adv = st.one_of(st.just([0, 0]), st.tuples(st.just(0), st.integers(0, 999999999)), st.tuples(st.integers(0, 5), st.integers(0, 999999999)),
                st.tuples(st.sampled_from([0, 1, 60, 86400, 3000000, 5 * 10**9]), st.sampled_from([0, 1, 999, 1000, 999999, 1000000, 999999999])),
                st.tuples(st.just(0), st.integers(0, 2000))).map(list)


@st.composite
def strategy_(draw):
    nr = draw(st.integers(1, 4))
    names = draw(gen.region_names(nr))
    regs = [dict(name=names[i], nf=draw(st.integers(0, 2)), np=draw(st.integers(1, 3)), api=draw(st.sampled_from(['cpp', 'c']))) for i in range(nr)]
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        r = draw(st.integers(0, nr - 1))
        ops.append(dict(r=r, f=[float(draw(st.integers(0, 3))) for _ in range(regs[r]['nf'])], api=draw(st.sampled_from(['ctx', 'ctx', 'ctxf', 'free', 'c', 'ksync'])),
                        a=[draw(adv) for _ in range(4)], m=draw(st.one_of(st.none(), st.none(), gen.metric)), close=draw(st.sampled_from([0, 0, 0, 1, 2, 3]))))
    return dict(regs=regs, ops=ops, t0=[draw(st.sampled_from([0, 1, 5, 1000, 99999, 1000000, 2**31 - 2, 2**32 - 1, 2**33])), draw(st.sampled_from([0, 1, 500000000, 999999999]))],
                fifo=draw(st.booleans()))


def strategy(tier):
    return strategy_()


def fixed(tier, seed):
    # hundreds of executions open at a time, and one after the other
    rng = random.Random('c13-%s' % seed)
    for n, close in ((300, 299), (2, 0)):
        regs = [dict(name='r%d' % i, nf=1, np=2, api='cpp') for i in range(n)]
        ops = [dict(r=i % n, f=[float(i)], api='ctx', a=[[0, rng.randrange(10**6)] for _ in range(4)], m=None, close=close) for i in range(900)]
        for fifo in (False, True):
            yield dict(regs=regs, ops=ops, t0=[7, 999999000], fifo=fifo)


def check(c, ctx):
    s = S()
    s.clock(*c['t0'])
    regs = c['regs']
    for i, g in enumerate(regs):
        s.region(i, g['api'], g['nf'], g['np'], 0, g['name'], 'DecisionTree', '')
    now = [c['t0'][0] * 10**9 + c['t0'][1]]
    open_ = []
    log = []
    timed = [0, 0]

    def advance(a):
        s.adv(a[0], a[1])
        now[0] += a[0] * 10**9 + a[1]

    def finish(j=-1):
        r, sl, pi, op, t0 = open_.pop(j)
        advance(op['a'][3])
        m = op['m'] if op['api'] != 'c' else None
        if m is None:
            if op['api'] == 'c':
                s.endc(r)
            elif op['api'] == 'free':
                s.endd(r)
            else:
                s.end(sl)
            d = now[0] - t0
            timed[0] += 1
            timed[1] += d > 0
            log.append((r, op['f'], pi, d / 1e9, False, s.ds(r)))
        else:
            if op['api'] == 'free':
                s.endmd(r, float(m))
            else:
                s.endm(sl, float(m))
            log.append((r, op['f'], pi, m, True, s.ds(r)))
    slot = 0
    nest = 0
    for op in c['ops']:
        r = op['r']
        for j in range(len(open_) - 1, -1, -1):
            if open_[j][0] == r:
                finish(j)
        while len(open_) > op['close']:
            finish(0 if c['fifo'] else -1)
        nest += bool(open_)
        slot += 1
        advance(op['a'][0])
        t0 = now[0]
        api = op['api']
        if api == 'ctxf':
            s.beginf(r, slot, op['f'])
        elif api == 'free':
            s.begind(r)
        elif api == 'c':
            s.beginc(r)
        else:
            s.op('begin', r, slot, 'ksync' if api == 'ksync' else 'sync')
        advance(op['a'][1])
        if api != 'ctxf':
            for x in op['f']:
                if api == 'free':
                    s.featd(r, x)
                elif api == 'c':
                    s.featc(r, x)
                else:
                    s.feat(slot, x)
        pi = s.pold(r) if api == 'free' else s.polc(r) if api == 'c' else s.pol(slot)
        advance(op['a'][2])
        open_.append((r, slot, pi, op, t0))
    while open_:
        finish()
    tol = 1e-9 + now[0] / 1e9 * 2.0**-51
    with ctx.case() as k:
        rr = k.run(s).need_ok('timed history')
        ref = [{} for _ in regs]
        for n, (r, f, pi, m, given, di) in enumerate(log):
            key = (tuple(f), rr.int(pi))
            old = ref[r].get(key)
            got = rr.ds(di)
            if key not in got:
                raise Violation('execution %d: features %r policy %d were not recorded' % (n, f, key[1]))
            if old is None:
                if given and got[key] != m or not given and abs(got[key] - m) > tol + 1e-12 * m:
                    raise Violation('execution %d of region %s: recorded metric %r, %s %r' % (n, regs[r]['name'], got[key], 'given' if given else 'elapsed time', m))
            else:
                x = .5 * old + .5 * m
                if not close(got[key], x) and abs(got[key] - x) > (0 if given else tol + 1e-12 * abs(x)):
                    raise Violation('execution %d of region %s: averaged metric %r, expected %r (held %r, new %r)' % (n, regs[r]['name'], got[key], x, old, m))
            ref[r][key] = got[key]
            for kk, v in got.items():
                if ref[r].get(kk) != v:
                    raise Violation('execution %d changed the metric of %r' % (n, kk))
    return dict(nontrivial=timed[0] >= 2 and timed[1] >= 1, classes=['overlapping'] * (nest > 0), counts={'timed': timed[0], 'timed > 0': timed[1]})
