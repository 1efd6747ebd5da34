"""Drives one property check: builds, generates cases with Hypothesis on several worker
processes, shrinks the first failure, confirms it by replaying, writes the evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback

from . import build as B
from .exe import Ctx, HarnessError, Violation

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

ROOT = B.ROOT
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
SHRINK_S = {'quick': 40, 'thorough': 120}
SOFT_S = {'quick': 240, 'thorough': 3000}


class Stop(BaseException):
    pass


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _size(case):
    return len(json.dumps(case))


def worker(modname, tier, seed, wid, count, exes, q, stop):
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    from hypothesis import strategies as st
    os.setpgid(0, 0) if False else None
    mod = importlib.import_module(modname)
    ctx = Ctx(exes)
    res = dict(wid=wid, evaluations=0, nontrivial=0, keys=[], classes={}, samples=[], fail=None, harness=None, stopped=False)
    seen = set()
    t0 = time.time()
    state = dict(tfail=None, best=None, msg=None)

    def one(case):
        if stop.is_set() and state['tfail'] is None:
            raise Stop()
        if time.time() - t0 > SOFT_S[tier] and state['tfail'] is None:
            res['stopped'] = True
            raise Stop()
        if state['tfail'] and time.time() - state['tfail'] > SHRINK_S[tier]:
            raise Stop()
        try:
            info = mod.check(case, ctx) or {}
        except Violation as e:
            if state['tfail'] is None:
                state['tfail'] = time.time()
                stop.set()
            if state['best'] is None or _size(case) <= _size(state['best']):
                state['best'], state['msg'] = case, str(e)
            raise
        if state['tfail'] is None:
            res['evaluations'] += info.get('evals', 1)
            for c in info.get('classes', []):
                res['classes'][c] = res['classes'].get(c, 0) + 1
            for c, n in info.get('counts', {}).items():
                res['classes'][c] = res['classes'].get(c, 0) + n
            if info.get('nontrivial'):
                k = case_key(case)
                if k not in seen:
                    seen.add(k)
                    if len(res['samples']) < 3 and _size(case) < 4000 and (len(seen) % 7 == 1 or len(seen) > 200):
                        res['samples'].append(case)

    try:
        if hasattr(mod, 'fixed'):
            fx = mod.fixed(tier, seed)
            for i, case in enumerate(fx):
                if i % WORKERS == wid:
                    one(case)
        if hasattr(mod, 'generate'):  # plain seeded generation (statistical or batch checks)
            rng = random.Random('%s-%s-%s-%s' % (modname, tier, seed, wid))
            for i in range(count):
                one(mod.generate(rng, tier))
        else:
            strat = mod.strategy(tier)

            @hseed(int(hashlib.sha1(('%s-%s-%s-%s' % (modname, tier, seed, wid)).encode()).hexdigest()[:12], 16))
            @settings(max_examples=count, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
            @given(strat)
            def test(case):
                one(case)
            test()
    except Stop:
        pass
    except Violation:
        pass
    except HarnessError as e:
        res['harness'] = traceback.format_exc()
    except BaseException as e:
        if state['best'] is None:
            res['harness'] = traceback.format_exc()
    if state['best'] is not None:
        res['fail'] = dict(case=state['best'], msg=state['msg'])
        if hasattr(mod, 'generate') and hasattr(mod, 'shrink'):
            try:
                res['fail'] = greedy(mod, ctx, state['best'], state['msg'], SHRINK_S[tier])
            except BaseException:
                pass
    ctx.close()
    res['keys'] = sorted(seen)
    q.put(res)


def greedy(mod, ctx, case, msg, budget):
    t0 = time.time()
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for c in mod.shrink(case):
            if time.time() - t0 > budget:
                break
            try:
                mod.check(c, ctx)
            except Violation as e:
                case, msg, progress = c, str(e), True
                break
            except HarnessError:
                continue
    return dict(case=case, msg=msg)


def replay_once(mod, case, exes):
    ctx = Ctx(exes)
    try:
        mod.check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    finally:
        ctx.close()


def evidence(pid, tier, seed, mod, results, wall, violations, notes):
    keys = set()
    classes, samples, ev = {}, [], 0
    for r in results:
        keys |= set(r['keys'])
        ev += r['evaluations']
        for c, n in r['classes'].items():
            classes[c] = classes.get(c, 0) + n
        samples += r['samples'][:1]
    if not samples:
        for r in results:
            samples += r['samples']
    doc = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
               coverage=dict(evaluations=ev, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:6],
                             classes=dict(sorted(classes.items())), workers=len(results),
                             stopped_early=any(r['stopped'] for r in results)),
               assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 1), violations=violations)
    if notes:
        doc['coverage']['notes'] = notes
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    p = ROOT + '/evidence/%s.json' % pid
    with open(p + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.rename(p + '.tmp', p)
    return doc


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--count', type=int)
    a = ap.parse_args(argv)
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    modname = 'vp.props.' + pid.lower()
    mod = importlib.import_module(modname)
    try:
        exes = {v: B.build(v) for v in getattr(mod, 'VARIANTS', ['base'])}
    except B.BuildError as e:
        print('BUILD-ERROR: the executor does not build from /repo:\n%s' % e)
        return 3
    tb = time.time() - t0
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)['case']
        m = replay_once(mod, case, exes)
        if m:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            print('  ' + m)
            return 1
        print('OK: the case does not violate %s' % pid)
        return 0
    total = a.count or mod.COUNT[tier]
    nw = min(WORKERS, total)
    q, stop = mp.Queue(), mp.Event()
    per = [(total + i) // nw for i in range(nw)]
    ps = [mp.Process(target=worker, args=(modname, tier, a.seed, i, per[i], exes, q, stop)) for i in range(nw)]
    for p in ps:
        p.start()
    results = []
    while len(results) < nw:
        try:
            results.append(q.get(timeout=5))
        except Exception:
            dead = [p for p in ps if not p.is_alive()]
            if len(dead) == nw and q.empty():
                break
    for p in ps:
        p.join(30)
    if len(results) < nw and not any(r['fail'] for r in results):
        print('HARNESS-ERROR: a worker died')
        return 4
    results.sort(key=lambda r: r['wid'])
    notes = []
    viol = 0
    fails = [r['fail'] for r in results if r['fail']]
    fails.sort(key=lambda f: _size(f['case']))
    rep = None
    for f in fails:
        got = 0
        for k in range(5):
            try:
                m = replay_once(mod, f['case'], exes)
            except HarnessError as e:
                m = None
            if m:
                got += 1
                f['msg'] = m
            if got >= 2:
                break
        if got:
            viol = 1
            os.makedirs(ROOT + '/replays', exist_ok=True)
            rep = ROOT + '/replays/%s-%s.json' % (pid, case_key(f['case']))
            with open(rep, 'w') as fh:
                json.dump(dict(property=pid, seed=a.seed, tier=tier, message=f['msg'], reproduced=got, case=f['case']), fh, indent=1)
            break
        notes.append('unconfirmed failure (did not reproduce in 5 replays): ' + f['msg'][:500])
    doc = evidence(pid, tier, a.seed, mod, results, time.time() - t0, viol, notes)
    c = doc['coverage']
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs' %
          (pid, tier, a.seed, c['evaluations'], c['distinct_nontrivial'], tb, time.time() - t0))
    print('  classes: ' + ', '.join('%s=%d' % x for x in c['classes'].items()))
    for n in notes:
        print('  NOTE: ' + n)
    if rep:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        print('  ' + f['msg'])
        print('  replay: python3-vt /verif/check.py %s --replay %s' % (pid, rep))
        return 1
    h = [r['harness'] for r in results if r['harness']]
    if h:
        print('HARNESS-ERROR:\n' + h[0])
        return 4
    return 0
