"""C25: identifiers of call sites."""
import os, shutil, tempfile
from hypothesis import strategies as st
from .. import build as B
from ..exe import S, Violation

RULE = ('generated chains of up to 14 calls (fixed cases: up to 600) through functions of the program, with several call sites each, and through functions of '
        'up to three loaded modules with generated file and directory names; at the end of the chain the identifier at a generated distance is requested, '
        'repeatedly; the harness reads the stack itself at the same place and names the module of each frame with dladdr; the identifier must be '
        '<module file name>@<return address> of the frame at that distance, equal in repetitions, different for different call sites, and repetitions must '
        'not keep memory; non-trivial: at least two requests whose call sites differ')
COUNT = {'quick': 12000, 'thorough': 80000}
ASSUMPTIONS = ['the stack is at least as deep as the distance, frames belong to the program or a loaded module, module names contain no backslash or newline',
               'glibc backtrace() and dladdr() of the harness are right about its own stack']
NAME = 'abcXYZ0189._-+@,=#%~ ()[]{}:$&'


names = st.one_of(st.text(NAME, min_size=1, max_size=12),
                  st.builds(lambda a, b, c: a + b + c, st.sampled_from(['lib', 'libapp', 'python3.12', 'module.', 'a b', 'L' * 120]), st.text(NAME, max_size=4),
                            st.sampled_from(['.so', '.so.1', '.so.6.2.0', '-1.2.so', '.exe', '.cpython-312-x86_64-linux-gnu.so', '.so (deleted)', '.dll', '.debug', '.so.1@@V'])))


@st.composite
def walk(draw, nm):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 6, 9, 14]))
    el = [st.integers(0, 7).map(lambda k: 'x%d' % k)]
    if nm:
        el += [st.tuples(st.integers(0, nm - 1), st.integers(0, 3)).map(lambda t: 'm%d:%d' % t)] * 2
    path = draw(st.lists(st.one_of(*el), min_size=n, max_size=n))
    # distance 0: default argument (2); 2: the caller itself; 3..: its callers
    return [draw(st.sampled_from([1, 1, 2, 5, 40])), draw(st.one_of(st.sampled_from([0, 2, 3]), st.integers(2, 4 + 2 * n))), draw(st.integers(0, 2)), path]


@st.composite
def case(draw):
    mods = [draw(st.tuples(st.lists(st.text(NAME, min_size=1, max_size=8), max_size=2), names))
            for _ in range(draw(st.integers(0, 3)))]
    return dict(mods=[[list(d), f] for d, f in mods], walks=draw(st.lists(walk(len(mods)), min_size=2, max_size=8)), rel=draw(st.booleans()))


def strategy(tier):
    return case()


def fixed(tier, seed):
    out = []
    for n, d in ((120, 125), (128, 200), (260, 255), (260, 256), (260, 257), (260, 300), (300, 520)):
        out.append(dict(mods=[[['lib'], 'libdeep.so']], rel=False,
                        walks=[[3, d, 0, ['x%d' % (i * 7 % 8) if i % 3 else 'm0:%d' % (i % 4) for i in range(n)]],
                               [3, d, 1, ['x%d' % (i * 5 % 8) for i in range(n)]]]))
    out.append(dict(mods=[], rel=False, walks=[[2000, 3, 0, ['x1']], [2000, 0, 1, ['x2']]]))
    return out


def unhex(h):
    return bytes.fromhex(h[:-1]).decode('utf-8', 'surrogateescape')


def check(c, ctx):
    tmp = tempfile.mkdtemp(prefix='vp-mod-')
    try:
        s = S()
        with ctx.case() as k:
            so = B.module()
            for i, (dirs, name) in enumerate(c['mods']):
                dirs = [x for x in dirs if x.strip('.')]   # '.' and '..' are no new directories
                p = os.path.join(tmp, 'd%d' % i, *dirs)
                os.makedirs(p, exist_ok=True)
                p = os.path.join(p, name if name.strip('.') else 'dots' + name + '.so')
                shutil.copyfile(so, p)
                s.modload(i, os.path.relpath(p, k.cwd) if c['rel'] else p)
            ix = [s.raw('walk %d %d %d %d %s' % (t, d, l, len(p), ' '.join(p))) for t, d, l, p in c['walks']]
            r = k.run(s).need_ok('walks')
            obs = [r.obs[i] for i in ix]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    leaf, sites = {}, {}
    for (t, d, l, p), o in zip(c['walks'], obs):
        for x in o[:-1]:
            w = x.split()
            raise Violation('repeating the same calls gives another identifier: %r, then %r' % (unhex(w[1]), unhex(w[2])))
        w = o[-1].split()
        grow, lo, got = int(w[1]), int(w[2], 16), unhex(w[3])
        fr = [(int(a, 16), unhex(b)) for a, b in zip(w[4::2], w[5::2])]
        what = 'identifier at distance %s of a chain of %d calls' % (d or 'default', len(p))
        if d > 2:
            a, m = fr[d - 2]
            exp = '%s@%#x' % (m, a)
            if got != exp:
                raise Violation('%s: %r, expected %r' % (what, got, exp))
            sites.setdefault(a, set()).add(got)
        else:
            m, _, a = got.rpartition('@')
            try:
                n = int(a, 16)
            except ValueError:
                n = -1
            if m != fr[0][1] or not a.startswith('0x') or not lo < n < lo + 4096:
                raise Violation('%s: %r; the caller is in %r, at %#x and following' % (what, got, fr[0][1], lo))
            leaf.setdefault((l, d == 0), set()).add(got)
            sites.setdefault(n, set()).add(got)
        if grow > 1000:
            raise Violation('%s: %d repetitions keep %d bytes' % (what, t, grow))
    seen = {}
    for k_, v in leaf.items():
        if len(v) > 1:
            raise Violation('one call site has the identifiers %r' % sorted(v))
        for x in v:
            if x in seen:
                raise Violation('two call sites have the same identifier %r' % x)
            seen[x] = k_
    return dict(nontrivial=len(sites) > 1, classes=['%d modules' % len(c['mods'])], evals=1)
