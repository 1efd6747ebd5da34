"""Builds the executor variants from /repo's current working tree (cached by content)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))

MPI_ENV = {'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
           'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_plm': 'isolated',
           'OMPI_MCA_oob_tcp_if_include': 'lo', 'OMPI_MCA_rmaps_base_oversubscribe': '1',
           'OMPI_MCA_hwloc_base_binding_policy': 'none'}

BASE = ['-std=gnu++14', '-w']
REL = ['-O2', '-DNDEBUG']
SAN = ['-fsanitize=address,bounds,null,vla-bound,return']
ASAN = ['-O1', '-g', '-DNDEBUG', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] + SAN
VARIANTS = {
    # flags as in the project's own RelWithDebInfo build
    'base': dict(cxx='g++', flags=REL + ['-DVP_COUNT_HEAP'], link=['-ldl']),
    'asan': dict(cxx='g++', timers=True, flags=ASAN + ['-DENABLE_CUDA', '-DENABLE_HIP'], link=SAN + ['-ldl']),
    'jit': dict(cxx='g++', flags=REL + ['-DENABLE_JIT_DTREE'], link=['-ldl']),
    'async': dict(cxx='g++', flags=REL + ['-DENABLE_CUDA', '-DENABLE_HIP', '-DVP_COUNT_HEAP'], link=['-ldl'], timers=True),
    'asan-mpi': dict(cxx='mpicxx', timers=True, flags=ASAN + ['-DENABLE_MPI', '-DENABLE_CUDA', '-DENABLE_HIP'], link=SAN + ['-ldl']),
    # OpenCV instead of the builtin trees
    'opencv': dict(cxx='g++', opencv=True, flags=REL + ['-DENABLE_OPENCV', '-I/usr/include/opencv4'], link=['-ldl', '-lopencv_ml', '-lopencv_core']),
    # unoptimised: reads of uninitialised memory are not elided
    'grind': dict(cxx='g++', timers=True, flags=['-O0', '-g', '-DNDEBUG', '-DENABLE_CUDA', '-DENABLE_HIP'], link=['-ldl']),
    'mpi': dict(cxx='mpicxx', timers=True, flags=REL + ['-DENABLE_MPI', '-DENABLE_CUDA', '-DENABLE_HIP'], link=['-ldl']),
}


class BuildError(Exception):
    pass


def _sources(v):
    src = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    out = []
    for s in src:
        b = os.path.basename(s)
        if b == 'RegressionTree.cpp' and not v.get('opencv'):
            continue
        if b in ('TimerCudaAsync.cpp', 'TimerHipAsync.cpp') and not v.get('timers'):
            continue
        out.append(s)
    return out


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _rel(p):
    return p.replace(REPO + '/', 'repo:', 1) if p.startswith(REPO + '/') else p.replace(ROOT + '/', 'verif:', 1)


def build(variant):
    """Returns the path of the executor of that variant."""
    v = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = os.path.join(BUILD, variant)
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + ROOT + '/harness', '-I' + ROOT + '/harness/stubs', '-I' + REPO + '/src', '-I' + REPO + '/include',
               '-I' + REPO + '/src/connectors/kokkos/include']
        hdr = sorted(glob.glob(REPO + '/src/**/*.h*', recursive=True) + glob.glob(REPO + '/include/**/*.h*', recursive=True) +
                     glob.glob(ROOT + '/harness/**/*.h', recursive=True))
        hk = _hash(*[x for p in hdr for x in (_rel(p), _read(p))])
        srcs = _sources(v) + [ROOT + '/harness/executor.cpp']
        objs, todo = [], []
        for s in srcs:
            flags = BASE + v['flags'] + inc
            k = _hash(hk, _rel(s), _read(s), ' '.join(BASE + v['flags']), v['cxx'])
            o = os.path.join(d, k + '.o')
            objs.append(o)
            if not os.path.exists(o):
                todo.append((s, o, [v['cxx']] + flags + ['-c', s, '-o', o + '.tmp']))
        env = dict(os.environ, **(MPI_ENV if 'mpi' in variant else {}))

        def comp(t):
            s, o, cmd = t
            r = subprocess.run(cmd, capture_output=True, text=True, env=env)
            if r.returncode:
                return '%s\n%s' % (' '.join(cmd), r.stderr[-4000:])
            os.rename(o + '.tmp', o)
            return None
        # the biggest files first
        todo.sort(key=lambda t: -os.path.getsize(t[0]))
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(comp, todo) if e]
        if errs:
            raise BuildError('\n'.join(errs))
        exe = os.path.join(d, 'executor-' + _hash(*[os.path.basename(o) for o in objs], ' '.join(v['link'])))
        if not os.path.exists(exe):
            r = subprocess.run([v['cxx']] + objs + ['-o', exe + '.tmp'] + v['link'], capture_output=True, text=True, env=env)
            if r.returncode:
                raise BuildError(r.stderr[-4000:])
            os.rename(exe + '.tmp', exe)
        # drop objects and executors of earlier states of the tree
        keep = set(objs) | {exe}
        for f in glob.glob(d + '/*'):
            if f not in keep and (f.endswith('.o') or 'executor-' in f):
                try:
                    if os.path.getmtime(f) < os.path.getmtime(exe) - 3600:
                        os.unlink(f)
                except OSError:
                    pass
        return exe


def module():
    """The loadable module of harness/mod (does not depend on the code under test)."""
    src = ROOT + '/harness/mod/hop.c'
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, 'hop-%s.so' % _hash(_read(src)))
    if not os.path.exists(so):
        t = so + '.%d.tmp' % os.getpid()
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-fno-optimize-sibling-calls', src, '-o', t], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        os.rename(t, so)
    return so


if __name__ == '__main__':
    import time
    module()
    for n in sys.argv[1:] or list(VARIANTS):
        t = time.time()
        print(n, build(n), '%.1fs' % (time.time() - t))
