"""Client of the executor's fork server, script builder and scratch directories."""
import os, shutil, subprocess, tempfile
from . import build as B

CPU_S = 30
WALL_MS = 120000


class HarnessError(Exception):
    pass


class Violation(Exception):
    pass


def enc(s):
    if s == '' or s is None:
        return '-'
    o = []
    for b in s.encode('utf-8', 'surrogateescape'):
        c = chr(b)
        if c.isalnum() or c in '_.,/=@:+#' or (c == '-' and len(s) > 1):
            o.append(c)
        else:
            o.append('%%%02x' % b)
    return ''.join(o)


class S:
    """Script builder: every method call appends one op and returns its index."""

    def __init__(self):
        self.lines = []

    def op(self, name, *args):
        out = [name]
        for a in args:
            if isinstance(a, bool):
                out.append('1' if a else '0')
            elif isinstance(a, float):
                out.append(float(a).hex() if a == a and abs(a) != float('inf') else repr(a))
            elif isinstance(a, int):
                out.append(str(a))
            elif isinstance(a, str):
                out.append(enc(a))
            elif isinstance(a, (list, tuple)):  # feature vector
                out.append(str(len(a)))
                out += [float(x).hex() for x in a]
            else:
                raise HarnessError('bad arg %r' % (a,))
        self.lines.append(' '.join(out))
        return len(self.lines) - 1

    def raw(self, line):
        self.lines.append(line)
        return len(self.lines) - 1

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a: self.op(name, *a)

    def env(self, d):
        for k, v in d.items():
            self.op('env', k, str(v))

    def text(self):
        return '\n'.join(self.lines) + '\n'


def parse_ds(t):
    """'DS | pol metric f f ...' -> {(features, policy): metric}; duplicates -> HarnessError"""
    d = {}
    for part in t.split('|')[1:]:
        w = part.split()
        k = (tuple(float.fromhex(x) for x in w[2:]), int(w[0]))
        if k in d:
            raise Violation('dataset lists the pair %r twice' % (k,))
        d[k] = float.fromhex(w[1])
    return d


def parse_best(t):
    a, b = t[len('BEST'):].split(';')
    pairs = []
    for part in a.split('|')[1:]:
        w = part.split()
        if w and w[0] == 'LENGTHS':
            raise Violation('features and policies of the reduction have different lengths')
        pairs.append((tuple(float.fromhex(x) for x in w[1:]), int(w[0])))
    m = {}
    for part in b.split('|')[1:]:
        w = part.split()
        m[tuple(float.fromhex(x) for x in w[2:])] = (int(w[0]), float.fromhex(w[1]))
    return pairs, m


class Run:
    def __init__(self, kind, code, obs, err):
        self.kind, self.code, self.err = kind, code, err
        self.obs = {}
        self.done = False
        self.last = -1
        self.all = []
        for line in obs.splitlines():
            if ' ' not in line:
                continue
            i, t = line.split(' ', 1)
            if t == 'DONE':
                self.done = True
                continue
            if t.startswith('HARNESS'):
                raise HarnessError('%s: %s' % (line, err[-500:]))
            self.all.append((int(i), t))
            self.last = int(i)
            self.obs.setdefault(int(i), []).append(t)
        if kind == 'exit' and code in (97, 98):
            raise HarnessError('executor: ' + err[-500:])

    @property
    def ok(self):
        return self.kind == 'exit' and self.code == 0 and self.done

    @property
    def refused(self):
        """the program terminated with an error: abort(), uncaught exception or a non-zero exit status"""
        return self.kind == 'signal' and self.code == 6 or self.kind == 'exit' and self.code not in (0, 97, 98, 99)

    def status(self):
        return '%s %s%s; stderr: ...%s' % (self.kind, self.code, '' if self.done else ' (script not finished, last observation at op %d)' % self.last,
                                           self.err[-600:])

    def need_ok(self, what='run'):
        if not self.ok:
            raise Violation('%s did not finish normally: %s' % (what, self.status()))
        return self

    def get(self, i, tag=None):
        v = self.obs.get(i)
        if not v:
            if not self.ok:
                raise Violation('the program terminated before operation %d: %s' % (i, self.status()))
            raise HarnessError('no observation for op %d (%s)' % (i, self.status()))
        t = v[-1]
        if tag is not None and t.split()[0] != tag:
            raise HarnessError('observation %r for op %d, expected %s' % (t, i, tag))
        return t

    def int(self, i):
        return int(self.get(i).split()[1])

    def ints(self, i):
        return [int(x) for x in self.get(i).split()[1:]]

    def ds(self, i):
        for t in self.obs.get(i, []):
            if t == 'SIZE':
                raise Violation('size() differs from the number of entries')
        return parse_ds(self.get(i, 'DS'))


class Server:
    def __init__(self, exe, env=None):
        self.exe = exe
        self.env = env
        self.p = None

    def start(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith('APOLLO_')}
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
        if self.env:
            e.update(self.env)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, bufsize=0)

    def run(self, cwd, base, script, cpu=CPU_S, wall=WALL_MS):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                b = script.encode()
                self.p.stdin.write(b'RUN %s %s %d %d %d\n' % (cwd.encode(), base.encode(), cpu, wall, len(b)) + b)
                line = self._readline()
                w = line.decode().split()
                if len(w) == 3 and w[0] == 'END' and w[1] != 'fork':
                    break
            except (BrokenPipeError, OSError):
                pass
            self.stop()
            if attempt:
                raise HarnessError('executor server died')
        with open(base + '.obs', errors='surrogateescape') as f:
            obs = f.read()
        with open(base + '.err', errors='replace') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 20000))
            err = f.read()
        return Run(w[1], int(w[2]), obs, err)

    def _readline(self):
        out = b''
        while not out.endswith(b'\n'):
            c = os.read(self.p.stdout.fileno(), 4096)
            if not c:
                raise OSError('eof')
            out += c
        return out

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


class Case:
    """A scratch directory for one generated case; may run several programs in it."""

    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d
        self.cwd = d + '/w'
        os.makedirs(self.cwd)
        self.n = 0

    def path(self, p):
        return os.path.join(self.cwd, p)

    def write(self, p, data):
        q = self.path(p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb' if isinstance(data, bytes) else 'w') as f:
            f.write(data)

    def read(self, p, binary=False):
        if not os.path.isfile(self.path(p)):
            raise Violation('the file %s was not written' % p)
        with open(self.path(p), 'rb' if binary else 'r', **({} if binary else {'errors': 'surrogateescape'})) as f:
            return f.read()

    def exists(self, p):
        return os.path.exists(self.path(p))

    def files(self, sub=''):
        out = []
        for r, _, fs in os.walk(self.path(sub)):
            for f in fs:
                out.append(os.path.relpath(os.path.join(r, f), self.cwd))
        return sorted(out)

    def run(self, s, variant='base', cwd=None, **kw):
        self.n += 1
        w = self.cwd if cwd is None else os.path.join(self.cwd, cwd)
        return self.ctx.server(variant).run(w, '%s/r%d' % (self.d, self.n), s.text() if isinstance(s, S) else s, **kw)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Ctx:
    def __init__(self, exes):
        self.exes = exes  # variant -> path
        self.servers = {}
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
        self.tmp = tempfile.mkdtemp(prefix='vp-', dir=base)
        self.n = 0
        self.stat = {}

    def server(self, v):
        if v not in self.servers:
            self.servers[v] = Server(self.exes[v])
        return self.servers[v]

    def case(self):
        self.n += 1
        return Case(self, '%s/%d' % (self.tmp, self.n))

    def close(self):
        for s in self.servers.values():
            s.stop()
        shutil.rmtree(self.tmp, ignore_errors=True)
