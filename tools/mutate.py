#!/usr/bin/env python3
"""Random source mutations against the checks: mutate.py OUT SEED N [FILE...]. Run from a copy of /verif; lists the survivors."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'src/Apollo.cpp': ['C09', 'C25', 'C14', 'C16', 'C17', 'C11', 'C21', 'C02', 'C12', 'C27', 'C28'],
    'src/Config.cpp': ['C11', 'C15', 'C14', 'C09'],
    'src/Dataset.cpp': ['C02', 'C03', 'C07', 'C08', 'C16'],
    'src/ModelFactory.cpp': ['C11', 'C01', 'C18', 'C06'],
    'src/Region.cpp': ['C09', 'C14', 'C12', 'C06', 'C07', 'C11', 'C21', 'C13', 'C02', 'C15', 'C24', 'C23', 'C27', 'C28'],
    'src/helpers/Parser.cpp': ['C06', 'C08', 'C07', 'C22', 'C01'],
    'src/helpers/OutputFormatter.cpp': ['C06', 'C22', 'C20'],
    'src/models/DatasetMap.cpp': ['C03', 'C11'],
    'src/models/DecisionTree.cpp': ['C04', 'C24', 'C06', 'C10', 'C09', 'C11', 'C08'],
    'src/models/RandomForest.cpp': ['C05', 'C24', 'C06', 'C10', 'C09', 'C11', 'C08'],
    'src/models/Optimal.cpp': ['C11', 'C01'],
    'src/models/PolicyNet.cpp': ['C18', 'C06', 'C08', 'C01', 'C23'],
    'src/models/Random.cpp': ['C10', 'C01'],
    'src/models/RoundRobin.cpp': ['C10', 'C16', 'C01'],
    'src/models/Static.cpp': ['C11', 'C01'],
    'src/timers/TimerCudaAsync.cpp': ['C12', 'C23'],
    'src/timers/TimerHipAsync.cpp': ['C12', 'C23'],
    'src/timers/TimerSync.cpp': ['C13'],
    'src/connectors/kokkos/kokkos-connector.cpp': ['C19', 'C23'],
    'src/models/impl/DecisionTreeImpl.cpp': ['C04', 'C06', 'C08', 'C20', 'C22', 'C05', 'C23'],
    'src/models/impl/RandomForestImpl.cpp': ['C05', 'C06', 'C08', 'C22', 'C23'],
    'src/models/RegressionTree.cpp': ['C24'],
    'src/python/analysis/run-exhaustive.py': ['C26'],
    'src/python/analysis/rfc2dot_opencv.py': ['C22'],
    'src/python/analysis/dtree2dot.py': ['C22'],
    'src/python/analysis/rfc2dot.py': ['C22'],
}
SWAP = [(r'(?<![<>=!\-+*/&|])<=', ['<', '==']), (r'(?<![<>=!\-])>=', ['>', '==']), (r'(?<=\s)<(?=\s)', ['<=', '>']), (r'(?<=\s)>(?=\s)', ['>=', '<']), (r'==', ['!=']), (r'!=', ['==']),
        (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/']), (r'(?<=\s)/(?=\s)', ['*']), (r'(?<=\s)%(?=\s)', ['/']), (r'&&', ['||']), (r'\|\|', ['&&']),
        (r'\band\b', ['or']), (r'\bor\b', ['and']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'\b1\.0\b', ['2.0']), (r'\b0\.5\b', ['0.25']),
        (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bbegin\(\)', ['begin() + 1']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'(?<=\()!(?=\w)', ['']), (r'\bif \((?!!)', ['if (!!0 && (', ]), (r'\+\+', ['--']),
        (r'\bint\b', ['short', 'unsigned char']), (r'\bdouble\b', ['float']), (r'\bfloat\b', ['int']), (r'\bsize_t\b', ['unsigned char'])]


def mutants(f, text):
    out = []
    lines = text.split('\n')
    skip = False
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith('#if 0'):
            skip = True
        if t.startswith('#endif'):
            skip = False
        if skip or not t or t.startswith(('//', '#', '*', '/*', 'std::cout', '<<', 'fprintf', 'printf', 'namespace', 'using', 'std::cerr', 'assert', 'import')) or 'include' in t:
            continue
        for pat, reps in SWAP:
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2 or '//' in l[:m.start()]:
                    continue
                for r in reps:
                    if r.startswith('if (!!0'):
                        continue
                    out.append((f, i, l[:m.start()] + r + l[m.end():]))
        if re.match(r'^\s*[\w.>\-\[\]():*]+(\(.*\)| [+\-*/]?= .*);$', l) and not re.match(r'^\s*(return|delete|throw|const|auto|int|float|double|size_t|std::\w+<|std::string|bool)\b', l):
            out.append((f, i, re.match(r'^\s*', l).group(0) + ';'))
            out.append((f, i, re.match(r'^\s*', l).group(0) + ';'))
        if t in ('break;', 'continue;', 'return;', 'return false;', 'return true;'):
            out.append((f, i, re.match(r'^\s*', l).group(0) + ';'))
        m = re.match(r'^(\s*(?:\} else )?if \()(.*)\)( \{|)$', l)
        if m and m.group(2).count('(') == m.group(2).count(')'):
            out.append((f, i, '%s!(%s))%s' % (m.group(1), m.group(2), m.group(3))))
            out.append((f, i, '%s(%s) && false)%s' % (m.group(1), m.group(2), m.group(3))))
            out.append((f, i, '%s(%s) || true)%s' % (m.group(1), m.group(2), m.group(3))))
    return [m for m in out if m[2] != lines[m[1]]]


def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(ORDER)
    rnd = random.Random(seed)
    pool = []
    for f in files:
        ms = mutants(f, open('/repo/' + f).read())
        rnd.shuffle(ms)
        pool.append(ms)
    log = open(out, 'a')
    done = 0
    base = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % base, shell=True)
    bd = base + '-build'
    if os.path.isdir(R + '/build'):
        shutil.copytree(R + '/build', bd)
    env = dict(os.environ, VERIF_REPO=base, VERIF_BUILD=bd)
    while done < n and any(pool):
        ms = rnd.choices(pool, weights=[len(p) for p in pool])[0]
        if not ms:
            continue
        f, i, new = ms.pop()
        p = base + '/' + f
        orig = open(p).read()
        ls = orig.split('\n')
        old = ls[i]
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        t0 = time.time()
        verdict, tried = 'SURVIVED', []
        for c in ORDER[f]:
            r = subprocess.run(['timeout', '-k', '5', '600', 'python3-vt', 'check.py', c], cwd=R, env=env, capture_output=True, text=True)
            tried.append('%s:%d' % (c, r.returncode))
            if r.returncode == 3:
                verdict = 'NOBUILD'
                break
            if r.returncode != 0:
                verdict = 'CAUGHT ' + c if r.returncode == 1 and 'VIOLATION' in r.stdout else 'ODD %s %d %s' % (c, r.returncode, (r.stdout + r.stderr)[-300:].replace('\n', ' | '))
                break
        open(p, 'w').write(orig)
        log.write('%s %s:%d %.0fs\n   - %s\n   + %s\n' % (verdict, f, i + 1, time.time() - t0, old.strip(), new.strip()))
        log.flush()
        if verdict != 'NOBUILD':
            done += 1
    shutil.rmtree(base)
    shutil.rmtree(bd, ignore_errors=True)


main()
