#!/usr/bin/env python3
"""Planted bugs: generates /verif/seeded/<id>/ from the specifications in bugspecs.py, confirms the demonstrations on
scratch copies and runs the property's check against each.
  bugs.py gen [ID...]     write seeded/<id>
  bugs.py demo [ID...]    demo on the clean and the changed scratch tree
  bugs.py check [ID...]   run the property's quick check against the changed scratch tree
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/tools')
from bugspecs import BUGS

DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Exit 0: the behaviour is right, nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
unset "${!APOLLO_@}"
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
%(body)s
'''
COMPILE = r'''
cxx=%(cxx)s
for f in $(cd "$repo" && find src -name '*.cpp' | grep -v %(excl)s) demo.cpp; do
  case $f in demo.cpp) s=$here/demo.cpp;; *) s=$repo/$f;; esac
  echo "$cxx -std=gnu++14 -O0 -w %(flags)s -I$here -I$repo/include -I$repo/src -I$repo/src/connectors/kokkos/include -c $s -o $t/$(echo "$f" | tr / _).o"
done | xargs -P 8 -I{} sh -c '{}' || exit 9
$cxx -o "$t/demo" "$t"/*.o %(link)s -ldl || exit 9
cd "$t" || exit 9
'''


def gen(b):
    d = '%s/seeded/%s' % (R, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tree(b, None, d)
    if 'sh' in b:
        body = b['sh']
        if 'cpp' in b:
            body = comp(b) + body
    else:
        body = comp(b) + 'timeout 120 ./demo > out.txt 2> err.txt\nrc=$?\ntail -3 out.txt\n[ $rc = 0 ]\nexit $?'
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO % dict(body=body))
    if 'cpp' in b:
        with open(d + '/demo.cpp', 'w') as f:
            f.write(b['cpp'].lstrip())
    for n, t in b.get('files', {}).items():
        os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
        with open(d + '/' + n, 'w') as f:
            f.write(t)
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
        f.write('\n')


def comp(b):
    excl = '-e NoSuchFile' if b.get('opencv') else '-e RegressionTree'
    if b.get('opencv'):
        b = dict(b, flags='-DENABLE_OPENCV -I/usr/include/opencv4', link='-lopencv_ml -lopencv_core')
    if not b.get('gpu'):
        excl += ' -e TimerCuda -e TimerHip'
    if not b.get('kokkos'):
        excl += ' -e connectors/'
    if 'mpi' in b:
        return 'export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo\n' + \
            COMPILE % dict(excl=excl, flags='-DENABLE_MPI ' + b.get('flags', ''), cxx='mpicxx', link=b.get('link', ''))
    return COMPILE % dict(excl=excl, flags=b.get('flags', ''), cxx='g++', link=b.get('link', ''))


def tree(b, dst, d=None):
    """changed scratch copy of the tracked files; returns its path"""
    t = dst or tempfile.mkdtemp(prefix='bug-', dir='/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % t, shell=True)
    orig = {}
    for f, old, new in b['edits']:
        p = t + '/' + f
        s = open(p).read()
        if s.count(old) != b.get('count', 1):
            raise SystemExit('%s: %d matches of %r in %s' % (b['id'], s.count(old), old, f))
        open(p, 'w').write(s.replace(old, new))
    if d:
        r = subprocess.run(['git', '-C', '/repo', '--work-tree=' + t, 'diff', 'HEAD'], capture_output=True, text=True)
        open(d + '/patch.diff', 'w').write(r.stdout)
        subprocess.run(['git', '-C', '/repo', 'status', '--short'], stdout=subprocess.DEVNULL)
        shutil.rmtree(t)
    return t


def demo(b):
    out = []
    for planted in (0, 1):
        t = tempfile.mkdtemp(prefix='bug-', dir='/tmp')
        tree(b if planted else dict(b, edits=[]), t)
        r = subprocess.run(['bash', '%s/seeded/%s/demo.sh' % (R, b['id'])], cwd=t, capture_output=True, text=True, timeout=300)
        out.append((r.returncode, (r.stdout + r.stderr)[-300:]))
        shutil.rmtree(t)
    ok = out[0][0] == 0 and out[1][0] not in (0, 9)
    return '%s demo %s: clean %d, planted %d %s' % (b['id'], 'OK' if ok else 'BAD', out[0][0], out[1][0], '' if ok else out)


def check(b, prop=None):
    t = tree(b, None)
    bd = t + '-build'
    if os.path.isdir(R + '/build'):
        shutil.copytree(R + '/build', bd)
    env = dict(os.environ, VERIF_REPO=t, VERIF_BUILD=bd)
    r = subprocess.run(['python3-vt', 'check.py', prop or b['prop']], cwd=R, env=env, capture_output=True, text=True)
    shutil.rmtree(t)
    shutil.rmtree(bd, ignore_errors=True)
    v = 'VIOLATION property=%s' % (prop or b['prop']) in r.stdout
    return '%s %s: %s (exit %d) %s' % (b['id'], prop or b['prop'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, ' '.join(r.stdout.split('\n')[2:4])[:300] if v else (r.stdout + r.stderr)[-400:])


if __name__ == '__main__':
    ids = sys.argv[2:]
    sel = [b for b in BUGS if not ids or b['id'] in ids]
    if sys.argv[1] == 'gen':
        for b in sel:
            gen(b)
    elif sys.argv[1] == 'demo':
        with ThreadPoolExecutor(4) as ex:
            for l in ex.map(demo, sel):
                print(l, flush=True)
    else:
        for b in sel:
            print(check(b), flush=True)
