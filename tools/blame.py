#!/usr/bin/env python3
"""Which planted bugs touch only lines that the fix commits added?"""
import glob, re, subprocess
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f, orig, added = None, 0, 0
    for l in open(p):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            bl = [x.split()[0].lstrip('^') for x in subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', 'HEAD', '--', f], text=True).splitlines()]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l.startswith('-') and not l.startswith('---'):
            if base.startswith(bl[n - 1]):
                orig += 1
            else:
                added += 1
            n += 1
        elif f and l.startswith(' '):
            n += 1
    print('%-24s orig %d, ours %d%s' % (p.split('/')[-2], orig, added, '   <-- only our lines' if added and not orig else ''))
