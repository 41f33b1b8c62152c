#!/usr/bin/env python3
"""For each planted bug: how many of the lines its patch removes are the original repository's (at least one is needed)."""
import re, subprocess, os, sys
base = 'd5d7be4'
for d in sorted(os.listdir('/verif/seeded')):
    f, old, orig, n = '', 0, 0, 0
    adj = 0
    blame = {}
    for l in open(f'/verif/seeded/{d}/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f'{base}..HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()
            blame[f] = [x.startswith('^') for x in b]
        elif l.startswith('@@'):
            old = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            orig += blame[f][old - 1]
            old += 1
        elif l.startswith(' '):
            old += 1
    print(d, f'removes {n} lines, {orig} original')
