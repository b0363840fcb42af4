#!/usr/bin/env python3-vt
"""replay.py FILE: re-runs the failing native case recorded in a replay file against /repo's current tree"""
import sys, os, tempfile, shutil, subprocess
import run
txt = open(sys.argv[1]).read().split('\n')
pid = txt[0].split()[1]; case = [l.split()[1] for l in txt if l.startswith('REPLAY ')]; hints = [l.split()[1:] for l in txt if l.startswith('HINTS')]
if not case: print('no failing input recorded: the file names the undischarged obligations'); sys.exit(3)
m, _ = run.load_spec(pid); tmp = tempfile.mkdtemp()
try:
    exe, e = run.native_build(pid, tmp, m)
    if not exe: print(e); sys.exit(3)
    hf = tmp + '/h'; open(hf, 'w').write('\n'.join(hints[0] if hints else []) + '\n')
    sys.exit(subprocess.call([exe, 'case', case[0], '30', hf]))
finally: shutil.rmtree(tmp)
