#!/usr/bin/env python3
"""mkseed.py < JSON   {id, property, needs, breaks, edits: [[file, old, new], ...], demo: C++ source, libs: [..]}
makes /verif/seeded/<id> and confirms it in a scratch copy of /repo: builds, stable tests pass, demo 0 without / nonzero with the change"""
import sys, json, os, subprocess, shutil, re
d = json.load(sys.stdin) if len(sys.argv) < 2 else eval(open(sys.argv[1]).read())
for s in (d if isinstance(d, list) else [d]):
    D = '/verif/seeded/' + s['id']; os.makedirs(D, exist_ok=True)
    W = '/tmp/seedrepo'
    if not os.path.exists(W): subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    subprocess.run('git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e _build', shell=True, cwd=W)
    libs = ' '.join(s.get('libs', []))
    open(D + '/demo.cpp', 'w').write(s['demo'])
    open(D + '/demo.sh', 'w').write('#!/bin/sh\n# run with cwd = repository root\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\nclang++-18 -std=c++17 -fno-rtti -fno-exceptions -w %s -I lib/h "$d/demo.cpp" %s -o "$t/demo" -lpthread || exit 3\ntimeout 120 "$t/demo"\n' % (s.get('flags', '-O1'), libs))
    os.chmod(D + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(D + '/meta.json', 'w'), indent=1)
    def demo(): return subprocess.run(['sh', D + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    a = demo()
    for f, old, new in s['edits']:
        t = open(W + '/' + f, newline='').read()
        crlf = '\r\n' in t
        if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(W + '/' + f, 'w', newline='').write(t.replace(old, new))
    open(D + '/patch.diff', 'wb').write(subprocess.run(['git', 'diff', '--binary'], cwd=W, stdout=subprocess.PIPE).stdout)
    b = demo()
    env = dict(os.environ, CC='/usr/bin/clang-18', CXX='/usr/bin/clang++-18')
    if not os.path.exists(W + '/_build/build.ninja'):
        subprocess.run('cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DREPO=%s >/dev/null' % (W, W), shell=True, env=env)
    bl = subprocess.run('ninja -C %s/_build 2>&1 | tail -5; exit ${PIPESTATUS[0]}' % W, shell=True, executable='/bin/bash', stdout=subprocess.PIPE, text=True)
    t = subprocess.run("ctest --test-dir %s/_build -j4 -E '^clock\\.' --timeout 60 2>&1 | grep -E 'tests passed|\\(Failed|\\*\\*\\*'" % W, shell=True, stdout=subprocess.PIPE, text=True)
    ok = a.returncode == 0 and b.returncode != 0 and b.returncode != 3 and bl.returncode == 0 and '100% tests passed' in t.stdout
    print(s['id'], 'OK' if ok else 'BAD', 'demo', a.returncode, b.returncode, 'build', bl.returncode, t.stdout.strip()[:100])
    if not ok: print(a.stdout[-300:], b.stdout[-300:], bl.stdout[-300:])
    chk = subprocess.run('git apply --check %s/patch.diff' % D, shell=True, cwd='/repo'); 
    if chk.returncode: print('  does not apply')
