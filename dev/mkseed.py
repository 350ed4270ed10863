#!/usr/bin/env python3
"""mkseed.py SPEC.py: development tool. SPEC defines id, prop, needs, breaks, edits=[(file, old, new)...],
demo (C++ source), flags (extra compiler flags), links. Writes seeded/<id>/."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {'flags': '', 'env': ''}
    exec(open(spec).read(), g)
    d = V + '/seeded/' + g['id']; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='/tmp/mkseed.')
    subprocess.check_call(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        for f, a, b in g['edits']:
            p = w + '/r/' + f; s = open(p).read()
            assert s.count(a) == 1, (g['id'], f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True))
    finally:
        subprocess.call(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    open(d + '/demo.cpp', 'w').write(g['demo'].lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = /repo after the build: exit 0 when the property holds for this input
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
B=/opt/vp/epics-base
g++ -w -g -O1 -std=gnu++17 %s -I"$PWD/include" -I$B/include -I$B/include/os/Linux -I$B/include/compiler/gcc "$here/demo.cpp" -o "$T/demo" -L"$PWD/lib/linux-x86_64" -lpvData -Wl,-rpath,"$PWD/lib/linux-x86_64" -lCom -lpthread || exit 99
%s timeout 120 "$T/demo"
''' % (g['flags'], g['env']))
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(d)
