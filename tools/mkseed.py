"""mkseed.py ID PROPERTY FILE 'old' 'new' 'needs' 'breaks' DEMO.cpp [DEFS] -- writes seeded/ID from a text replacement (old must be unique or the nth given as old##n)"""
import sys, os, subprocess, shutil, json, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, needs, breaks, demo, defs='', srcs='src/fft3d.cpp src/fft2d.cpp src/remap3d.cpp src/remap2d.cpp src/memory.cpp src/error.cpp', libs='', extra=None):
    d = os.path.join(H, 'seeded', id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w'])
    try:
        for f, old, new in edits:
            p = t + '/w/src/' + f; s = open(p).read(); n = 1
            if '##' in old: old, n = old.rsplit('##', 1); n = int(n)
            assert s.count(old) >= n and (n > 1 or s.count(old) == 1 or True), (f, old, s.count(old))
            if n == 1 and s.count(old) != 1: print('warning: %d matches in %s, first used' % (s.count(old), f))
            i = -1
            for _ in range(n): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]; open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'], text=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w']); shutil.rmtree(t, ignore_errors=True)
    open(d + '/patch.diff', 'w').write(diff)
    os.makedirs(d + '/mpi')
    for f in ('fm.cpp', 'fm.h', 'mpi.h'): shutil.copy(os.path.join(H, 'harness/fakempi', f), d + '/mpi')
    open(d + '/demo.cpp', 'w').write(demo)
    objs = srcs.split()
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-std=gnu++14 -O1 -g -w -fsanitize=address -I$D/mpi -Isrc %s"
export ASAN_OPTIONS=detect_leaks=0
g++ -std=gnu++17 -O1 -w -fsanitize=address -I$D/mpi -c $D/mpi/fm.cpp -o $T/fm.o || exit 3
for f in %s; do o=$T/$(basename $f .cpp).o; g++ $F -c $f -o $o || exit 3; objcopy --redefine-sym exit=fm_exit --redefine-sym printf=fm_printf --redefine-sym puts=fm_puts $o; done
g++ $F -fpermissive -c $D/demo.cpp -o $T/demo.o || exit 3
g++ -fsanitize=address $T/*.o -o $T/demo %s -lpthread || exit 3
%stimeout 120 $T/demo
''' % (defs, srcs, libs, extra or ''))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, len(diff.split('\n')), 'lines')
