#!/usr/bin/env python3
"""mkseed.py FILE: FILE defines seeds = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo='C body', asan=bool)] and writes seeded/<id>/"""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# builds the demonstration from /repo's sources (cwd) and runs it; nothing outside a scratch directory is written
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w %s -I src "$d/demo.c" src/nk*.c -lm -o "$t/demo" || exit 0
cd "$t" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 200 ./demo
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "nkcommon.h"
#include "nkx.h"
#define BAD(...) do { printf(__VA_ARGS__); printf("\\n"); fflush(stdout); _Exit(1); } while(0)
#define GUARD(vm, code) ({ jmp_buf jb_; jmp_buf *last_ = (vm)->catastrophicFailureJmpBuf; volatile int ok_ = 0; \\
    (vm)->catastrophicFailureJmpBuf = &jb_; if(!setjmp(jb_)) { code; ok_ = 1; } (vm)->catastrophicFailureJmpBuf = last_; ok_; })
'''
for s in ns['seeds']:
    if only and s['id'] not in only: continue
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        for f, old, new in s['edits']:
            p = os.path.join(w, 'r', f); t = open(p, newline='').read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r']); shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write(DEMO % ('-fsanitize=address' if s.get('asan') else ''))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.c', 'w').write(PRE + s['demo'])
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
