#!/usr/bin/env python3
"""Development aid: makes and verifies planted bugs (seeded/ID). Runs on /repo and puts it back.

seed.py make FILE...   FILE: python with ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C text)
seed.py verify [ID...] applies each to /repo, rebuilds, runs the tests and the demo with and without
seed.py check [ID...]  runs the property's check against a scratch copy with the bug
"""
import os, sys, subprocess, json, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = H + '/seeded'
DEMO = r'''#!/bin/bash
# Builds demo.c with the library's sources, and runs it in a scratch directory: 0 if all is as it should be.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
defs="-D_GNU_SOURCE -include stdlib.h -include malloc.h -include stdbool.h -DC_API=extern"
for p in RAII ZE; do
    defs="$defs -D${p}_MALLOC=malloc -D${p}_FREE=free -D${p}_REALLOC=realloc -D${p}_CALLOC=calloc -D${p}_MEMALIGN=memalign"
done
# of the allocator that is not part of this build
cat > "$work/stubs.c" <<'C'
int rpmalloc_initialize(void) { return 0; }
int rpmalloc_init(void) { return 0; }
void rpmalloc_thread_initialize(void) { }
void rpmalloc_thread_finalize(int release) { }
void rpmalloc_finalize(void) { }
C
gcc -std=gnu90 -O2 -w -g -rdynamic $defs "-DFORCEINLINE=inline __attribute__((always_inline))" \
    -I"$repo/include" "$here/demo.c" "$work/stubs.c" "$repo"/src/*.c -o "$work/demo" -lpthread -lm || exit 4
cd "$work" || exit 5
timeout 120 ./demo > out.txt 2>&1
r=$?
tail -n 15 out.txt
exit $r
'''
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def idle():
    """/repo is changed in place: never while a vcheck looks at it"""
    if sh('pgrep', '-f', '/opt/vcheck|/opt/vgate').stdout.strip():
        raise SystemExit('a vcheck is running')
def clean(): sh('git', '-C', '/repo', 'checkout', '--', '.')
def original(path):
    b = sh('git', '-C', '/repo', 'blame', '-s', path).stdout.splitlines()
    return [l.startswith('^2059100') for l in b]
def make(f):
    g = {}
    exec(open(f).read(), g)
    if 'BUGS' in g:
        return [make1(b) for b in g['BUGS']]
    return [make1(g)]
def make1(g):
    idle()
    d = S + '/' + g['ID']
    os.makedirs(d, exist_ok=True)
    try:
        for path, old, new in g['EDITS']:
            p = '/repo/' + path
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %s: found %d times: %s' % (g['ID'], path, s.count(old), old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', '/repo', 'diff').stdout
    finally:
        clean()
    # every removed line has to be one of the original repository
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur = l[6:]; orig = original(cur)
        elif l.startswith('@@'): n = int(l.split()[1].split(',')[0][1:]) - 1
        elif l.startswith('-') and not l.startswith('---'):
            if not orig[n]: print('%s: %s:%d is not an original line: %s' % (g['ID'], cur, n + 1, l))
            n += 1
        elif l.startswith(' '): n += 1
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.c', 'w').write(g['DEMO'])
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    return g['ID']
def demo(i, n=1):
    rs = []
    for _ in range(n):
        r = sh('bash', S + '/' + i + '/demo.sh', cwd='/repo')
        rs.append(r.returncode)
    return rs, r.stdout
def verify(ids):
    idle()
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable.get('stable') or stable.get('passed')
    clean()
    sh('bash', '/opt/vp/build.sh')
    good = []
    for i in ids:
        ok = True
        rs, out = demo(i, 3)
        if any(rs): print(i, 'demo fails on the unchanged tree', rs, out[-1500:]); ok = False
        r = sh('git', '-C', '/repo', 'apply', S + '/' + i + '/patch.diff')
        if r.returncode: print(i, 'does not apply', r.stdout); clean(); continue
        try:
            r = sh('bash', '/opt/vp/build.sh')
            if r.returncode: print(i, 'does not build', r.stdout[-1500:]); ok = False
            else:
                sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
                p = set(json.load(open('/tmp/seedtest.json'))['passed'])
                m = [t for t in stable if t not in p]
                if m: print(i, 'is seen by the tests', m[:4]); ok = False
                rs, out = demo(i, 3)
                if not all(rs): print(i, 'demo passes with the change', rs, out[-1500:]); ok = False
        finally:
            clean()
        print(i, 'ok' if ok else 'NOT OK', rs, out.strip().splitlines()[-1:] )
        if ok: good.append(i)
    sh('bash', '/opt/vp/build.sh')
    return good
def check(ids, props=None):
    for i in ids:
        w = tempfile.mkdtemp(prefix='seed.')
        sh('cp', '-a', '/repo', w + '/repo')
        sh('git', '-C', w + '/repo', 'apply', S + '/' + i + '/patch.diff')
        for p in props or [json.load(open(S + '/' + i + '/meta.json'))['property']]:
            r = sh('python3', H + '/check.py', p, env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_OUT=w + '/out'))
            print(i, p, 'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'STATUS %d' % r.returncode,
                  r.stdout.strip().splitlines()[-2:] , flush=True)
        shutil.rmtree(w)
if __name__ == '__main__':
    c, a = sys.argv[1], sys.argv[2:]
    if c == 'make':
        ids = sum([make(f) for f in a], [])
        print(verify(ids))
    else:
        ids = a or sorted(os.listdir(S))
        verify(ids) if c == 'verify' else check(ids)
