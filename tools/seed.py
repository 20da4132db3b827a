#!/usr/bin/env python3
"""Development aid: make and verify planted bugs in a scratch copy of /repo.
  seed.py new ID PROP     store the scratch copy's diff as seeded/ID (demo.c or demo.sh must exist there)
  seed.py check ID [--nocheck]   verify seeded/ID in a scratch copy and run the property's check on it
  seed.py copy            (re)create the scratch copy /tmp/seedwork/repo
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
R = W + '/repo'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
gcc -std=gnu99 -w -DDEBUG_libfirm -Iinclude -Iinclude/libfirm -Iinclude/libfirm/adt -Ibuild/gen/include/libfirm -Ibuild/gen/include \\
  $(for i in ir/*/ build/gen/ir/*/; do echo -I$i; done) -o "$t/demo" "$d/demo.c" build/debug/libfirm.a -lm || exit 2
(cd "$t" && timeout 100 ./demo); rc=$?
rm -f "$t/demo"; rmdir "$t" 2>/dev/null
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


MK = "make CC=gcc variant=debug --eval=.DELETE_ON_ERROR: "


def copy():
    os.makedirs(W, exist_ok=True)
    sh('rsync -a --delete /repo/ %s/' % R) if shutil.which('rsync') else sh('rm -rf /tmp/seedwork/repo; cp -a /repo /tmp/seedwork/repo')
    sh('git checkout -- .', cwd=R)


def build():
    env = dict(os.environ, LC_ALL='C', PYTHONDONTWRITEBYTECODE='1')
    r = sh('python3 - <<E\nE\n' + MK + '-j1 gen && ' + MK + "CFLAGS_debug='-O0 -g0 -w' QUICKCHECK=true -j8 firm", cwd=R, env=env)
    return r.returncode == 0, r.stdout[-2000:]


def tests():
    bad = []
    stable = json.load(open('/opt/vp/BASELINE.json'))
    ids = json.dumps(stable)
    for t in sorted(os.listdir(R + '/unittests')):
        if not t.endswith('.c'):
            continue
        n = t[:-2]
        if 'unittests/' + n not in ids:
            continue
        sh('rm -f build/debug/%s.exe' % n, cwd=R)
        sh(MK + 'QUICKCHECK=true build/debug/%s.exe' % n, cwd=R)
        r = sh('timeout 120 build/debug/%s.exe' % n, cwd=R)
        if r.returncode != 0:
            bad.append(n)
    return bad


def new(i, prop):
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    r = sh('git diff', cwd=R)
    assert r.stdout.strip(), 'no change'
    open(d + '/patch.diff', 'w').write(r.stdout)
    if os.path.exists(d + '/demo.c') and not os.path.exists(d + '/demo.sh'):
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
    sh('git checkout -- .', cwd=R)


def check(i, docheck=True):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    copy()
    ok, o = build()
    assert ok, o
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    r = sh('git apply %s/patch.diff' % d, cwd=R)
    assert r.returncode == 0, 'patch does not apply ' + r.stdout
    ok, o = build()
    if not ok:
        print(i, 'DOES NOT BUILD', o)
        return
    bad = tests()
    r1 = sh('bash %s/demo.sh' % d, cwd=R)
    print('%s: demo clean=%d patched=%d failing tests=%s' % (i, r0.returncode, r1.returncode, bad))
    if r0.returncode != 0:
        print(r0.stdout[-1500:])
    if r1.returncode == 0:
        print(r1.stdout[-1500:])
    if docheck:
        man = json.load(open(V + '/MANIFEST.json'))
        cmd = [c['quick_cmd'] for c in man['checks'] if c['property'] == meta['property']]
        if cmd:
            r = sh(cmd[0], cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'))
            lines = [l for l in r.stdout.splitlines() if 'violation' in l.lower() or 'ERROR' in l]
            print('%s: check %s rc=%d %s' % (i, meta['property'], r.returncode, '\n   '.join([l[:300] for l in lines[:3]])))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'new':
        new(a[2], a[3])
    elif a[1] == 'check':
        for i in [x for x in a[2:] if x[0] != '-']:
            check(i, '--nocheck' not in a)
    elif a[1] == 'copy':
        copy()
