#!/usr/bin/env python3
"""Helpers for planted bugs: make a patch from (file, old, new) edits, and confirm it (build, stable tests, demo both ways).
  seed.py confirm ID...   applies seeded/ID/patch.diff to /repo, runs build, tests and demo, and reverts."""
import json, os, subprocess, sys
SEED = '/verif/seeded'
CC = 'g++ -O1 -std=c++11 -march=x86-64-v3 -maes -mpclmul -mrdseed -w -pthread -I.'
DEMO = '''#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s %s "$here/demo.cpp" emp-tool/emp-tool.cpp %s -o "$t/demo" -lcrypto || exit 2
cd "$t" && timeout %d ./demo %s
'''


def git(*a, **k):
    return subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True, **k)


def make(sid, prop, edits, cpp, needs, breaks, flags='', extra='', tmo=120, args='', demo=None):
    assert not git('status', '--porcelain', '-uno').stdout.strip(), 'repo not clean'
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p, encoding='utf8').read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w', encoding='utf8').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(git('diff').stdout)
        open(d + '/demo.sh', 'w').write(demo or DEMO % (CC, flags, extra, tmo, args))
        os.chmod(d + '/demo.sh', 0o755)
        if cpp:
            open(d + '/demo.cpp', 'w').write(cpp)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        r1 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    finally:
        git('checkout', '--', '.')
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    ok = r0.returncode == 0 and r1.returncode not in (0, 2)
    print(sid, prop, 'demo clean=%d patched=%d' % (r0.returncode, r1.returncode), 'OK' if ok else 'BAD\n' + r0.stderr[-800:] + r1.stderr[-800:])
    return ok


def confirm(sid):
    assert not git('status', '--porcelain', '-uno').stdout.strip()
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    try:
        r = git('apply', SEED + '/' + sid + '/patch.diff')
        assert r.returncode == 0, r.stderr
        out = '/tmp/seedtest.json'
        subprocess.run(['bash', '/opt/vp/test.sh', out], capture_output=True)
        j = json.load(open(out))
        missing = want - set(j['passed'])
        d = subprocess.run(['bash', SEED + '/' + sid + '/demo.sh'], cwd='/repo', capture_output=True).returncode
        print(sid, 'tests', 'pass' if not missing else 'FAIL %s' % sorted(missing), 'demo', d, flush=True)
    finally:
        git('checkout', '--', '.')


def check(sid):
    """Does the check of the seed's property report it?"""
    p = json.load(open(SEED + '/' + sid + '/meta.json'))['property']
    assert not git('status', '--porcelain', '-uno').stdout.strip()
    try:
        assert git('apply', SEED + '/' + sid + '/patch.diff').returncode == 0
        r = subprocess.run(['python3', 'check.py', p], cwd='/verif', capture_output=True, text=True)
        print(sid, p, 'rc=%d' % r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED ' + (r.stdout + r.stderr)[-300:], flush=True)
    finally:
        git('checkout', '--', '.')


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(SEED))
    for s in ids:
        dict(confirm=confirm, check=check)[sys.argv[1]](s)
