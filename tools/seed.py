#!/usr/bin/env python3
"""Plants one bug in a scratch copy of /repo, confirms it (applies, builds, passes the stable tests, the demo is
green without it and red with it) and stores it under /verif/seeded/<id>/.

  seed.py SPEC.py...     SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source)
  seed.py --check [ID..] runs the property's check against stored bugs (in /repo, undone afterwards)
"""
import json, os, re, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedrepo'
SH = '''#!/bin/bash
# Run in the repository after the build: 0 when the property holds here, nonzero when it is broken.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -w -g1 -O0 -D_GNU_SOURCE %s -I"$PWD" "$D/demo.cpp" _build/libnative_static.a -o "$T/demo" -pthread -lrt -ldl || exit 2
cd "$T" && TZ=UTC LC_ALL=C.UTF-8 timeout 120 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def scratch():
    if not os.path.exists(SCR + '/.git'):
        sh(['git', 'clone', '-q', '/repo', SCR])
    sh(['git', '-C', SCR, 'fetch', '-q', 'origin'])
    sh(['git', '-C', SCR, 'checkout', '-qf', sh(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout.decode().strip()])
    sh(['git', '-C', SCR, 'checkout', '-qf', '--', '.'])
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('REPO=/repo', 'REPO=' + SCR)
        open('/tmp/seed_' + n, 'w').write(t)


def build_test():
    r = sh(['bash', '/tmp/seed_build.sh'])
    if r.returncode: return 'build failed: ' + r.stdout.decode(errors='replace')[-2000:]
    sh(['bash', '/tmp/seed_test.sh', '/tmp/seed_out.json'])
    got = json.load(open('/tmp/seed_out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    def passed(d):
        for k in ('passed', 'pass', 'stable'):
            if k in d: return set(d[k])
        return {t for t, v in d.items() if v in ('passed', 'pass', 'ok', True)}
    miss = passed(base) - passed(got)
    return 'tests fail: %s' % sorted(miss)[:5] if miss else None


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, 'seeded', ns['id']); scratch()
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(ns['demo']); open(d + '/demo.sh', 'w').write(SH % ns.get('flags', ''))
    e = build_test()
    if e: return 'unpatched: ' + e
    r = sh(['bash', d + '/demo.sh'], cwd=SCR)
    if r.returncode: return 'demo is red on the unchanged tree (%d): %s' % (r.returncode, r.stdout.decode(errors='replace')[-1500:])
    for ed in ns['edits']:
        f, old, new = ed[:3]
        p = os.path.join(SCR, f); b = open(p, newline='', encoding='latin-1').read()
        if '\r\n' in b and old not in b:
            old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        parts = b.split(old)
        if len(ed) == 4:        # the occurrence to change
            k = ed[3] + 1
            if len(parts) <= k: return 'edit of %s: only %d matches' % (f, len(parts) - 1)
            b = old.join(parts[:k]) + new + old.join(parts[k:])
        else:
            if len(parts) != 2: return 'edit of %s matches %d times: %s' % (f, len(parts) - 1, old)
            b = new.join(parts)
        open(p, 'w', newline='', encoding='latin-1').write(b)
    diff = sh(['git', '-C', SCR, 'diff']).stdout
    e = build_test()
    if not e:
        r = sh(['bash', d + '/demo.sh'], cwd=SCR)
        if r.returncode == 0: e = 'demo stays green'
        elif r.returncode == 2: e = 'demo does not compile ' + r.stdout.decode(errors='replace')[-1500:]
        else: print('   demo with the bug: %d %s' % (r.returncode, r.stdout.decode(errors='replace').strip()[-200:]))
    sh(['git', '-C', SCR, 'checkout', '-qf', '--', '.'])
    if e: return e
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return None


def check(ids):
    for i in ids or sorted(os.listdir(V + '/seeded')):
        d = os.path.join(V, 'seeded', i); prop = json.load(open(d + '/meta.json'))['property']
        r = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        if r.returncode: print(i, prop, 'PATCH DOES NOT APPLY'); continue
        try:
            r = sh([sys.executable, 'run.py', 'check', prop], cwd=V)
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        t = r.stdout.decode(errors='replace')
        b = re.search(r'is broken: (.*)', t)
        print('%-28s %s %s %s' % (i, prop, 'caught' if r.returncode == 1 and 'VIOLATION property=' + prop in t else 'MISSED rc=%d' % r.returncode, b.group(1)[:150] if b else t[-200:]), flush=True)


if sys.argv[1:2] == ['--check']:
    check(sys.argv[2:])
else:
    for s in sys.argv[1:]:
        e = plant(s)
        print(s, 'PLANTED' if not e else 'NOT PLANTED: ' + e, flush=True)
