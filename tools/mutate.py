#!/usr/bin/env python3
"""Mutation testing of the checks, for development:  mutate.py N SEED OUT ID...  applies N random small changes to the files of each property, in a
scratch copy of /repo, and runs every check that names the file until one reports it.  Survivors that also pass the unit tests go to OUT.
No check uses this."""
import os, random, re, subprocess, sys, json, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from props import PROPS
W = 3
def lines_of(path):
    """(number, text) of the lines of code that mutants are made of"""
    out, comment = [], False
    for i, l in enumerate(open(path, encoding='latin-1').read().split('\n')):
        s = l.strip()
        if comment:
            if '*/' in s: comment = False
            continue
        if s.startswith('/*'):
            if '*/' not in s: comment = True
            continue
        if not s or s.startswith(('//', '#', '*', 'using ', 'namespace', 'typedef', 'template', 'class ', 'struct ', 'public:', 'private:', 'protected:', 'static_assert', 'assert(')) or s in ('{', '}', '};'): continue
        out.append((i, l))
    return out
RULES = [(r' < (?!<)', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > (?!>)', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
         (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+ 1\b', ['']), (r' - 1\b', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+\+', ['--']), (r'--', ['++']), (r' \+= ', [' = ', ' -= ']), (r' -= ', [' = ']), (r' << ', [' >> ']), (r' >> ', [' << ']),
         (r' & ', [' | ']), (r' \| ', [' & ']), (r'(?<![\w."])(\d+)(?![\w."])', ['+1', '-1']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']), (r'!(?=[a-z(])', ['']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
         (r'memory_order_(acquire|release|acq_rel|seq_cst)', ['memory_order_relaxed']), (r'\bnotify_all\b', ['notify_one']), (r'\bwhile \(', ['if (']),
         (r'^(\s*)(?!return|throw|break|continue|else|case|default|var |int |long |char |string |boolean |String |byte |const |unsigned |size_t |auto |typename |std::\w+[ <]|static )([\w>.\[\]*() -]+(\(.*\)| [-+*/&|^]?= .*));$', ['DROP'])]
def mutants(path):
    out = []
    for i, l in lines_of(path):
        code = l.split('//')[0]
        for n, (rx, subs) in enumerate(RULES):
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                for s in subs:
                    if s == 'DROP': t = m.group(1) + ';'
                    elif s in ('+1', '-1'):
                        v = int(m.group(1)) + int(s)
                        if v < 0: continue
                        t = code[:m.start()] + str(v) + code[m.end():]
                    else: t = code[:m.start()] + s + code[m.end():]
                    if t != code: out.append((i, l, t))
    return out
def sh(cmd, t, env=None):
    try: r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, env=env)
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b'').decode('latin-1') if isinstance(e.stdout, bytes) else (e.stdout or '')
    return r.returncode, r.stdout
def worker(w, jobs, out, lock):
    d = '/tmp/mut%d' % w; repo, ver = d + '/repo', d + '/verif'
    if not os.path.exists(repo + '/.git'): sh('rm -rf /tmp/mut%d; mkdir -p %s; git clone -q /repo %s' % (w, d, repo), 600)
    sh('cd %s && git checkout -q . && git pull -q --ff-only' % repo, 60)
    sh('mkdir -p %s/build; rsync -a --exclude .git --exclude build --exclude seeded %s/ %s/ 2>/dev/null || cp -a %s/*.py %s/src %s/tools %s/known_findings.txt %s/' % (ver, V, ver, V, V, V, V, ver), 60)
    for s, t in (('/opt/vp/build.sh', d + '/build.sh'), ('/opt/vp/test.sh', d + '/test.sh')): open(t, 'w').write(re.sub(r'REPO=/repo\b', 'REPO=' + repo, open(s).read()))
    env = dict(os.environ, VERIF_REPO=repo, VERIF_JOBS='4')
    while True:
        try: rel, (i, old, new), checks = jobs.get_nowait()
        except queue.Empty: return
        p = os.path.join(repo, rel); src = open(p, encoding='latin-1', newline='').read(); ls = src.split('\n')
        crlf = ls[i].endswith('\r'); assert ls[i].rstrip('\r') == old.rstrip('\r'), (rel, i)
        ls[i] = new.rstrip('\r') + ('\r' if crlf else ''); open(p, 'w', encoding='latin-1', newline='').write('\n'.join(ls))
        verdict = 'survived'
        for c in checks:
            rc, o = sh('cd %s && timeout -k 5 600 python3 run.py check %s' % (ver, c), 700, env)
            if 'compilation of' in o: verdict = 'does not compile'; break
            if rc == 1 and 'VIOLATION' in o: verdict = 'caught by ' + c; break
            if rc != 0: verdict = 'ENGINE %s rc=%d %s' % (c, rc, o[-300:].replace('\n', ' ')); break
        if verdict == 'survived':
            rc, o = sh('timeout -k 5 900 bash %s/build.sh > %s/b.log 2>&1 && timeout -k 5 300 bash %s/test.sh %s/o.json > %s/t.log 2>&1' % (d, d, d, d, d), 1300)
            try: bad = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(d + '/o.json'))['passed']); verdict = 'killed by tests' if bad else 'SURVIVED'
            except Exception as e: verdict = 'build fails'
            sh('rm -f %s/o.json' % d, 5)
        open(p, 'w', encoding='latin-1', newline='').write(src)
        with lock: open(out, 'a').write('%s\t%s:%d\t%s\t%s\t=>\t%s\n' % (verdict, rel, i + 1, ','.join(checks), old.strip(), new.strip()))
n, seed, out, ids = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
rnd = random.Random(seed); jobs = queue.Queue(); lock = threading.Lock(); chosen = []; done = set()
for pid in ids:
    p = next(p for p in PROPS if p['id'] == pid); ms = []
    for f in p['files']:
        if 'Kernel/' in f or 'Collection.hpp' in f or f.endswith('Map/Map.hpp'): continue
        ms += [(f, m) for m in mutants('/repo/' + f)]
    ms = [m for m in ms if (m[0], m[1][0], m[1][2]) not in done]; rnd.shuffle(ms)
    for f, m in ms[:n]:
        done.add((f, m[0], m[2])); chosen.append((f, m, [pid] + [q['id'] for q in PROPS if f in q['files'] and q['id'] != pid]))
rnd.shuffle(chosen)
for c in chosen: jobs.put(c)
print(len(chosen), 'mutants')
ts = [threading.Thread(target=worker, args=(w, jobs, out, lock)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
