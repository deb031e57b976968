#!/usr/bin/env python3
"""Builds foodtiny/native from /repo's working tree together with one harness, runs the harness, writes
evidence/<id>.json and reports.

  run.py check <ID> [--tier quick|thorough]      exit 0 held, 1 violation, 3 error of the check
  run.py replay <ID> <replay file>               re-executes one reported counterexample, verbosely
  run.py build <ID>                              builds only
  run.py setup                                   checks the tool chain, builds every harness once
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(VERIF, 'src')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
sys.path.insert(0, VERIF)
from checks import CHECKS

BASE = ['-g1', '-O1', '-w', '-D_GNU_SOURCE', '-fno-delete-null-pointer-checks', '-fwrapv', '-fno-strict-aliasing',
        '-ftrivial-auto-var-init=pattern', '-Wno-multichar', '-I' + REPO]
FLAVOURS = {
    # sequential exploration: AddressSanitizer turns memory errors of the code under test into crashes
    'asan': dict(cxx=['g++'], cc=['gcc'], flags=BASE + ['-fsanitize=address', '-fno-omit-frame-pointer'], link=['-fsanitize=address']),
    # controlled scheduler: every memory access is announced to our own __tsan_* run time (src/mcsched.cpp)
    'sched': dict(cxx=['g++'], cc=['gcc'], flags=BASE + ['-U_FORTIFY_SOURCE', '-fsanitize=thread', '-fno-omit-frame-pointer', '-fno-pie', '-DNATIVE_MODEL_CHECKING', '-include', os.path.join(SRC, 'mcsched_flags.h')],
                  link=['-no-pie', '-Wl,' + ','.join('--wrap=' + x for x in ('memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'strcpy', 'strcat', 'strcmp'))]),
}


def lib_sources(patterns=None):
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'library')):
        for f in sorted(files):
            if not (f.endswith('.cpp') or f.endswith('.c')):
                continue
            if f.endswith('Test.cpp') or f.endswith('Benchmark.cpp'):
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            if rel == 'library/main.cpp' or rel.endswith('/main.cpp'):
                continue
            if patterns and not any(re.search(x, rel) for x in patterns):
                continue
            out.append(p)
    return sorted(out)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(job):
    src, obj, cmd = job
    r = run(cmd)
    return src, r.returncode, r.stdout


def build(cid, chk, force=False):
    fl = FLAVOURS[chk.get('flavour', 'asan')]
    objdir = os.path.join(BUILD, 'obj-' + chk.get('flavour', 'asan'))
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    jobs, objs = [], []
    # Objects are reused only when the flags and *all* sources and headers of the library are unchanged.
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'library'))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.c', '.hpp', '.h')) and not f.endswith(('Test.cpp', 'Benchmark.cpp')):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ('library.hpp',):
        h.update(open(os.path.join(REPO, f), 'rb').read())
    h.update(json.dumps([fl['cxx'], fl['flags']]).encode())
    stamp = h.hexdigest()
    stampfile = os.path.join(objdir, 'STAMP')
    fresh = os.path.exists(stampfile) and open(stampfile).read() == stamp
    if not fresh:
        for f in glob.glob(os.path.join(objdir, '*.o')):
            os.unlink(f)
        if os.path.exists(stampfile):
            os.unlink(stampfile)
    srcs = lib_sources()
    have_all = True
    for s in srcs:
        rel = os.path.relpath(s, REPO)
        obj = os.path.join(objdir, rel.replace('/', '__') + '.o')
        wanted = chk.get('sources')
        if wanted and not any(re.search(x, rel) for x in wanted):
            have_all = have_all and os.path.exists(obj)
            continue
        objs.append(obj)
        if fresh and os.path.exists(obj):
            continue
        if s.endswith('.c'):
            cmd = fl['cc'] + ['-std=gnu99'] + fl['flags'] + ['-c', s, '-o', obj]
        else:
            cmd = fl['cxx'] + ['-std=gnu++11'] + fl['flags'] + chk.get('libflags', []) + ['-c', s, '-o', obj]
        jobs.append((s, obj, cmd))
    binobjs = []
    for s in chk['src']:
        p = os.path.join(SRC, s)
        obj = os.path.join(BUILD, 'bin', cid + '__' + s.replace('/', '__') + '.o')
        binobjs.append(obj)
        hf = fl['flags'] if not s.startswith('mcsched') else BASE + ['-U_FORTIFY_SOURCE', '-fno-pie', '-O2']
        jobs.insert(0, (p, obj, fl['cxx'] + ['-std=gnu++14'] + hf + chk.get('flags', []) + ['-I' + SRC, '-c', p, '-o', obj]))
    bad = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for src, rc, text in ex.map(compile_one, jobs):
            if rc != 0:
                bad.append((src, text))
    if bad:
        for s, t in bad:
            print('ENGINE: compilation of %s failed:\n%s' % (s, t[:3000]))
        return None
    open(stampfile, 'w').write(stamp)
    # The library's objects go through an archive, so that only what the harness needs is linked.
    lib = os.path.join(BUILD, 'bin', cid + '.a')
    if os.path.exists(lib):
        os.unlink(lib)
    r = run(['ar', 'rcsT', lib] + objs)
    exe = os.path.join(BUILD, 'bin', cid)
    r = run(fl['cxx'] + binobjs + [lib, '-o', exe] + fl['link'] + ['-pthread', '-lrt', '-ldl'] + chk.get('link', []))
    if r.returncode != 0:
        print('ENGINE: link failed:\n' + r.stdout[:4000])
        return None
    return exe


def locate(exe, texts):
    """Replaces the addresses @0x... in messages of the scheduler by function and line."""
    found = sorted(set(a for t in texts for a in re.findall(r'@(0x[0-9a-f]+)', t)))
    if not found:
        return texts
    r = run(['addr2line', '-Cfpe', exe] + ['0x%x' % (int(a, 16) - 1) for a in found])
    names = {}
    for a, l in zip(found, r.stdout.splitlines()):
        m = re.match(r'(.*) at (.*)', l)
        names[a] = 'at %s:%s' % (m.group(1)[:80], m.group(2).replace(REPO + '/', '').replace(VERIF + '/', '').split('/../')[-1]) if m and '??' not in m.group(2) else 'at ' + a
    return [re.sub(r'@(0x[0-9a-f]+)', lambda m: names.get(m.group(1), m.group(0)), t) for t in texts]


def environment():
    e = dict(os.environ)
    e.update(LC_ALL='C.UTF-8', TZ='UTC')
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:'
                         'quarantine_size_mb=8:max_malloc_fill_size=4096:malloc_fill_byte=165:free_fill_byte=90:max_free_fill_size=4096:'
                         'strict_string_checks=0:handle_abort=1:alloc_dealloc_mismatch=0:detect_odr_violation=0:max_allocation_size_mb=4096')
    return e


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def check(cid, tier):
    chk = CHECKS[cid]
    t0 = time.time()
    exe = build(cid, chk)
    if exe is None:
        return 3
    built = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='verif_')
    try:
        outjs = os.path.join(tmp, 'out.json')
        budget = chk.get('budget', {}).get(tier, 600 if tier == 'quick' else 3000)
        cmd = [exe, '--tier', tier, '--workers', str(JOBS), '--out', outjs, '--tmp', tmp, '--budget', str(budget)] + chk.get('args', [])
        r = subprocess.run(cmd, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=tmp)
        sys.stdout.write(r.stdout); sys.stdout.write(r.stderr)
        if not os.path.exists(outjs):
            print('ENGINE: the harness ended with status %s and no report' % r.returncode)
            # Does a program with this code get as far as main()?  (Objects with static storage are made before.)
            starts = [subprocess.run([exe, '--list'], env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=tmp) for _ in range(2)]
            if any(x.returncode == 0 for x in starts):
                return 3
            v0 = dict(scenario='start', depth=0, what='a program that uses this code ends before main() is reached: %s' % starts[0].stdout[-600:].replace('\n', ' '), path='', log=starts[0].stdout.split('\n')[:30])
            json.dump(dict(states=1, transitions=1, executions=1, samples=['start of the program'], complete=False, scenarios=[], violation=v0), open(outjs, 'w'))
            r.returncode = 1
        rep = json.load(open(outjs), strict=False)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode not in (0, 1):
        print('ENGINE: the harness ended with status %s' % r.returncode)
        return 3
    v = rep.get('violation')
    if v and chk.get('flavour') == 'sched':
        v['what'], *v['log'] = locate(exe, [v['what']] + v['log'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    listed = known_findings()
    seen = []
    for k in rep.get('known', []):
        if (cid, k) in listed:
            seen.append(k)
        elif v is None:
            # The harness tolerates only what the committed file lists.
            v = dict(scenario='-', depth=0, what='the harness met the deviation "%s", which known_findings.txt does not list' % k, path='', log=[])
    cov = dict(states=rep['states'], transitions=rep['transitions'], traces_validated_against_impl=rep['executions'],
               samples=rep['samples'][:6] or ['(no execution completed)'], exhaustive=bool(rep['complete']) and v is None,
               outcomes=rep.get('outcomes', 0), leak_checked=rep.get('leak_checked', 0), scenarios=rep['scenarios'],
               build_wall_s=round(built, 2), rule=chk.get('rule', ''))
    for k in ('extra',):
        if k in rep:
            cov[k] = rep[k]
    ev = dict(property=cid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=chk['level'], coverage=cov,
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if v else 0)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w'), indent=1)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (cid, listed[(cid, k)]))
    print('%s: %d executions, %d transitions, %d states, %d scenarios, build %.1fs, total %.1fs' % (
        cid, rep['executions'], rep['transitions'], rep['states'], len(rep['scenarios']), built, time.time() - t0))
    if v:
        os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
        path = os.path.join(BUILD, 'replay', cid + '.txt')
        with open(path, 'w') as f:
            f.write('property: %s\nscenario: %s\ndepth: %d\ntier: %s\nwhat: %s\npath: %s\n' % (
                cid, v['scenario'], v['depth'], tier, v['what'].replace('\n', ' '), v['path']))
            if v.get('mode'):
                f.write('mode: %s\n' % v['mode'])
            f.write('# history:\n')
            for l in v['log']:
                f.write('#   ' + l.replace('\n', '\n#   ') + '\n')
        print('property %s is broken: %s' % (cid, v['what']))
        for l in v['log'][:60]:
            print('   ' + l[:1500])
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    return 0


def replay(cid, path):
    exe = build(cid, CHECKS[cid])
    if exe is None:
        return 3
    tmp = tempfile.mkdtemp(prefix='verif_')
    try:
        return subprocess.run([exe, '--replay', os.path.abspath(path), '--tmp', tmp] + CHECKS[cid].get('args', []), env=environment(), cwd=tmp).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(a):
    if len(a) >= 2 and a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return check(a[1], tier)
    if len(a) == 3 and a[0] == 'replay':
        return replay(a[1], a[2])
    if len(a) == 2 and a[0] == 'build':
        return 0 if build(a[1], CHECKS[a[1]]) else 3
    if a and a[0] == 'setup':
        for t in ('g++', 'gcc', 'ar'):
            if not shutil.which(t):
                print('missing tool ' + t); return 3
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
