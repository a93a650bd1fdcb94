#!/usr/bin/env python3
"""Decide one property: build its monitoring harnesses from /repo's current tree, run them, judge what they observed.

usage: check.py <property> [--tier quick|thorough]      (VERIF_SEED, VERIF_TIER from the environment)
       check.py --list
exit 0: held on everything explored (known findings are printed); 1: VIOLATION line(s); 2: no verdict.
"""
import array, concurrent.futures as cf, fnmatch, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
sys.path.insert(0, VERIF)
from properties_table import PROPS  # noqa: E402

CXX = 'g++-14'
COMMON = ['-std=c++23', '-Wno-deprecated-declarations', '-Wno-interference-size']
FLAVORS = {
    # address + undefined behaviour sanitizers, assertions on
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    # the same in a release configuration (assertions off)
    'rel': ['-O1', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
    # no sanitizer, assertions on / off
    'plain': ['-O1', '-g1'],
    'fast': ['-O2', '-g1', '-DNDEBUG'],
    # run under valgrind memcheck: uses of uninitialised values
    'mem': ['-O1', '-g1'],
    # -fsanitize=thread instrumentation linked against the controlled scheduler instead of libtsan
    'sched': ['-O1', '-g1', '-fsanitize=thread'],
}
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=66:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190:max_free_fill_size=4096:free_fill_byte=221',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0',
    'LSAN_OPTIONS': 'exitcode=66',
}


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tree_hash():
    h = hashlib.sha256()
    for root in (INC, HARNESS):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


TREE = None


def run_cmd(cmd, timeout, env=None, cwd=None):
    """-> (rc, stdout, stderr, timed_out); on timeout SIGABRT first so that the harness names its current case"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.kill(p.pid, signal.SIGABRT)
            o, e = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'), to


KEYGUARD, KEYLOCKS = threading.Lock(), {}


def compile_unit(u, workdir):
    """-> (binary or None, error text)"""
    flavor = u['flavor']
    srcs = [os.path.join(HARNESS, s) for s in u['src']]
    if u.get('gen'):
        gen = os.path.join(workdir, 'gen-%s.cpp' % u['name'])
        r = subprocess.run([sys.executable, os.path.join(HARNESS, u['gen'])] + [str(a) for a in u['gen_args']] + [gen], capture_output=True, text=True)
        if r.returncode:
            return None, 'GENERATOR ' + r.stderr[-2000:]
        srcs.append(gen)
    flags = COMMON + FLAVORS[flavor] + [f.replace('HARNESS', HARNESS) for f in u.get('flags', [])]
    content = b''.join(open(s, 'rb').read() for s in srcs)
    key = sh_hash(TREE, flavor, u.get('libs', []), flags, srcs if not u.get('gen') else '', content, CXX)
    out = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    with KEYGUARD:
        lock = KEYLOCKS.setdefault(key, threading.Lock())
    with lock:   # units sharing a binary (same sources, flags, flavour) build it once
        if os.path.exists(out):
            return out, ''
        return build_binary(u, flavor, srcs, flags, out)


def build_binary(u, flavor, srcs, flags, out):
    objs, err = [], ''
    for i, s in enumerate(srcs):
        obj = '%s.%d.%d.o' % (out, os.getpid(), i)
        r = subprocess.run([CXX] + flags + ['-I', INC, '-I', HARNESS, '-c', s, '-o', obj], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        objs.append(obj)
    if flavor == 'sched':
        obj = '%s.%d.rt.o' % (out, os.getpid())
        r = subprocess.run([CXX, '-std=c++23', '-O2', '-g1', '-I', HARNESS, '-c', os.path.join(HARNESS, 'sched_rt.cpp'), '-o', obj], capture_output=True, text=True)
        if r.returncode:
            return None, 'RUNTIME ' + r.stderr
        objs.append(obj)
    link = [f for f in FLAVORS[flavor] if f.startswith('-fsanitize') or f == '-g1'] if flavor != 'sched' else []
    tmp = '%s.%d.bin' % (out, os.getpid())
    r = subprocess.run([CXX] + link + objs + ['-o', tmp, '-lpthread', '-ldl'] + u.get('libs', []), capture_output=True, text=True)
    for o in objs:
        os.unlink(o)
    if r.returncode:
        return None, r.stderr
    os.rename(tmp, out)
    return out, ''


SAN_RES = [
    (re.compile(r'ERROR: (Address|Leak)Sanitizer: ([\w-]+)'), lambda m: 'asan-' + m.group(2) if m.group(1) == 'Address' else 'leak'),
    (re.compile(r'ERROR: LeakSanitizer: detected memory leaks'), lambda m: 'leak'),
    (re.compile(r'WARNING: ThreadSanitizer: ([\w -]+)'), lambda m: 'tsan-' + m.group(1).strip().replace(' ', '-')),
    (re.compile(r'runtime error: ([^\n]{0,60})'), lambda m: 'ubsan-' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1)).strip().replace(' ', '-')[:50]),
    (re.compile(r"terminate called"), lambda m: 'terminate'),
    (re.compile(r"Assertion `([^\n']*)'? failed"), lambda m: 'assert-' + re.sub(r'\W+', '-', m.group(1))[:50]),
]


def classify_death(rc, out, err):
    for rx, f in SAN_RES:
        m = rx.search(err)
        if m:
            return f(m)
    if rc < 0:
        return 'signal-%d' % -rc
    return None


def main():
    global TREE
    args = sys.argv[1:]
    if args and args[0] == '--list':
        print('\n'.join(sorted(PROPS)))
        return 0
    if args and args[0] == '--setup':  # nothing to build ahead of time (checks build from the current tree); verify the toolchain
        os.makedirs(BUILD, exist_ok=True)
        src = os.path.join(BUILD, 'setup-%d.cpp' % os.getpid())
        open(src, 'w').write('#include <format>\n#include <cstdio>\nint main(){std::puts(std::format("{}", 1).c_str());}\n')
        for fl in ('asan', 'tsan', 'rel', 'fast'):
            r = subprocess.run([CXX] + COMMON + FLAVORS[fl] + [src, '-o', src + '.bin'], capture_output=True, text=True)
            if r.returncode or subprocess.run([src + '.bin'], capture_output=True).returncode:
                print('toolchain problem with flavor %s: %s' % (fl, r.stderr), file=sys.stderr)
                return 2
        os.unlink(src)
        os.unlink(src + '.bin')
        return 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only_unit = args[args.index('--unit') + 1] if '--unit' in args else None
    P = PROPS[pid]
    t0 = time.time()
    TREE = tree_hash()
    workdir = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid()))
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    viol, notes, errors = [], [], []   # viol: (key, text, replay info)
    units = []
    for u in P['units']:
        if u.get('tier', tier) != tier or (only_unit and u['name'] != only_unit):
            continue
        u = dict(u)
        if u.get('gen'):
            u['gen_args'] = [seed, tier] + u.get('gen_args', [])
        units.append(u)
    if not units:
        print('no units', file=sys.stderr)
        return 2
    try:
        return decide(P, pid, tier, seed, units, workdir, evdir, viol, notes, errors, t0)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
        prune_build()


def prune_build():
    try:
        es = [(os.path.getmtime(os.path.join(BUILD, f)), os.path.join(BUILD, f)) for f in os.listdir(BUILD)]
        es = [e for e in es if os.path.isfile(e[1])]
        es.sort()
        total = sum(os.path.getsize(p) for _, p in es)
        while es and total > 3 << 30:
            _, p = es.pop(0)
            total -= os.path.getsize(p)
            os.unlink(p)
    except OSError:
        pass


def decide(P, pid, tier, seed, units, workdir, evdir, viol, notes, errors, t0):
    # ---- build
    with cf.ThreadPoolExecutor(JOBS) as ex:
        built = list(ex.map(lambda u: compile_unit(u, workdir), units))
    runs = []
    for u, (binary, err) in zip(units, built):
        if binary is None:
            if err.startswith('GENERATOR') or err.startswith('RUNTIME'):
                errors.append('harness %s: %s' % (u['name'], err[:1500]))
                continue
            # Does the toolchain work at all?  If so, user code written against the public interface no longer compiles.
            ctl = os.path.join(workdir, 'ctl.cpp')
            open(ctl, 'w').write('#include <string>\n#include <vector>\n#include <format>\nint main(){std::vector<std::string> v(3);return v.size()==3?0:1;}\n')
            r = subprocess.run([CXX] + COMMON + FLAVORS[u['flavor'] if u['flavor'] != 'sched' else 'plain'] + [ctl, '-o', ctl + '.bin'], capture_output=True, text=True)
            lines = [l for l in err.splitlines() if 'error:' in l]
            if r.returncode == 0 and lines:
                viol.append(('%s:compile' % u['name'], 'client code that used the public interface no longer compiles: ' + ' | '.join(lines[:3])[:900], 'compile ' + ' '.join(u['src'])))
            else:
                errors.append('compiler failure in %s: %s' % (u['name'], err[-1500:]))
            continue
        scale = u.get('scale', {}).get(tier, 100)
        for sh in range(u.get('shards', 8)):
            runs.append((u, binary, sh, scale))
    # ---- run
    timeout = P.get('timeout', {'quick': 240, 'thorough': 3000}[tier])
    cov = dict(evaluations=0, counters={}, suites={}, samples=[])
    allhash = set()
    lock = threading.Lock()
    slots = threading.Semaphore(JOBS)

    def one(job):
        u, binary, sh, scale = job
        weight = u.get('weight', 1)
        hf = os.path.join(workdir, 'h-%s-%d' % (u['name'], sh))
        tmp = os.path.join(workdir, 't-%s-%d' % (u['name'], sh))
        os.makedirs(tmp, exist_ok=True)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(u.get('env', {}))
        env['VT_TMP'] = tmp
        env['VERIF_TIER'] = tier
        cmd = [binary, '--seed', str(seed), '--scale', str(scale), '--shard', str(sh), '--shards', str(u.get('shards', 8)), '--hashes', hf]
        if u['flavor'] == 'mem':
            cmd = ['valgrind', '-q', '--leak-check=no', '--num-callers=12'] + cmd
        for _ in range(weight):
            slots.acquire()
        try:
            rc, o, e, to = run_cmd(cmd, timeout, env)
            if to:
                first = re.findall(r'@CRASH suite=(\S+) case=(-?\d+)', o)[:1]
                rc, o, e, to2 = run_cmd(cmd, timeout, env)
                second = re.findall(r'@CRASH suite=(\S+) case=(-?\d+)', o)[:1]
                if to2:
                    with lock:
                        if first and first == second and u.get('hang_is_violation', True):
                            viol.append(('%s:%s:hang' % (u['name'], first[0][0]), 'no progress in %d s, twice, in the same case %s' % (timeout, first[0][1]), ' '.join(cmd)))
                        else:
                            errors.append('%s shard %d timed out (%s / %s)' % (u['name'], sh, first, second))
                    return
        finally:
            for _ in range(weight):
                slots.release()
        with lock:
            fails = re.findall(r'^@FAIL key=(\S+) suite=(\S+) case=(-?\d+) msg=(.*)$', o, re.M)
            for k, s, c, m in fails:
                if k == 'memcheck':
                    m += ' ' + ' | '.join(re.sub(r'^==\d+== *', '', l) for l in e.splitlines() if l.startswith('=='))[:900]
                viol.append(('%s:%s:%s' % (u['name'], s, k), m, ' '.join(cmd) + ' --suite %s --case %s' % (s, c)))
            for m in re.findall(r'^@INCONCLUSIVE (.*)$', o, re.M):
                notes.append('%s shard %d inconclusive: %s' % (u['name'], sh, m))
            mcov = re.findall(r'^@COV (.*)$', o, re.M)
            if mcov:
                j = json.loads(mcov[-1])
                cov['evaluations'] += j['evaluations']
                for k, v in j['counters'].items():
                    k = u['name'] + '.' + k
                    cov['counters'][k] = cov['counters'].get(k, 0) + v
                for k, v in j['suites'].items():
                    k = u['name'] + '.' + k
                    cov['suites'][k] = cov['suites'].get(k, 0) + v
                cov['samples'] += [u['name'] + ': ' + s for s in j['samples']]
                if os.path.exists(hf):
                    a = array.array('Q')
                    with open(hf, 'rb') as fh:
                        a.frombytes(fh.read())
                    allhash.update(a)
            if rc in (0, 10) and mcov and (rc == 0 or fails):
                return
            if rc == 10 and fails:
                return
            d = classify_death(rc, o, e)
            crash = re.findall(r'@CRASH suite=(\S+) case=(-?\d+)', o)
            s, c = crash[0] if crash else ('-', '-1')
            if d and not (d == 'signal-9'):
                detail = [l.strip() for l in e.splitlines() if re.search(r'ERROR: |runtime error|WARNING: Thread|Assertion|what\(\)|/include/dice/', l)][:14]
                viol.append(('%s:%s:%s' % (u['name'], s, d), 'case %s: %s' % (c, ' | '.join(detail)[:1800] or 'died with rc %d' % rc), ' '.join(cmd) + ' --suite %s --case %s' % (s, c)))
            else:
                errors.append('%s shard %d: rc=%d %s %s' % (u['name'], sh, rc, o[-300:], e[-600:]))

    with cf.ThreadPoolExecutor(max(JOBS, 1)) as ex:
        list(ex.map(one, runs))
    # ---- judge
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    printed, real = set(), []
    for key, text, rep in viol:
        hit = next((k for k in known if fnmatch.fnmatchcase(key, k[0])), None)
        if hit:
            if hit[0] not in printed:
                printed.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[1]))
        else:
            real.append((key, text, rep))
    # several units may report the same thing: one line per key
    byk = {}
    for key, text, rep in real:
        byk.setdefault(key, []).append((text, rep))
    n = 0
    for old in os.listdir(os.path.join(evdir, 'replays')):
        if old.startswith(pid + '-'):
            os.unlink(os.path.join(evdir, 'replays', old))
    for key, lst in byk.items():
        n += 1
        path = os.path.join(evdir, 'replays', '%s-%d.txt' % (pid, n))
        with open(path, 'w') as fh:
            fh.write('property %s\nkey %s\nseed %d tier %s\n' % (pid, key, seed, tier))
            for text, rep in lst[:5]:
                fh.write('\n%s\nreplay: %s\n' % (text, rep))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  key=%s %s' % (key, lst[0][0][:700]))
    if not viol and not errors:
        for u in units:
            got = sum(v for k, v in cov['suites'].items() if k.startswith(u['name'] + '.'))
            if got < u.get('min_eval', 1) and not any(nn.startswith(u['name'] + ' ') for nn in notes):
                errors.append('unit %s observed only %d cases' % (u['name'], got))
        for name in P.get('must_observe', []):
            if not any(cov['counters'].get(u['name'] + '.' + name, 0) for u in units) and not notes:
                errors.append('nothing observed for ' + name)
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'],
              coverage=dict(evaluations=cov['evaluations'], distinct_nontrivial=len(allhash), rule=P['rule'],
                            samples=cov['samples'][:14], observed=cov['counters'], cases_per_suite=cov['suites'],
                            units=[dict(name=u['name'], flavor=u['flavor'], shards=u.get('shards', 8)) for u in units],
                            inconclusive=notes, harness_errors=errors),
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(real))
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    for e in notes:
        print('note: ' + e)
    if byk:
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e, file=sys.stderr)
        return 2
    if cov['evaluations'] == 0:
        print('ERROR nothing was evaluated', file=sys.stderr)
        return 2
    print('%s held on %d executions (%d distinct), %.1f s' % (pid, cov['evaluations'], len(allhash), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
