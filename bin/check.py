#!/usr/bin/env python3
"""check.py ID...        run the check of one or more properties (VERIF_TIER, VERIF_SEED)
check.py --replay FILE   re-run a reported violation
check.py --setup         build everything once
Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed."""
import sys, os, json, subprocess, hashlib, time, re, shutil, threading, glob, signal, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
REPO = os.environ.get('CODD_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(HERE, 'build')
SPEC = os.path.join(HERE, 'spec')
HARN = os.path.join(HERE, 'harness')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)
FLAGS = ['-std=gnu++23', '-O1', '-DNDEBUG', '-D_NDEBUG', '-w']
SAN, SANFLAGS = '@san', ['-fsanitize=address', '-g1']     # builds that watch every memory access
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
import props

class Infra(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    for base, pats in ((SRC, ('.hpp', '.cpp', '.h')), (HARN, ('.hpp', '.cpp'))):
        for root, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if f.endswith(pats):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(' '.join(FLAGS).encode())
    return h.hexdigest()[:20]

def build(bins):
    """compile the harness programs and the library sources of /repo's working tree"""
    d = os.path.join(BUILD, 'bin-' + tree_hash())
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    todo = [b for b in bins if not os.path.exists(os.path.join(d, b))]
    if not todo: return d
    lib = sorted(glob.glob(SRC + '/*.cpp'))
    libs = {'': [(c, os.path.join(d, os.path.basename(c)[:-4] + '.lib.o')) for c in lib],
            SAN: [(c, os.path.join(d, os.path.basename(c)[:-4] + '.san.o')) for c in lib + [os.path.join(HARN, 'poison.cpp')]]}
    jobs = [(os.path.join(HARN, b.replace(SAN, '') + '.cpp'), os.path.join(d, b + '.o')) for b in todo]
    for v in {SAN if SAN in b else '' for b in todo}: jobs += [j for j in libs[v] if not os.path.exists(j[1])]
    def one(j):
        san = SANFLAGS if j[1].endswith('.san.o') or SAN in j[1] else []
        r = sh(['g++', *FLAGS, *san, '-I' + SRC, '-I' + HARN, '-c', j[0], '-o', j[1] + '.tmp'])
        if r.returncode: raise Infra('compile %s\n%s' % (j[0], r.stdout[-3000:]))
        os.rename(j[1] + '.tmp', j[1])
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, jobs))
    def link(b):
        objs = [o for c, o in libs[SAN if SAN in b else ''] if not has_main(o)]
        t = os.path.join(d, b + '.tmp')
        r = sh(['g++', *(SANFLAGS + ['-Wl,--wrap=_ZN4Pool8allocateEm'] if SAN in b else []), os.path.join(d, b + '.o'), *objs, '-o', t, '-lpthread'])
        if r.returncode: raise Infra('link %s\n%s' % (b, r.stdout[-3000:]))
        os.rename(t, os.path.join(d, b))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(link, todo))
    for old in glob.glob(BUILD + '/bin-*'):
        if old != d and time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
    return d

def has_main(o):
    return bool(re.search(r' T main$', sh(['nm', o]).stdout, re.M))

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env, work, workers=1, heap='3g', extra=(), timeout=3000):
    os.makedirs(work, exist_ok=True)
    md = os.path.join(work, 'md'); shutil.rmtree(md, ignore_errors=True)
    e = dict(os.environ); e.update(env); e.pop('JAVA_TOOL_OPTIONS', None)
    gc = ['-XX:+UseSerialGC'] if workers == 1 else ['-XX:+UseParallelGC']
    cmd = ['java', *gc, '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + work, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-config', cfg, '-metadir', md, '-noGenerateSpecTE', *extra, module + '.tla']
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra('TLC %s: time out' % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    st = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
    return r.returncode, out, st

TAIL = 'The postcondition'
def verdict(rc, out):
    """accepted, or why not; anything unexpected is an error of the check"""
    if rc == 0 and 'No error has been found' in out: return None
    m = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)>>', out, re.S)
    if m:
        line, why = m[-1]
        return int(line), ' '.join(why.split())
    m = re.search(r'Error: Invariant (\S+) is violated', out)
    if m:
        k = re.findall(r'/\\ l = (\d+)', out)
        return (int(k[-1]) - 1 if k else 0), 'invariant ' + m.group(1)
    m = re.search(r'Temporal properties were violated|Action property \S+ .*is violated', out)
    if m:
        k = re.findall(r'/\\ l = (\d+)', out)
        return (int(k[-1]) - 1 if k else 0), m.group(0)
    if re.search(r'[Pp]ostcondition.*(violated|false)', out) or 'Accepted' in out and 'is false' in out:
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        return (int(m.group(1)) if m else 0), 'no action explains this event'
    return 'error'

# ---------------------------------------------------------------- conformance jobs
def case_of(lines, k):
    """the case that line k (1-based) belongs to, and its lines"""
    cs = None; start = 0
    for i in range(min(k, len(lines)) - 1, -1, -1):
        m = re.search(r'"case":(\d+)', lines[i][:200])
        if m: cs = int(m.group(1)); break
    return cs

def run_shard(bindir, job, a, b, seed, work, tags, mem):
    os.makedirs(work, exist_ok=True)
    tr = os.path.join(work, 'trace.nd')
    if os.path.exists(tr): os.remove(tr)
    t0 = time.time()
    r = sh([os.path.join(bindir, job['bin']), job['mode'], str(a), str(b), str(seed), tr], timeout=3000,
           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:symbolize=0:alloc_dealloc_mismatch=0:handle_abort=0'))
    if r.returncode != 0 or not os.path.exists(tr):
        raise Infra('harness %s %s %d %d: exit %d %s' % (job['bin'], job['mode'], a, b, r.returncode, r.stdout[-500:]))
    tg = os.path.join(work, 'tags.nd'); open(tg, 'w').write(json.dumps(tags) + '\n')
    lines = open(tr).read().split('\n')
    if lines and lines[-1] == '': lines.pop()
    t1 = time.time()
    rc, out, st = tlc(job['spec'], job.get('cfg', job['spec']) + '.cfg', {'TRACE': tr, 'TAGS': tg}, work)
    v = verdict(rc, out)
    if v == 'error':
        # an evaluation error on a malformed trace, or an infrastructure failure: decided by the caller
        return dict(bad=None, err=out[-3000:], lines=lines, st=st, tr=tr)
    return dict(bad=v, lines=lines, st=st, tr=tr, times=(t1 - t0, time.time() - t1))

def replay_case(bindir, job, case, seed, work, tags):
    return run_shard(bindir, job, case, case + 1, seed, work, tags, None)

def conformance(pid, bindir, jobs, seed, cov, work):
    """run every job; returns a violation (dict) or None"""
    shards = []
    for j in jobs:
        n = j['n'][0 if TIER == 'quick' else 1]
        k = max(1, min(j.get('shards', 8), n)) if TIER == 'quick' else max(1, n // j.get('per', max(1, j['n'][0] // j.get('shards', 8))))
        for i in range(k):
            shards.append((j, n * i // k, n * (i + 1) // k))
    stop = threading.Event(); results = []
    def one(ix):
        if stop.is_set(): return None
        j, a, b = shards[ix]
        if a >= b: return None
        w = os.path.join(work, 's%d' % ix)
        res = run_shard(bindir, j, a, b, seed, w, j['tags'], None)
        res['job'] = j; res['range'] = (a, b); res['cases'] = b - a
        if res.get('bad') or res.get('err'): stop.set()
        else:
            res['sample'] = res['lines'][:3]; res['lines'] = len(res['lines']); shutil.rmtree(w, ignore_errors=True)
        return res
    with ThreadPoolExecutor(NCPU) as ex: results = [r for r in ex.map(one, range(len(shards))) if r]
    for r in results:
        cov['states'] += r['st'][0]; cov['transitions'] += r['st'][1]
        if not r.get('bad') and not r.get('err'):
            cov['traces_validated_against_impl'] += r['cases']
            jn = r['job']['bin'] + ' ' + r['job']['mode'] + ' / ' + r['job']['spec']
            cov['by_driver'][jn] = cov['by_driver'].get(jn, 0) + r['cases']
            cov['events'] += r['lines']
            if len(cov['samples']) < 6 and not any(s['driver'] == jn for s in cov['samples']):
                cov['samples'].append({'driver': jn, 'range': list(r['range']), 'seed': seed, 'events': [x[:400] for x in r['sample']]})
    for r in results:
        if r.get('err') or r.get('bad'): return confirm(pid, bindir, r, seed, work)
    return None

def confirm(pid, bindir, r, seed, work):
    """a rejection counts only if it repeats: on the single case, or else on the same range of cases"""
    j = r['job']
    if r.get('err'):
        # TLC could not evaluate the trace.  Find the case by bisection of the range; if the error repeats on
        # one single case it is the trace (a value of the wrong shape), otherwise it is the infrastructure.
        a, b = r['range']
        for c in range(a, b):
            x = run_shard(bindir, j, c, c + 1, seed, os.path.join(work, 'one'), j['tags'], None)
            if x.get('bad'): return violation(pid, j, c, c + 1, seed, x)
            if x.get('err'):
                y = run_shard(bindir, j, c, c + 1, seed, os.path.join(work, 'one'), j['tags'], None)
                if y.get('err') and 'Error: ' in y['err'] and 'Parsing or semantic' not in y['err'] and 'OutOfMemory' not in y['err'] and 'StackOverflow' not in y['err'] and 'java.io' not in y['err']:
                    y['bad'] = (0, 'the observed values have no meaning in the specification: ' + ' '.join(re.findall(r'Error: (.*)', y['err']))[:300])
                    return violation(pid, j, c, c + 1, seed, y)
        raise Infra('TLC failed on %s %s: %s' % (j['bin'], j['mode'], r['err']))
    line, why = r['bad']
    c = case_of(r['lines'], line)
    if c is not None:
        x = run_shard(bindir, j, c, c + 1, seed, os.path.join(work, 'one'), j['tags'], None)
        if x.get('bad'): return violation(pid, j, c, c + 1, seed, x)
    a, b = r['range']
    x = run_shard(bindir, j, a, b, seed, os.path.join(work, 'one'), j['tags'], None)
    if x.get('bad'): return violation(pid, j, a, b, seed, x)
    # the code behaves differently from run to run (addresses, time); the recorded trace is a history of the real code
    # all the same: it counts if TLC rejects it a second time
    r['why'] = why
    tr = os.path.join(work, 'again.nd'); open(tr, 'w').write('\n'.join(r['lines']) + '\n')
    tg = os.path.join(work, 'again-tags.nd'); open(tg, 'w').write(json.dumps(j['tags']) + '\n')
    rc, out, st = tlc(j['spec'], j.get('cfg', j['spec']) + '.cfg', {'TRACE': tr, 'TAGS': tg}, os.path.join(work, 'again'))
    v = verdict(rc, out)
    if v and v != 'error': return violation(pid, j, a, b, seed, dict(bad=v, lines=r['lines']))
    sys.stderr.write('not repeated: %s %s line %d: %s\n' % (j['bin'], j['mode'], line, why))
    raise Infra('a rejection did not repeat: %s' % why)

def violation(pid, j, a, b, seed, x):
    line, why = x['bad']
    lines = x['lines']
    rd = os.path.join(BUILD, 'replay'); os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, '%s-%s-%d.json' % (pid, j['mode'], a))
    ctx = lines[max(0, line - 2):line + 1] if line else lines[-2:]
    json.dump({'property': pid, 'job': j, 'from': a, 'to': b, 'seed': seed, 'line': line, 'why': why,
               'events': [s[:4000] for s in ctx], 'rerun': 'python3 bin/check.py --replay ' + p,
               'trace': lines if sum(map(len, lines)) < 4000000 else lines[:200]}, open(p, 'w'), indent=1)
    sys.stderr.write('%s: %s %s case %d, event %d: %s\n  %s\n' % (pid, j['bin'], j['mode'], a, line, why, ctx[-1][:500] if ctx else ''))
    return dict(path=p, why=why)

# ---------------------------------------------------------------- model checking
def models(pid, mcs, cov, work):
    """exhaustive (or simulated) checks of the specification itself; these do not depend on the code"""
    mcs = [m for m in mcs if TIER != 'quick' or not m.get('thorough')]
    def one(i):
        m = mcs[i]
        cfg = m['cfg'][0 if TIER == 'quick' or len(m['cfg']) < 2 else 1]
        t = time.time()
        rc, out, st = tlc(m['module'], cfg, {'VERIF_SEED': str(SEED)}, os.path.join(work, 'mc%d' % i), workers=m.get('workers', 2),
                          heap=m.get('heap', '6g'), extra=m.get('extra', ()), timeout=m.get('timeout', 3000))
        want = m.get('expect')
        if want:      # a deliberately wrong variant of the algorithm: the specification must refute it
            if want not in out: raise Infra('%s %s: expected %s\n%s' % (m['module'], cfg, want, out[-2500:]))
        elif rc != 0 or 'No error has been found' not in out and 'Simulation' not in out:
            raise Infra('the specification %s (%s) does not check:\n%s' % (m['module'], cfg, out[-2500:]))
        return m, cfg, st, time.time() - t, bool(want)
    with ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
        for m, cfg, st, t, want in ex.map(one, range(len(mcs))):
            cov['states'] += st[0]; cov['transitions'] += st[1]
            cov['models'].append({'module': m['module'], 'config': cfg, 'states': st[0], 'transitions': st[1],
                                  'refuted_as_expected' if want else 'checked': True, 'wall_s': round(t, 1)})

def known(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for s in open(p):
            m = re.match(r'finding: property=(\S+)\s+(.*)', s)
            if m and m.group(1) == pid: out.append(m.group(2).strip())
    return out

def check(pid):
    P = props.PROPS[pid]
    t0 = time.time()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, by_driver={}, models=[], samples=[])
    work = os.path.join(BUILD, 'work', '%s-%d' % (pid, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        bindir = build(sorted({j['bin'] for j in P['jobs']}))
        v = conformance(pid, bindir, P['jobs'], SEED, cov, work)
        if not v: models(pid, P.get('mc', []), cov, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
               'assumptions': P.get('assume', props.ASSUME), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if v else 0},
              open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if v:
        print('VIOLATION property=%s replay=%s' % (pid, v['path'])); return 1
    print('OK property=%s traces=%d states=%d wall=%.1fs' % (pid, cov['traces_validated_against_impl'], cov['states'], time.time() - t0))
    return 0

def main():
    os.makedirs(BUILD, exist_ok=True)
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == '--setup':
        build(sorted({j['bin'] for P in props.PROPS.values() for j in P['jobs']})); return 0
    if sys.argv[1] == '--replay':
        R = json.load(open(sys.argv[2])); j = R['job']
        bindir = build([j['bin']])
        x = run_shard(bindir, j, R['from'], R['to'], R['seed'], os.path.join(BUILD, 'work', 'replay'), j['tags'], None)
        print(x.get('bad') or x.get('err') or 'accepted'); return 1 if x.get('bad') or x.get('err') else 0
    ids = list(props.PROPS) if sys.argv[1] == 'all' else sys.argv[1:]
    rc = 0
    for p in ids: rc = max(rc, check(p))
    return rc

if __name__ == '__main__':
    try: sys.exit(main())
    except Infra as e:
        sys.stderr.write('CHECK FAILED: %s\n' % e); sys.exit(2)
