"""Driver library: builds harnesses from /repo's working tree, runs them, replays
failures, matches known findings, writes evidence."""
import zlib, array, json, os, re, shutil, signal, subprocess, sys, time, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
HDF_INC = '/usr/include/hdf5/openmpi'
HDF_LIB = '/usr/lib/x86_64-linux-gnu/hdf5/openmpi'

os.environ.update({'OMPI_MCA_btl': 'self', 'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
                   'OMPI_CXX': 'g++', 'HDF5_USE_FILE_LOCKING': 'FALSE'})
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=86:handle_segv=1:detect_stack_use_after_return=0:allocator_may_return_null=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=86'}
OPTS_HPP = '''#pragma once
#define MARA_COMPILE_SUBPROGRAM_BOILERPLATE 1
#define MARA_COMPILE_SUBPROGRAM_PARTDOM 1
#define MARA_COMPILE_SUBPROGRAM_CLOUD 1
#define MARA_COMPILE_SUBPROGRAM_SEDOV 1
#define MARA_COMPILE_SUBPROGRAM_BINARY 1
#define MARA_COMPILE_SUBPROGRAM_AMRSAND 1
#define MARA_COMPILE_SUBPROGRAM_TEST 1
#define MARA_PREFERRED_THREAD_COUNT %d
'''


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        tag = '' if REPO == '/repo' else '-' + re.sub(r'\W', '_', REPO)
        self.dir = os.path.join(VERIF, 'build', pid + tag)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.evdir = os.path.join(VERIF, 'evidence') if REPO == '/repo' else os.path.join(self.dir, 'evidence')
        os.makedirs(os.path.join(self.evdir, 'replays'), exist_ok=True)
        self.scratch = os.path.join(self.dir, 'scratch')
        os.makedirs(self.scratch)
        self.cov = {}
        self.samples = []
        self.violations = []      # dict(part, desc, what, replay(cmd))
        self.known = []           # matched known findings
        self.counts = dict(states=0, transitions=0, traces=0, evaluations=0, distinct=0)
        self.exhaustive = True
        self.assumptions = []
        self.findings = load_findings(pid)
        self.lock = threading.Lock()
        self.src = None

    def left(self, total):
        return total - (time.time() - self.t0)

    # ---------------------------------------------------------------- sources
    def source_dir(self, threads=None):
        """A copy of the tree's sources, with a compile-options header of our own."""
        d = os.path.join(self.dir, 'src%s' % ('' if threads is None else threads))
        if not os.path.isdir(d):
            os.makedirs(d)
            for f in sorted(os.listdir(os.path.join(REPO, 'src'))):
                if f.endswith(('.hpp', '.cpp', '.h')) and f != 'app_compile_opts.hpp':
                    shutil.copy2(os.path.join(REPO, 'src', f), os.path.join(d, f))
            for sub in os.listdir(os.path.join(REPO, 'src')):
                p = os.path.join(REPO, 'src', sub)
                if os.path.isdir(p):
                    shutil.copytree(p, os.path.join(d, sub))
            with open(os.path.join(d, 'app_compile_opts.hpp'), 'w') as f:
                f.write(OPTS_HPP % (threads or 4))
        return d

    def sh(self, cmd, what, timeout=840, **kw):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        if p.returncode:
            sys.stdout.write(p.stdout.decode(errors='replace')[-6000:])
            raise CheckError('%s failed (%s)' % (what, ' '.join(cmd)[:300]))
        return p.stdout.decode(errors='replace')

    def compile_many(self, jobs):
        """jobs: list of (cmd, what)"""
        errs = []
        q = queue.Queue()
        for j in jobs: q.put(j)
        def work():
            while True:
                try: cmd, what = q.get_nowait()
                except queue.Empty: return
                try: self.sh(cmd, what)
                except CheckError as e: errs.append(e)
        ts = [threading.Thread(target=work) for _ in range(min(NPROC, len(jobs)))]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise errs[0]

    # ---------------------------------------------------------------- reporting
    def report(self, part, desc, what, replay):
        with self.lock:
            for f in self.findings:
                if f['kind'] == 'known' and f['part'] == part and f['case'] == desc:
                    if f not in self.known: self.known.append(f)
                    return
            self.violations.append(dict(part=part, desc=desc, what=what, replay=replay))

    def finish(self, level, rule=None, extra=None):
        cov = dict(self.cov)
        c = self.counts
        if level == 'model_checking':
            cov.update(states=c['states'], transitions=c['transitions'], traces_validated_against_impl=c['traces'])
        else:
            cov.update(evaluations=c['evaluations'], distinct_nontrivial=c['distinct'])
        if rule: cov['rule'] = rule
        cov['samples'] = self.samples[:12]
        cov['exhaustive'] = bool(self.exhaustive)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(self.evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for n, v in enumerate(self.violations):
            path = os.path.join(self.evdir, 'replays', '%s-%d.json' % (self.pid, n))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, **v), f, indent=1)
            if n < 5:
                print('  [%s] %s\n    %s' % (v['part'], v['desc'][:600], v['what'][:1500]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('%s %s: %s  (%s) %.1f s' % (self.pid, self.tier, 'VIOLATED' if self.violations else 'held',
              ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, (int, bool))), time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p): return out
    for line in open(p):
        line = line.strip()
        m = re.match(r'known: property=(\S+) part=(\S+) case=(.*?) :: (.*)$', line)
        if m and m.group(1) == pid:
            out.append(dict(kind='known', part=m.group(2), case=m.group(3), what=m.group(4)))
    return out


# -------------------------------------------------------------------- mc parts
def run_mc(run, part, source, total=780, defines=(), quick_cap=240, shards=None, hdf5=False):
    """Explore every schedule of every scenario of one harness."""
    name = os.path.splitext(os.path.basename(source))[0]
    b = run.dir
    inc = run.source_dir()
    rt, obj, exe = (os.path.join(b, x) for x in ('mcrt.o', name + '.o', name))
    jobs = [(['g++', '-std=c++17', '-O1', '-g', '-c', os.path.join(VERIF, 'mc/mcrt.cpp'), '-o', rt], 'runtime'),
            (['g++', '-std=c++17', '-O0', '-g', '-fsanitize=thread', '-include', 'cstring', '-I', inc, '-I', os.path.join(VERIF, 'mc'),
              '-isystem', HDF_INC, *defines, '-c', os.path.join(VERIF, source), '-o', obj], 'harness ' + name)]
    run.compile_many(jobs)
    run.sh(['g++', '-rdynamic', obj, rt, '-o', exe, '-lpthread', '-ldl'], 'link ' + name)
    sc = [l.split() for l in run.sh([exe, '--list'], 'list').splitlines()]
    jobs = []
    deep = run.tier == 'thorough'
    for s, q, t in sc:
        bound = int(t) if deep else int(q)
        n = (shards or {}).get(s, 8 if deep else 1)
        for i in range(n): jobs.append((s, bound, i, n))
    # interleave so that the shards of one scenario do not all wait at the end
    jobs.sort(key=lambda j: (j[2],))
    res = {}
    q = queue.Queue()
    for j in jobs: q.put(j)
    stop = threading.Event()

    def call(args, timeout):
        return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)

    def work():
        while not stop.is_set():
            try: s, bound, i, n = q.get_nowait()
            except queue.Empty: return
            budget = min(run.left(total), 10000 if deep else quick_cap)
            if budget < 5: budget = 5
            if deep:  # share what is left between the jobs that are left
                budget = max(8, min(budget, NPROC * run.left(total) / (q.qsize() + NPROC) * 2.0))
            p = call(['--scenario', s, '--bound', str(bound), '--shard', '%d/%d' % (i, n), '--seconds', '%.1f' % budget], budget + 300)
            out = p.stdout.decode(errors='replace')
            r = dict(re.findall(r'^(\w+) (.*)$', out, re.M))
            outcomes = set(re.findall(r'^outcome (.*)$', out, re.M))
            with run.lock:
                d = res.setdefault(s, dict(bound=bound, executions=0, points=0, switches=0, states=0, transitions=0, merged=0, complete=True, outcomes=set()))
                for k in ('executions', 'points', 'switches', 'states', 'transitions', 'merged'): d[k] += int(r.get(k, 0))
                d['outcomes'] |= outcomes
                if r.get('complete') != '1': d['complete'] = False
            if p.returncode == 1 and 'FAIL' in r:
                sched = r.get('SCHEDULE', '')
                if r['FAIL'].startswith('INTERNAL'): raise_later(run, CheckError('%s: %s' % (s, r['FAIL'])))
                # replay twice: the same schedule must fail the same way
                again = [call(['--scenario', s, '--bound', '0', '--replay', sched], 400) for _ in range(2)]
                if all(a.returncode == 1 for a in again):
                    w = re.findall(r'^FAIL (.*)$', again[0].stdout.decode(errors='replace'), re.M)
                    run.report(part, s, (w or [r['FAIL']])[0], dict(harness=source, scenario=s, schedule=sched, cmd='%s --scenario %s --bound 0 --replay %s' % (os.path.basename(exe), s, sched)))
                    stop.set()
                else:
                    raise_later(run, CheckError('%s: failure does not replay: %s' % (s, r['FAIL'])))
            elif p.returncode:
                raise_later(run, CheckError('%s: exit %d\n%s' % (s, p.returncode, out[-2000:])))

    def guard():
        try: work()
        except BaseException as e: raise_later(run, e)
    ts = [threading.Thread(target=guard) for _ in range(NPROC)]
    for t in ts: t.start()
    for t in ts: t.join()
    if getattr(run, 'error', None) and not run.violations: raise run.error
    run.counts['states'] += sum(d['states'] for d in res.values())
    run.counts['transitions'] += sum(d['transitions'] for d in res.values())
    run.counts['traces'] += sum(d['executions'] for d in res.values())
    run.cov.setdefault('scenarios', {}).update({s: dict(bound=d['bound'], executions=d['executions'], states=d['states'], transitions=d['transitions'],
        scheduling_points=d['points'], complete=d['complete'], outcomes=sorted(d['outcomes'])[:6]) for s, d in sorted(res.items())})
    if any(not d['complete'] for d in res.values()) or len(res) < len(sc): run.exhaustive = False
    run.samples += ['%s: %d executions within %d deviations' % (s, d['executions'], d['bound']) for s, d in sorted(res.items(), key=lambda x: -x[1]['executions'])[:6]]
    return res


def raise_later(run, e):
    with run.lock:
        if not getattr(run, 'error', None): run.error = e


# ------------------------------------------------------------------ enum parts
def build_enum(run, source, hdf5=False, san=True, opt='-O1', defines=(), extra_sources=(), libs=(), threads=None, parts=(), program=None):
    name = os.path.splitext(os.path.basename(source))[0]
    inc = run.source_dir(threads)
    exe = os.path.join(run.dir, name)
    flags = ['-std=c++17', opt, '-g1', '-include', 'cstring', '-I', inc, '-I', os.path.join(VERIF, 'common'), '-isystem', HDF_INC,
             '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-w', *defines]
    if san: flags += ['-fsanitize=address,undefined', '-fno-sanitize=null,alignment,object-size,vptr,nonnull-attribute,returns-nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    objs, jobs = [], []
    for s in (os.path.join(VERIF, source),) + tuple(x if x.startswith('/') else os.path.join(inc, x) for x in extra_sources):
        own = s == os.path.join(VERIF, source)
        o = os.path.join(run.dir, (name if own else 'x%08x' % (zlib.crc32(' '.join(flags).encode()))) + '_' + os.path.splitext(os.path.basename(s))[0] + '.o')
        objs.append(o)
        if not own and os.path.exists(o): continue   # compiled for an earlier part of this check
        jobs.append((['g++'] + flags + ['-c', s, '-o', o], 'compile ' + os.path.basename(s)))
    for k in parts:   # the same source, split over several translation units
        o = os.path.join(run.dir, '%s_part%s.o' % (name, k))
        objs.append(o)
        jobs.append((['g++'] + flags + ['-DVF_PART=%s' % k, '-c', os.path.join(VERIF, source), '-o', o], 'compile %s part %s' % (name, k)))
    if program:   # the real main, under another name
        objs.append(os.path.join(run.dir, 'program.o'))
        jobs.append((['g++'] + flags + ['-c', os.path.join(inc, program), '-o', objs[-1]], 'compile ' + program))
        first = len(objs) - 1
    run.compile_many(jobs)
    if program: run.sh(['objcopy', '--redefine-sym', 'main=mara_main', objs[first]], 'rename main of ' + program)
    link = ['mpicxx.openmpi' if hdf5 else 'g++'] + (['-fsanitize=address,undefined'] if san else []) + objs + ['-o', exe]
    if hdf5: link += ['-L' + HDF_LIB, '-lhdf5']
    run.sh(link + list(libs) + ['-lpthread', '-ldl'], 'link ' + name)
    return exe


def run_enum(run, part, source, total=780, stall=60, nshards=None, prebuilt=None, env=None, **build):
    exe = prebuilt or build_enum(run, source, **build)
    n = nshards or NPROC
    base = dict(os.environ, **SAN_ENV)
    base.update(env or {})
    procs = []

    def start(args, tag):
        sc = os.path.join(run.scratch, '%s-%s' % (os.path.basename(exe), tag))
        os.makedirs(sc, exist_ok=True)
        log = open(os.path.join(run.dir, 'log-%s-%s' % (os.path.basename(exe), tag)), 'wb')
        return subprocess.Popen([exe, '--tier', run.tier] + args, stdout=log, stderr=subprocess.STDOUT, cwd=sc,
                                env=dict(base, VF_SCRATCH=sc), start_new_session=True), log.name

    def progress(path):
        try:
            d = open(path, 'rb').read(512)
            return int.from_bytes(d[:8], 'little', signed=True), d[64:264].split(b'\0')[0].decode()
        except Exception: return (-1, '?')

    def kill(p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()

    def replay(group, index, limit):
        out = os.path.join(run.dir, 'replay.json')
        p, log = start(['--group', group, '--only', str(index), '--out', out], 'replay')
        rc, t0 = None, time.time()
        while rc is None:
            rc = p.poll()
            if rc is None and time.time() - t0 > limit: kill(p); rc = 'hang'
            elif rc is None and memory(p) > MEMORY: kill(p); rc = 'memory'
            elif rc is None: time.sleep(0.02)
        txt = open(log, 'rb').read().decode(errors='replace')
        m = re.search(r'^CASE \S+ (.*)$', txt, re.M)
        what = ''
        if rc == 1:
            try: what = json.load(open(out))['bad'][0]['what']
            except Exception: what = txt[-800:]
        elif rc == 'hang': what = 'the case does not end within %d s' % limit
        elif rc == 'memory': what = 'the case takes more than %d MB' % (MEMORY / 1e6)
        elif rc:
            e = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: .*)', txt)
            what = 'exit %s: %s' % (rc, e.group(1) if e else txt[-800:])
        return rc, (m.group(1) if m else '%s:%d' % (group, index)), what

    for i in range(n):
        out = os.path.join(run.dir, '%s-%d.json' % (os.path.basename(exe), i))
        pr = os.path.join(run.dir, '%s-%d.prog' % (os.path.basename(exe), i))
        p, log = start(['--shard', '%d/%d' % (i, n), '--out', out, '--progress', pr], str(i))
        procs.append(dict(p=p, out=out, prog=pr, log=log, last=None, t=time.time(), i=i))
    results = []
    live = list(procs)
    hung = set()              # groups in which a hang has been confirmed
    MEMORY = 3.2e9            # of one worker; all of them together have to fit

    def memory(p):
        try: return int(open('/proc/%d/statm' % p.pid).read().split()[1]) * 4096
        except Exception: return 0

    def failures(bads):
        for bad in bads:
            if bad['index'] < 0:
                run.report(part, bad['group'] + ': ' + bad['desc'], bad['what'], dict(harness=source, group=bad['group'])); continue
            if len(run.violations) < 40:
                if len(run.violations) < 6 and run.left(total) > 30:
                    rr, desc, what = replay(bad['group'], bad['index'], min(3 * stall, max(30, run.left(total))))
                    if rr == 0: bad['what'] += ' (not every time: the same case also passes)'
                run.report(part, bad['group'] + ': ' + bad['desc'], bad['what'], dict(harness=source, group=bad['group'], index=bad['index']))

    def journal(d):
        """What a worker that was stopped had found by then."""
        try: return [json.loads(l) for l in open(d['out'] + '.bad')]
        except Exception: return []

    while live:
        time.sleep(0.05)
        for d in list(live):
            rc = d['p'].poll()
            if rc is None:
                now = progress(d['prog'])
                if now != d['last']: d['last'], d['t'] = now, time.time()
                size = memory(d['p']); run.cov['peak_worker_mb'] = max(run.cov.get('peak_worker_mb', 0), size >> 20)
                stuck = time.time() - d['t'] > stall
                if (stuck or size > MEMORY) and now[0] >= 0:
                    kill(d['p']); live.remove(d)
                    if size > MEMORY:
                        for e in list(live):
                            if memory(e['p']) > MEMORY / 3: kill(e['p']); live.remove(e); run.exhaustive = False
                    failures(journal(d))
                    g, k = now[1], now[0]
                    if g in hung: continue
                    r, desc, what = replay(g, k, max(20, min(2 * stall, run.left(total) + 60)))
                    if r == 0 and size > MEMORY: raise CheckError('shard %d grew to %d MB at %s:%d, which passes alone' % (d['i'], size >> 20, g, k))
                    if r == 0: raise CheckError('shard %d stalled at %s:%d, which passes alone' % (d['i'], g, k))
                    hung.add(g)
                    run.report(part, g + ': ' + desc, what, dict(harness=source, group=g, index=k))
                    continue
                found = hung or os.path.exists(d['out'] + '.bad')
                if found: d.setdefault('found', time.time())
                if run.left(total) < 0 or (found and time.time() - d['found'] > 90):
                    kill(d['p']); live.remove(d); run.exhaustive = False
                    failures(journal(d))
                    g = progress(d['prog'])
                    run.cov.setdefault('cut_short', []).append('%s shard %d at %s:%d' % (part, d['i'], g[1], g[0]))
                continue
            live.remove(d)
            if rc in (0, 1):
                r = json.load(open(d['out']))
                results.append((r, d['out'] + '.states'))
                failures(r['bad'])
            else:
                k, g = progress(d['prog'])
                failures(journal(d))
                if k >= 0:
                    r, desc, what = replay(g, k, max(20, min(2 * stall, run.left(total) + 60)))
                else: r, desc, what = 0, '', ''
                txt = open(d['log'], 'rb').read().decode(errors='replace')
                if r == 0 and k >= 0 and rc in (86, -6, -8, -11):   # it did go wrong, though not every time
                    e = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: .*)', txt)
                    r, what = 1, 'exit %s (not every time): %s' % (rc, e.group(1) if e else txt[-800:])
                if r == 0:
                    txt = txt[-1500:]
                    raise CheckError('shard %d ended with %s at %s:%d, which passes alone\n%s' % (d['i'], rc, g, k, txt))
                run.report(part, g + ': ' + desc, what, dict(harness=source, group=g, index=k))
    # ------------------------------------------------------------- statistics
    groups = {}
    states = set()
    for r, sf in results:
        for g, c in r['groups'].items(): groups[g] = groups.get(g, 0) + c
        run.counts['transitions'] += r['transitions']
        run.counts['traces'] += r['cases']
        run.counts['evaluations'] += r['cases']
        run.counts['distinct'] += r['nontrivial']
        if r['capped']: run.exhaustive = False
        if r['nstates'] and os.path.exists(sf):
            a = array.array('Q'); 
            with open(sf, 'rb') as f: a.frombytes(f.read())
            states.update(a)
            os.unlink(sf)
    run.counts['states'] += len(states)
    run.cov.setdefault('groups', {}).update({part + '/' + k: v for k, v in groups.items()})
    run.cov['assertions'] = run.cov.get('assertions', 0) + sum(r['checks'] for r, _ in results)
    seen = set()
    for r, _ in results:
        for s in r['samples']:
            g = s.split(':')[0]
            if g not in seen: seen.add(g); run.samples.append(s)
    return results
