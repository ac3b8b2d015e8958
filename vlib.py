"""Framework shared by all checks: builds the library from /repo's working tree in several
instrumented variants, compiles harnesses, runs them, turns what the monitors report into
verdicts, matches known findings, writes evidence.

Verdict discipline: only a monitor (VIOL line of a harness oracle), a sanitizer report, a failed
assertion, a fatal signal or a definite hang reported by the in-process watchdog is a violation.
Build failures, driver timeouts and runs that observed nothing are errors of the check (exit 2)."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
HARN = os.path.join(VERIF, 'harness')
INC = ['cyCore', 'cyEvent', 'cyNetwork', 'cyCrypt', 'cyUtility']
NCPU = os.cpu_count() or 4

BASE = '-O1 -g -Wno-error -w -fno-omit-frame-pointer'
ASAN = ' -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment'
ASAN_ALIGN = ' -fsanitize=address,undefined -fno-sanitize-recover=all'
TSAN = ' -fsanitize=thread'
INJECT = ' -include ' + os.path.join(HARN, 'inject_atomic.h')
# name -> (compile flags, cmake cache options)
VARIANTS = {
    'plain':      (BASE, {}),
    'asan':       (BASE + ASAN, {}),
    'asanal':     (BASE + ASAN_ALIGN, {}),
    'asan_sel':   (BASE + ASAN, {'CY_HAVE_EPOLL': '0'}),
    'asan_norw':  (BASE + ASAN, {'CY_HAVE_READWRITE_V': '0', 'CY_HAVE_PIPE2': '0', 'CY_HAVE_TIMED_LOCK': '0'}),
    'tsan':       (BASE + TSAN, {}),
    'tsan_sel':   (BASE + TSAN, {'CY_HAVE_EPOLL': '0'}),
    'tsan_nolog': (BASE + TSAN, {'CY_ENABLE_LOG': '0'}),
    'inj':        (BASE + INJECT, {}),
    'inj_asan':   (BASE + ASAN + INJECT, {}),
    'inj_tsan':   (BASE + TSAN + INJECT, {'CY_ENABLE_LOG': '0'}),
}
FALLBACK = {'inj': 'plain', 'inj_asan': 'asan', 'inj_tsan': 'tsan_nolog'}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(open(root, 'rb').read())
            continue
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x not in ('_build', '.git'))
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b'\0')
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


_src_hash = None
def src_hash():
    global _src_hash
    if _src_hash is None:
        _src_hash = tree_hash([os.path.join(REPO, 'source'), os.path.join(REPO, 'samples'), os.path.join(REPO, 'CMakeLists.txt')])
    return _src_hash


_locks = {}
_glock = threading.Lock()
def _lock(name):
    with _glock:
        return _locks.setdefault(name, threading.Lock())


def build_lib(variant, targets=('cyclone',)):
    """Builds libcyclone.a of the working tree in a variant; returns the build directory."""
    flags, opts = VARIANTS[variant]
    inj = tree_hash([os.path.join(HARN, 'inject_atomic.h')]) if 'inject_atomic' in flags else ''
    key = hashlib.sha256((src_hash() + flags + repr(sorted(opts.items())) + inj + repr(targets)).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, key))
    with _lock(d):
        if os.path.exists(os.path.join(d, '.ok')):
            return d
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Verif',
               '-DCMAKE_CXX_FLAGS_VERIF=' + flags, '-DCMAKE_C_FLAGS_VERIF=' + flags.replace(INJECT, ''),
               '-DCMAKE_CXX_FLAGS=-include memory', '-DCMAKE_CXX_STANDARD=14',
               '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_C_COMPILER=gcc']
        cmd += ['-D%s=%s' % kv for kv in opts.items()]
        r = sh(cmd)
        if r.returncode == 0:
            r = sh(['ninja', '-C', d] + list(targets))
        if r.returncode != 0:
            if variant in FALLBACK:
                sys.stderr.write('note: variant %s does not build on this tree, using %s\n' % (variant, FALLBACK[variant]))
                return build_lib(FALLBACK[variant], targets)
            raise CheckError('building %s failed:\n%s' % (variant, r.stdout[-3000:]))
        open(os.path.join(d, '.ok'), 'w').close()
    prune_builds()
    return d


def prune_builds(keep=60):
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(('lib-', 'exe-'))]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
    except OSError:
        pass


def harness(src, variant, extra='', wraps=(), defs='', compiler='g++', std='c++14'):
    """Compiles harness/<src> against the variant's library; returns the executable."""
    d = build_lib(variant)
    flags = VARIANTS[variant][0]
    real = os.path.basename(d).split('-')[1]
    if real != variant:
        flags = VARIANTS[real][0]
    hh = tree_hash([HARN])
    key = hashlib.sha256((d + hh + src + flags + extra + defs + repr(wraps) + compiler).encode()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'exe-%s-%s-%s' % (src.replace('.cpp', ''), variant, key))
    with _lock(exe):
        if os.path.exists(exe):
            return exe
        cmd = [compiler, '-std=' + std, '-include', 'memory'] + flags.split() + defs.split()
        cmd += ['-I' + os.path.join(REPO, 'source', i) for i in INC]
        cmd += ['-I' + os.path.join(d, 'source'), '-I' + d, '-I' + HARN]
        cmd += [os.path.join(HARN, src), '-o', exe + '.tmp', os.path.join(d, 'source', 'libcyclone.a'), '-lpthread', '-ldl']
        cmd += ['-Wl,--wrap=' + w for w in wraps] + extra.split()
        r = sh(cmd)
        if r.returncode != 0:
            if variant in FALLBACK:
                sys.stderr.write('note: %s does not compile in %s, using %s: %s\n' % (src, variant, FALLBACK[variant], r.stdout[:1500]))
                return harness(src, FALLBACK[variant], extra, wraps, defs, compiler, std)
            raise CheckError('compiling %s (%s) failed:\n%s' % (src, variant, r.stdout[-4000:]))
        os.rename(exe + '.tmp', exe)
    return exe


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_thread_leaks=0:second_deadlock_stack=1:history_size=5:suppressions=' + os.path.join(HARN, 'tsan.supp'),
}


class Run:
    def __init__(self):
        self.viols = []      # (key, detail)
        self.stats = {}
        self.samples = []
        self.dist = set()
        self.rc = None
        self.out = ''
        self.err = ''
        self.cmd = None
        self.timed_out = False


def _frames(text):
    """Function names of the first frames inside the repository (or harness) of a sanitizer stack."""
    fr = []
    for m in re.finditer(r'#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)', text):
        if '/repo/' in m.group(2) or REPO + '/' in m.group(2) or '/samples/' in m.group(2):
            fn = re.sub(r'<.*?>|\(.*', '', m.group(1)).strip()
            if fn not in fr:
                fr.append(fn)
        if len(fr) >= 2:
            break
    return '+'.join(fr) or 'outside-repo'


def parse_output(run, tsan_ignore=()):
    for line in run.out.splitlines():
        if line.startswith('VIOL key='):
            m = re.match(r'VIOL key=(\S+)\s*(.*)', line)
            run.viols.append((m.group(1), m.group(2)))
        elif line.startswith('STAT '):
            p = line.split()
            run.stats[p[1]] = run.stats.get(p[1], 0) + int(p[2])
        elif line.startswith('SAMPLE '):
            run.samples.append(line[7:][:600])
    err = run.err
    case = ''
    m = re.search(r'^CASE (.*)$', err, re.M)
    if m:
        case = ' [case ' + m.group(1)[:400] + ']'
    m = re.search(r'ERROR: AddressSanitizer:? (\S+)', err)
    if m:
        run.viols.append(('asan:%s:%s' % (m.group(1), _frames(err[m.start():])), err[m.start():m.start() + 600].replace('\n', ' | ') + case))
    m = re.search(r'ERROR: LeakSanitizer', err)
    if m:
        run.viols.append(('leak:%s' % _frames(err[m.start():]), err[m.start():m.start() + 600].replace('\n', ' | ')))
    m = re.search(r'(\S+):(\d+):\d+: runtime error: (.*)', err)
    if m:
        kind = re.sub(r'[^a-z]+', '-', re.sub(r'0x[0-9a-f]+|\d+', '', m.group(3).lower()))[:40]
        run.viols.append(('ubsan:%s:%s' % (os.path.basename(m.group(1)), kind.strip('-')), m.group(0) + case))
    for blk in re.split(r'^=+$', err, flags=re.M):
        m = re.search(r'WARNING: ThreadSanitizer: ([a-z\- ]+)', blk)
        if m:
            kind = m.group(1).strip().replace(' ', '-').split('-(')[0]
            key = 'tsan:%s:%s' % (kind, _frames(blk))
            if any(re.search(x, blk) for x in tsan_ignore):
                continue
            run.viols.append((key, blk.strip()[:1500].replace('\n', ' | ') + case))
        elif 'FATAL: ThreadSanitizer' in blk:
            run.viols.append(('tsan:fatal', blk.strip()[:600].replace('\n', ' | ')))
    m = re.search(r'(\S+):(\d+): .*Assertion [`\'](.*?)\' failed', err)
    if m:
        run.viols.append(('assert:%s:%s' % (os.path.basename(m.group(1)), re.sub(r'\s+', '', m.group(3))[:80]), m.group(0) + case))
    elif run.rc is not None and run.rc < 0 and not run.timed_out and not run.viols:
        try:
            sn = signal.Signals(-run.rc).name
        except ValueError:
            sn = str(run.rc)
        run.viols.append(('signal:%s' % sn, 'killed by %s%s; stderr: %s' % (sn, case, err[-500:].replace('\n', ' | '))))
    if 'terminate called' in err and not any(k.startswith('assert') for k, _ in run.viols):
        run.viols.append(('terminate', err[-400:].replace('\n', ' | ') + case))


def execute(exe, args=(), env=None, timeout=250, stdin=None, tsan_ignore=(), setup_env=None):
    """Runs one harness process in a fresh scratch directory."""
    run = Run()
    scratch = os.path.join(BUILD, 'run', '%d-%d-%d' % (os.getpid(), threading.get_ident() % 100000, time.time_ns() % 10**9))
    os.makedirs(scratch)
    e = dict(os.environ)
    e.update(SAN_ENV)
    e['VH_DIST'] = os.path.join(scratch, 'dist.bin')
    e['VH_SCRATCH'] = scratch
    for k, v in (env or {}).items():
        if k.endswith('_OPTIONS') and k in e:
            e[k] = e[k] + ':' + v
        else:
            e[k] = v
    run.cmd = [exe] + [str(a) for a in args]
    fo = open(os.path.join(scratch, 'stdout'), 'wb+')
    fe = open(os.path.join(scratch, 'stderr'), 'wb+')
    try:
        p = subprocess.Popen(run.cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, cwd=scratch, env=e, start_new_session=True)
        try:
            run.rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            run.timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if run.timed_out:
            run.rc = p.wait()
        cap = 8 << 20
        for f, name in ((fo, 'out'), (fe, 'err')):
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - cap) if name == 'out' else 0)
            setattr(run, name, f.read(cap).decode('utf-8', 'replace'))
        parse_output(run, tsan_ignore)
        try:
            b = open(e['VH_DIST'], 'rb').read()
            run.dist = set(b[i:i + 8] for i in range(0, len(b) - 7, 8))
        except OSError:
            pass
    finally:
        fo.close()
        fe.close()
        shutil.rmtree(scratch, ignore_errors=True)
    return run


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.stats = {}
        self.samples = []
        self.dist = set()
        self.viols = []       # (key, detail, run)
        self.errors = []
        self.runs = 0
        self.retried = []
        self.notes = []
        self.skipped = 0      # jobs not run: a violation was already found, or the time was up
        self.known = None
        self.rule = ''
        self.assumptions = []
        self.extra_cov = {}
        self.min_required = {}   # stat -> minimum that must have been observed

    # --- running ---------------------------------------------------------------------------
    def job(self, src, variant, args=(), **kw):
        hk = {k: kw.pop(k) for k in ('extra', 'wraps', 'defs', 'compiler', 'std') if k in kw}
        return dict(src=src, variant=variant, args=list(args), hk=hk, kw=kw)

    def run_jobs(self, jobs, parallel=None):
        """Compiles (in parallel, once per configuration) then executes all jobs."""
        par = parallel or NCPU
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(harness, j['src'], j['variant'], **j['hk']) for j in jobs]
            exes = [f.result() for f in futs]
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(self._one, j, x) for j, x in zip(jobs, exes)]
            for f in futs:
                f.result()

    def _one(self, j, exe):
        if self.found_fresh() or (self.quick and time.time() - self.t0 > 600):
            with _glock:
                self.skipped += 1
            return None
        kw = dict(j['kw'])
        if self.quick:
            kw['timeout'] = min(kw.get('timeout', 250), 250)
        r = execute(exe, j['args'], **kw)
        hang = r.timed_out or any(k.startswith('hang') for k, _ in r.viols)
        if hang:
            if self.found_fresh():
                with _glock:
                    self.skipped += 1
                return None
            if self.quick and time.time() - self.t0 > 600:
                with _glock:
                    self.absorb(r, j)
                return r
            r2 = execute(exe, j['args'], **kw)      # re-run once before reporting a hang
            self.retried.append(' '.join(os.path.basename(c) for c in r.cmd))
            if r.timed_out and not r.viols or not r2.viols and not r2.timed_out:
                r = r2
        with _glock:
            self.absorb(r, j)
        return r

    def found_fresh(self):
        if self.known is None:
            self.known = {k['key'] for k in load_known(self.pid)}
        with _glock:
            return any(v[0] not in self.known for v in self.viols)

    def absorb(self, r, j=None):
        self.runs += 1
        for k, v in r.stats.items():
            if k.startswith('max_'):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for s in r.samples:
            if len(self.samples) < 12 and s not in self.samples:
                self.samples.append(s)
        self.dist |= r.dist
        for k, d in r.viols:
            self.viols.append((k, d, r, j))
        if r.timed_out:
            self.errors.append('timeout: %s' % ' '.join(r.cmd))
        elif not r.viols and r.rc != 0:
            self.errors.append('harness exit %s: %s\n%s\n%s' % (r.rc, ' '.join(r.cmd), r.out[-800:], r.err[-1500:]))

    def violation(self, key, detail, r=None):
        self.viols.append((key, detail, r, None))

    # --- verdict ---------------------------------------------------------------------------
    def finish(self, level='exploration'):
        known = load_known(self.pid)
        os.makedirs(REPLAYS, exist_ok=True)
        fresh, seen_known, reported = [], {}, {}
        for k, d, r, j in self.viols:
            hit = next((kf for kf in known if kf['key'] == k), None)
            if hit:
                seen_known[hit['key']] = hit
            else:
                fresh.append((k, d, r, j))
        for kf in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['text']))
        for k, d, r, j in fresh:
            if k in reported:
                continue
            n = len(reported)
            path = os.path.join(REPLAYS, '%s-%s-%d.json' % (self.pid, time.strftime('%H%M%S'), n))
            reported[k] = path
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, key=k, detail=d, seed=self.seed, tier=self.tier, src_hash=src_hash(),
                               command=r.cmd if r else None, harness=j and j['src'], variant=j and j['variant'],
                               args=j and j['args'], hk=j and {a: b for a, b in j['hk'].items()},
                               env=j and j['kw'].get('env'),
                               stdout_tail=r.out[-4000:] if r else '', stderr_tail=r.err[-8000:] if r else ''), f, indent=1)
            if n < 8:
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  key=%s %s' % (k, d[:700]))
        for name, mn in self.min_required.items():
            if self.stats.get(name, 0) < mn and not fresh:
                if name.startswith(('inj_', 'huge_')) or name in ('interrupted_waits', 'open_faults'):
                    # the faults need the library to use the interposed calls: weaker evidence, not a failure
                    self.notes.append('fewer injected faults than usual: %s=%d < %d' % (name, self.stats.get(name, 0), mn))
                    continue
                self.errors.append('monitor observed too little: %s=%d < %d' % (name, self.stats.get(name, 0), mn))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(evaluations=int(self.stats.get('evaluations', 0)), distinct_nontrivial=len(self.dist),
                                rule=self.rule, samples=self.samples or ['(none)'], processes=self.runs,
                                observed={k: v for k, v in sorted(self.stats.items()) if k != 'evaluations'},
                                hang_retries=self.retried, jobs_skipped=self.skipped, notes=self.notes, src_hash=src_hash(), **self.extra_cov),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(reported),
                  known_findings=[k['key'] for k in known], errors=[e[:500] for e in self.errors])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if reported:
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print('CHECK-ERROR %s: %s' % (self.pid, e))
            return 2
        print('OK %s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %s' % (
            self.pid, self.tier, self.seed, ev['coverage']['evaluations'], len(self.dist), ev['wall_s'],
            ' '.join('%s=%d' % kv for kv in sorted(self.stats.items()) if kv[0] != 'evaluations')))
        return 0


def load_known(pid):
    """finding: property=<id> key=<key> <text>   (fixed: lines suppress nothing)"""
    res = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res.append(dict(key=m.group(2), text=m.group(3).strip()))
    except OSError:
        pass
    return res
