"""Shared machinery of the checks: scratch space, building extension modules from /repo's working
tree, running driver processes under sanitizers, collecting what the monitors saw, verdicts."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VF_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
INC = os.path.join(LIB, 'include')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = os.cpu_count() or 4
PYINC = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], text=True).strip()

_scratch = None
_scratch_lock = threading.Lock()


def scratch():
    """a scratch directory that is removed when the check ends"""
    global _scratch
    with _scratch_lock:
        if _scratch is None: _scratch = _make_scratch()
    return _scratch


def _make_scratch():
    base = os.environ.get('VF_SCRATCH_BASE') or tempfile.gettempdir()
    path = tempfile.mkdtemp(prefix='vf-%s-' % os.path.basename(sys.argv[0]).replace('.py', ''), dir=base)
    if not os.environ.get('VF_KEEP'):
        atexit.register(lambda: shutil.rmtree(path, ignore_errors=True))
    return path


def base_env(**extra):
    env = {
        'PATH': '/opt/pybindgen-tools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8',
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONPATH': REPO + ':' + LIB,
        'VERIF_SEED': str(SEED), 'VERIF_TIER': TIER,
        'TMPDIR': scratch(),
    }
    if os.environ.get('VF_MULTI'):
        env['VF_MULTI'] = os.environ['VF_MULTI']
    env.update(extra)
    return env


class Inconclusive(Exception):
    pass


class BuildError(Exception):
    """generation or compilation of a module that pybindgen should support failed"""
    def __init__(self, stage, text):
        Exception.__init__(self, '%s failed:\n%s' % (stage, text))
        self.stage, self.text = stage, text


def run(cmd, timeout=300, env=None, cwd=None, input=None):
    """-> (rc, stdout, stderr); rc None means the watchdog fired"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         env=env or base_env(), cwd=cwd or scratch(), start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')


CXX_BASE = ['-std=gnu++14', '-fPIC', '-g1', '-O0', '-w', '-I' + INC, '-isystem', PYINC]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-fno-sanitize=alignment']
TSAN = ['-fsanitize=thread']


def _lib(name):
    return os.path.realpath(subprocess.check_output(['g++', '-print-file-name=' + name], text=True).strip())


_preloads = {}


def preload(kind):
    if kind not in _preloads:
        _preloads[kind] = {'asan': lambda: _lib('libasan.so') + ' ' + _lib('libubsan.so'),
                           'tsan': lambda: _lib('libtsan.so'), 'plain': lambda: ''}[kind]()
    return _preloads[kind]


def generate(script, outdir, name='gen', timeout=120, env=None):
    """run a generator script (a file that uses pybindgen from /repo) in its own process; args: outdir"""
    argv = [PY, '-m', 'vf.multi', script, outdir] if os.environ.get('VF_MULTI') else [PY, script, outdir]
    rc, out, err = run(argv, timeout=timeout, env=env or base_env(), cwd=outdir)
    if rc is None:
        raise Inconclusive('generator timed out: %s' % script)
    if rc != 0:
        raise BuildError('generation', (out[-1500:] + '\n' + err[-3500:]))
    if os.environ.get('VF_REPEAT'):     # the same code has to come out of every process
        first = generated(outdir)
        for hashseed in os.environ['VF_REPEAT'].split(','):
            rc, _, err2 = run(argv, timeout=timeout, env=dict(env or base_env(), PYTHONHASHSEED=hashseed), cwd=outdir)
            if rc is None:
                raise Inconclusive('generator timed out: %s' % script)
            again = generated(outdir)
            differ = sorted(n for n in set(first) | set(again) if first.get(n) != again.get(n))
            if rc or differ:
                n = differ[0] if differ else ''
                import difflib
                raise BuildError('determinism', 'error: with PYTHONHASHSEED=%s: %s %s\n%s' % (hashseed, differ, rc and err2[-1500:] or '', '\n'.join(list(difflib.unified_diff(
                    first.get(n, '').split('\n'), again.get(n, '').split('\n'), n, n, lineterm='', n=1))[:60])))
    return out, err


def generated(outdir):
    r = {}
    for n in os.listdir(outdir):
        if n.endswith(('.cc', '.h', '.sections')):
            with open(os.path.join(outdir, n), errors='replace') as f:
                r[n] = f.read()
    return r


def compile_module(sources, so, flavour='asan', extra=(), timeout=600, cxx='g++', cc=False, link=()):
    flags = list(CXX_BASE)
    if flavour == 'asan':
        flags += SAN
    elif flavour == 'tsan':
        flags += TSAN + ['-O1']
    objs = []
    compiler = cxx
    sources = list(sources)
    if os.environ.get('VF_MULTI'):      # what vf.multi split off
        for src in list(sources):
            try:
                with open(os.path.splitext(src)[0] + '.sections') as f:
                    sources += json.load(f)['sources']
            except OSError:
                pass

    def one(src):
        obj = so + '.' + os.path.basename(src) + '.o'
        fl = list(flags)
        comp = compiler
        if src.endswith('.c'):
            comp = 'gcc'
            fl = [f for f in fl if not f.startswith('-std=')]
        cmd = [comp] + fl + list(extra) + ['-I' + os.path.dirname(src), '-I' + os.path.dirname(so), '-c', src, '-o', obj]
        for attempt in (0, 1):
            rc, out, err = run(cmd, timeout=timeout)
            if rc == 0:
                return obj
            if rc is None or rc < 0 or 'Killed' in err or 'Cannot allocate' in err or 'No space' in err:
                time.sleep(2)
                continue
            raise BuildError('compilation', ' '.join(cmd) + '\n' + err[:6000])
        raise Inconclusive('compiler did not finish: %s' % err[-500:])
    if len(sources) > 1:
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, sources))
    else:
        objs = [one(sources[0])]
    link = [cxx, '-shared', '-o', so] + objs + (SAN[:1] if flavour == 'asan' else TSAN if flavour == 'tsan' else []) + list(link) + ['-ldl']
    rc, out, err = run(link, timeout=timeout)
    if rc != 0:
        if rc is None or rc < 0:
            raise Inconclusive('linker did not finish')
        raise BuildError('link', ' '.join(link) + '\n' + err[:4000])
    return so


def pmap(fn, items, jobs=None):
    items = list(items)
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


_SAN_RE = re.compile(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|Fatal Python error: [^\n]*|ERROR: LeakSanitizer[^\n]*|terminate called[^\n]*)')


class DriverResult(object):
    def __init__(self):
        self.rc = None
        self.stdout = self.stderr = ''
        self.summary = None
        self.lines = []

    @property
    def san(self):
        m = _SAN_RE.search(self.stderr)
        return m.group(1) if m else None

    @property
    def last_op(self):
        for l in reversed(self.lines):
            if 'op' in l:
                return l['op']
        return None

    def crash_text(self):
        """None if the process ended normally, else what ended it"""
        if self.rc is None:
            return None
        s = self.san
        if s:
            return s
        if self.rc < 0:
            try:
                return 'killed by ' + signal.Signals(-self.rc).name
            except ValueError:
                return 'killed by signal %d' % -self.rc
        return None


def drive(driver, modpath_dir, flavour='asan', args=(), timeout=300, env=None, pyargs=()):
    """run a driver program in a process of its own; the driver reports through the file VF_OUT"""
    r = DriverResult()
    fd, outf = tempfile.mkstemp(prefix='drv', dir=scratch())
    os.close(fd)
    e = base_env(VF_OUT=outf, VF_FLAVOUR=flavour)
    e['PYTHONPATH'] = LIB + ':' + (modpath_dir if isinstance(modpath_dir, str) else ':'.join(modpath_dir))
    if flavour in ('asan', 'tsan'):
        e['LD_PRELOAD'] = preload(flavour)
        e['PYTHONMALLOC'] = 'malloc'
        e['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
        e['TSAN_OPTIONS'] = 'halt_on_error=0:report_signal_unsafe=0'
    if env:
        e.update(env)
    r.rc, r.stdout, r.stderr = run([PY] + list(pyargs) + [driver] + list(args), timeout=timeout, env=e)
    with open(outf) as f:
        for line in f:
            try:
                r.lines.append(json.loads(line))
            except ValueError:
                pass
    for l in r.lines:
        if 'summary' in l:
            r.summary = l['summary']
    os.unlink(outf)
    return r


# ------------------------------------------------------------------------------------------------

class Check(object):
    def __init__(self, prop, rule, level='exploration', assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct_set = set()
        self.samples = []
        self.extra = {}
        self.violations = {}
        self.inconclusive = []
        self.known_seen = {}
        self.known = load_known(prop)
        self.counters = {}
        self.rng = random.Random('%s/%s' % (prop, SEED))
        self.need = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def ev(self, n=1):
        self.evaluations += n

    def distinct(self, key):
        if not isinstance(key, str):
            key = json.dumps(key, sort_keys=True, default=str)
        self.distinct_set.add(hashlib.md5(key.encode()).hexdigest())

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def require(self, counter, at_least):
        """the deciding monitor must have seen at least this many events, else: inconclusive"""
        self.need[counter] = at_least

    def violation(self, mech, msg, replay=None):
        """mech: the mechanism that failed (a stable key); matched against the known findings"""
        for k in self.known:
            if re.fullmatch(k['mech'], mech):
                self.known_seen.setdefault(k['mech'], (k, mech, msg))
                return
        v = self.violations.setdefault(mech, {'mech': mech, 'count': 0, 'msgs': [], 'replay': replay})
        v['count'] += 1
        if len(v['msgs']) < 4:
            v['msgs'].append(msg)

    def inconc(self, msg):
        self.inconclusive.append(msg)

    def absorb(self, r, label=''):
        """take over what a driver process reported.  Returns True if it ran to its end."""
        for l in r.lines:
            if 'violation' in l:
                v = l['violation']
                self.violation(v['mech'], '%s%s' % (label and label + ': ', v['msg']), v.get('replay'))
            elif 'distinct' in l:
                self.distinct(l['distinct'])
            elif 'sample' in l:
                self.sample(l['sample'])
        if r.summary:
            self.evaluations += r.summary.get('evaluations', 0)
            for k, n in r.summary.get('counters', {}).items():
                self.count(k, n)
            for d in r.summary.get('distinct', []):
                self.distinct_set.add(d)
        crash = r.crash_text()
        if crash is not None:
            op = r.last_op or '?'
            key = crash
            key = re.sub(r'0x[0-9a-f]+|==\d+==|pc|bp|sp|\(.*\)|\bT\d+\b', '', key)
            key = re.sub(r'ERROR: AddressSanitizer: (\S+).*', r'asan-\1', key)
            self.violation('crash[%s]%s' % (op if isinstance(op, str) else op.get('k', '?'), ''),
                           '%s: process died: %s during %s\n%s' % (label, crash, op, r.stderr[-3000:]),
                           {'op': op, 'stderr': r.stderr[-6000:]})
            return False
        if r.rc is None:
            self.inconc('%s: watchdog fired, last op %r' % (label, r.last_op))
            return False
        if r.rc == 1 and 'Traceback (most recent call last)' in r.stderr and 'MemoryError' not in r.stderr:
            # the workload is written against what the property promises: an exception that it did not expect is an observation
            last = [l for l in r.stderr.strip().split('\n') if l.strip() and not l.startswith(' ')][-1]
            self.violation('unexpected-exception:%s' % re.sub(r'0x[0-9a-f]+', '', last)[:80], '%s: %s\n(last op %r)\n%s' % (label, last, r.last_op, r.stderr[-2500:]), {'op': r.last_op})
            return False
        if r.rc != 0 or r.summary is None:
            self.inconc('%s: driver ended with %s, last op %r: %s' % (label, r.rc, r.last_op, r.stderr[-2000:]))
            return False
        return True

    def build_failed(self, e, label=''):
        if isinstance(e, BuildError):
            first = [l for l in e.text.split('\n') if 'error' in l.lower() or 'Error' in l]
            self.violation('build:%s:%s' % (e.stage, label),
                           '%s: a module made of supported declarations could not be built (%s): %s\n%s'
                           % (label, e.stage, first[:3], e.text[-2500:]), {'text': e.text})
        else:
            self.inconc('%s: %s' % (label, e))

    def finish(self):
        wall = time.time() - self.t0
        for c, n in self.need.items():
            if self.counters.get(c, 0) < n:
                self.inconc('monitor %s observed only %d of the %d events it needs' % (c, self.counters.get(c, 0), n))
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct_set), 'rule': self.rule,
               'samples': self.samples or ['(none)'], 'observed': self.counters}
        cov.update(self.extra)
        if self.known_seen:
            cov['known_findings_reproduced'] = sorted(self.known_seen)
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.violations)}
        if self.inconclusive:
            cov['inconclusive'] = self.inconclusive[:10]
        evidence = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(evidence, exist_ok=True)
        with open(os.path.join(evidence, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            seen = self.known_seen.get(k['mech'])
            print('KNOWN-FINDING: property=%s %s%s' % (self.prop, k['what'], '' if seen else ' [not reached on this run]'))
        for v in list(self.violations.values())[:40]:
            d = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'replay'))
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (self.prop, hashlib.md5(v['mech'].encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'rerun': 'VERIF_SEED=%d VERIF_TIER=%s %s' % (SEED, TIER, ' '.join(sys.argv)), **v}, f, indent=1, default=str)
            print('  [%s] x%d %s' % (v['mech'], v['count'], v['msgs'][0][:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('%s %s: %d evaluations, %d distinct, %.1fs, %s' % (self.prop, TIER, self.evaluations, len(self.distinct_set), wall,
                                                              json.dumps(self.counters, sort_keys=True)))
        sys.stdout.flush()
        if self.violations:
            sys.exit(1)
        if self.inconclusive:
            print('INCONCLUSIVE: ' + '; '.join(self.inconclusive)[:3000])
            sys.exit(2)
        sys.exit(0)


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) mech=(\S+) (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({'mech': m.group(2), 'what': m.group(3)})
    return out


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)
    return path
