"""Shared machinery of the checks: building the code under test, running TLC,
running drivers, judging traces, writing evidence and replay files."""
import atexit, glob, json, os, re, shutil, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DURUS_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'


class Machinery(Exception):
    """The check itself could not do its work."""


class CodeDied(Exception):
    """The code under test ended the process that ran it, or never returned."""
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


class Enough(Exception):
    """There are violations already, and the rest would take long."""


CURRENT = []


def pick(quick, thorough):
    return thorough if THOROUGH else quick


_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='durusverif_')
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


_lib = None

def build():
    """Copy the code of the working tree and build its C extension there."""
    global _lib
    if _lib is not None:
        return _lib
    lib = os.path.join(scratch(), 'lib')
    os.makedirs(os.path.join(lib, 'durus'))
    for f in glob.glob(os.path.join(REPO, 'durus', '*.py')) + \
            glob.glob(os.path.join(REPO, 'durus', '*.[ch]')):
        shutil.copy(f, os.path.join(lib, 'durus'))
    shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(lib, 'bin'))
    info = json.loads(subprocess.check_output(
        [PY, '-c', 'import sysconfig,json;print(json.dumps([sysconfig.get_path("include"),'
         'sysconfig.get_config_var("EXT_SUFFIX")]))'], text=True))
    out = os.path.join(lib, 'durus', '_persistent' + info[1])
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I', info[0], '-o', out,
                        os.path.join(lib, 'durus', '_persistent.c')],
                       capture_output=True, text=True)
    if r.returncode:
        raise Machinery('the C extension does not build: ' + r.stderr[-2000:])
    _lib = lib
    return lib


def driver_env(pure=False, **extra):
    env = dict(os.environ)
    env.pop('PYTHONSTARTUP', None)
    env['PYTHONPATH'] = build() + ':' + os.path.join(VERIF, 'drivers')
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['TMPDIR'] = scratch()
    env['DURUS_PURE'] = '1' if pure else ''
    env.update({k: str(v) for k, v in extra.items()})
    return env


def _spec_of(args):
    try:
        return json.load(open(args[0]))
    except Exception:
        return [str(a) for a in args]


def run_driver(name, args, pure=False, timeout=600, env=None):
    """Run drivers/<name>.py; it must exit 0 and write what it was asked for."""
    if not THOROUGH:
        if CURRENT and CURRENT[0].violations and time.time() - CURRENT[0].t0 > 200:
            raise Enough()
        timeout = min(timeout, 500)
    e = driver_env(pure, **(env or {}))
    # a quarter of the drivers run with all logging on
    try:
        e['DURUS_LOUD'] = '1' if zlib.crc32(open(args[0], 'rb').read()) % 4 == 0 else ''
    except (OSError, TypeError):
        pass
    cmd = [PY, os.path.join(VERIF, 'drivers', name + '.py')] + [str(a) for a in args]
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout,
                           errors='replace')
    except subprocess.TimeoutExpired:
        raise CodeDied('driver %s did not finish' % name, dict(args=_spec_of(args)))
    if r.returncode < 0:
        raise CodeDied('process ended by signal %d' % -r.returncode,
                       dict(args=_spec_of(args), stderr=r.stderr[-2000:]))
    if r.returncode:
        files = re.findall(r'^  File "([^"]*)", line', r.stderr, re.M)
        if files and files[-1].startswith(build()):
            raise CodeDied('unexpected exception: ' + r.stderr.strip().splitlines()[-1][:150],
                           dict(args=_spec_of(args), stderr=r.stderr[-3000:]))
        last = (r.stderr.strip().splitlines() or [''])[-1]
        if last.startswith(('rt.Hang: ', 'Hang: ')):
            raise CodeDied('no answer: ' + last.split(': ', 1)[1][:150], dict(args=_spec_of(args), stderr=r.stderr[-3000:]))
        raise Machinery('driver %s failed (%s): %s' % (
            name, r.returncode, (r.stdout[-1500:] + r.stderr[-3000:])))
    return r


def parallel(jobs, workers=None):
    """jobs: list of callables; returns their results in order."""
    with ThreadPoolExecutor(max_workers=workers or 8) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


# ------------------------------------------------------------------------ TLC
_tlc_n = 0

def tlc(module, cfg=None, env=None, args=(), workers=8, timeout=800, heap='4g'):
    """Run TLC on a module of specs/ in a private directory."""
    global _tlc_n
    _tlc_n += 1
    d = tempfile.mkdtemp(prefix='tlc', dir=scratch())
    for f in glob.glob(os.path.join(VERIF, 'specs', '*')):
        shutil.copy(f, d)
    if cfg is not None and '\n' in cfg:
        with open(os.path.join(d, 'run.cfg'), 'w') as fp:
            fp.write(cfg)
        cfg = 'run.cfg'
    cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-noGenerateSpecTE', '-metadir', os.path.join(d, 'states'),
           '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, True)
        raise Machinery('TLC did not finish on ' + module)
    out = r.stdout
    res = dict(out=out, rc=r.returncode, states=0, transitions=0)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if m:
        res['transitions'] = int(m[-1][0].replace(',', ''))
        res['states'] = int(m[-1][1].replace(',', ''))
    shutil.rmtree(d, True)
    return res


def model_check(module, cfg=None, **kw):
    """Exhaustive check of a design; a failure is a failure of the machinery
    (the design does not depend on the code under test)."""
    r = tlc(module, cfg, **kw)
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        raise Machinery('model checking %s failed:\n%s' % (module, r['out'][-3000:]))
    return r


_GEN = re.compile(r'<<\s*"GEN",\s*("(?:[^"\\]|\\.)*")\s*>>')

def parse_gen(out):
    return [json.loads(json.loads(m)) for m in _GEN.findall(out)]


def simulate(module, cfg, num, depth, seed, **kw):
    """Behaviours generated by TLC: the module prints <<"GEN", json>>."""
    r = tlc(module, cfg, args=['-simulate', 'num=%d' % num, '-depth', str(depth),
                               '-seed', str(seed)], workers=1, **kw)
    out = parse_gen(r['out'])
    if not out:
        raise Machinery('no behaviour was generated by %s:\n%s' % (module, r['out'][-3000:]))
    return out, r


# TLC breaks long values into lines
_BAD = re.compile(r'<<\s*"(BAD|DONE)",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>')

def _judge(module, traces, const, workers, timeout, env):
    path = os.path.join(scratch(), 'traces%d_%d.ndjson' % (time.time_ns(), id(traces)))
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps({'ev': t['ev']}, separators=(',', ':')) + '\n')
    cfg = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + const
    e = {'TRACES': path}
    e.update(env or {})
    r = tlc(module, cfg, env=e, workers=workers, timeout=timeout)
    os.unlink(path)
    done, bad = set(), []
    for verdict, tid, pos, clause in _BAD.findall(r['out']):
        i = int(tid) - 1
        if verdict == 'DONE':
            done.add(i)
        else:
            bad.append((i, int(pos), clause))
    missing = sorted(set(range(len(traces))) - done - set(b[0] for b in bad))
    return bad, missing, r


def _sorted(bad):
    # what concerns only the driver comes last
    return sorted(set(bad), key=lambda b: (b[2].startswith('driver: '), b))


def judge(module, traces, const='', workers=8, timeout=800, env=None):
    """Validate traces (list of dicts with a list of events under "ev") with a
    trace specification.  Returns (list of (index, position, clause), stats).
    A trace with a value that the specification cannot even compare (an
    evaluation error) is isolated by bisection and reported as bad."""
    if not traces:
        raise Machinery('no traces for ' + module)
    bad, missing, r = _judge(module, traces, const, workers, timeout, env)
    stats = dict(states=r['states'], transitions=r['transitions'])
    if r['rc'] == 0 and not missing:
        return _sorted(bad), stats
    if 'Error: ' not in r['out'] or len(missing) == len(traces) and 'state' not in r['out']:
        raise Machinery('%s gave no verdict:\n%s' % (module, r['out'][-4000:]))
    todo, culprits, budget = [missing], [], 40
    while todo and budget and len(culprits) < 5:
        part = todo.pop()
        budget -= 1
        b, m, r2 = _judge(module, [traces[i] for i in part], const, workers, timeout, env)
        bad += [(part[i], pos, clause) for i, pos, clause in b]
        m = [part[i] for i in m]
        if len(m) == 1 and r2['rc'] != 0:
            text = re.findall(r'^Error: (.*)', r2['out'], re.M)
            if not text or 'evaluat' not in r2['out'] and 'Attempted' not in r2['out']:
                raise Machinery('%s gave no verdict:\n%s' % (module, r2['out'][-4000:]))
            culprits.append((m[0], len(traces[m[0]]['ev']),
                             'an observation the specification cannot interpret'))
        elif m:
            todo += [x for x in (m[:len(m) // 2], m[len(m) // 2:]) if x]
    if not culprits and (todo or not bad):
        raise Machinery('%s gave no verdict:\n%s' % (module, r['out'][-4000:]))
    return _sorted(bad + culprits), stats


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


# ------------------------------------------------------------- known findings
def known_findings():
    """known_findings.txt: 'known: property=<id> key=<regex> <text>' entries."""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return res


# ------------------------------------------------------------------ a check run
class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        CURRENT[:] = [self]
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.detail = {}
        self.violations = []
        self.known = []
        self.assumptions = []

    def model(self, name, r):
        self.cov['states'] += r['states']
        self.cov['transitions'] += r['transitions']
        self.detail.setdefault('models', []).append(
            dict(module=name, states=r['states'], transitions=r['transitions']))

    def traces(self, kind, traces, stats=None):
        self.cov['traces_validated_against_impl'] += len(traces)
        d = self.detail.setdefault('trace_kinds', {})
        k = d.setdefault(kind, dict(traces=0, events=0))
        k['traces'] += len(traces)
        k['events'] += sum(len(t['ev']) for t in traces)
        ops = self.detail.setdefault('events_by_kind', {})
        for t in traces:
            for e in t['ev']:
                key = '%s.%s' % (kind, e.get('op'))
                ops[key] = ops.get(key, 0) + 1
        if stats:
            self.cov['states'] += stats['states']
            self.cov['transitions'] += stats['transitions']
        if traces and len(self.cov['samples']) < 3:
            t = min(traces, key=lambda t: abs(len(t['ev']) - 12))
            self.cov['samples'].append(dict(kind=kind, meta=t.get('meta'), ev=t['ev'][:40]))

    def violation(self, key, data):
        """key: short text identifying the failing clause and place."""
        for prop, rx, text in known_findings():
            if prop == self.prop and rx.search(key):
                if text not in self.known:
                    self.known.append(text)
                return
        self.violations.append((key, data))

    def finish(self):
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(self.cov, **self.detail), assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for text in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        if self.violations:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for n, (key, data) in enumerate(self.violations):
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 2 or len(seen) > 8:
                    continue
                path = os.path.join(rd, '%s_%d.json' % (self.prop, n))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, key=key, data=data), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  ' + key)
            sys.stdout.flush()
            return 1
        print('OK property=%s traces=%d states=%d wall=%.1fs' % (
            self.prop, self.cov['traces_validated_against_impl'], self.cov['states'],
            time.time() - self.t0))
        return 0
