"""Harness core: environment set-up, generated-input driver, shrinking, replay and evidence files.

Every check module (checks/c*.py) defines
    PROPERTY  = 'Cnn'
    SUBS      = [Sub(...), ...]
    PROBES    = [Probe(...), ...]            (optional: known findings, one specific input each)

A Sub is one generator + one oracle.  Cases are plain JSON data, so that the shrunk failing case *is* the
replay file.
"""
import sys, os, json, time, zlib, shutil, tempfile, traceback, signal, resource, logging, hashlib, atexit

REPO = os.environ.get('VERIF_REPO', '/repo')      # (only ever changed by hand when developing the checks)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 120.0        # CPU seconds for ONE case; typical cases take milliseconds
MEMORY_LIMIT = 6 << 30


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """One case used CASE_CPU_LIMIT seconds of CPU time."""


class Discard(Exception):
    """The generated case is outside the domain of the property (counted, never a violation)."""


def check(condition, *message):
    if not condition:
        raise Violation(' '.join(m if isinstance(m, str) else repr(m) for m in message) or 'check failed')


def equal(got, want, *what):
    if got != want:
        raise Violation('%s: got %s but expected %s' % (' '.join(str(w) for w in what), short(got), short(want)))


def short(x, n=1500):
    s = x if isinstance(x, str) and '\n' in x else repr(x)
    return s if len(s) <= n else s[:n * 2 // 3] + ' … ' + s[-n // 3:]


# ------------------------------------------------------------------------------------------------ environment
_scratch = None


def scratch():
    """This run's private scratch folder (also $HOME and $TMPDIR), removed at exit."""
    return os.environ['BOSV_SCRATCH']


def ensure_environment():
    """Re-exec once with a scratch HOME, fixed hash seed, UTF-8 and no byte-code files."""
    if os.environ.get('BOSV_SCRATCH'):
        return
    base = tempfile.mkdtemp(prefix='bosv_')
    env = dict(os.environ)
    for d in ('home', 'tmp', 'pyc', 'cwd'):
        os.mkdir(os.path.join(base, d))
    env.update(BOSV_SCRATCH=base, HOME=os.path.join(base, 'home'), TMPDIR=os.path.join(base, 'tmp'),
               PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(base, 'pyc'),
               LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTHONUTF8='1')
    env.pop('PYTHONPATH', None)
    import subprocess
    try:
        p = subprocess.Popen([sys.executable] + sys.argv, env=env, cwd=env['BOSV_SCRATCH'] + '/cwd')
        try:
            rc = p.wait()
        except BaseException:
            p.kill(); p.wait()
            raise
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if rc < 0:
        print('check ended by signal', -rc, file=sys.stderr)
        rc = 2
    sys.exit(rc)


_sut = None


def sut():
    """Import BibleOrgSys from /repo's working tree; returns the BibleOrgSysGlobals module."""
    global _sut
    if _sut is not None:
        return _sut
    # The loaders take a tracked pickle instead of its XML source when the pickle is newer: make the sources newest.
    for root, _d, files in os.walk(os.path.join(REPO, 'BibleOrgSys', 'DataFiles')):
        for f in files:
            if f.endswith('.xml'):
                try: os.utime(os.path.join(root, f))
                except OSError: pass
    sys.path.insert(0, REPO)
    for p in ('/opt/venv/lib/python3.12/site-packages',):
        if p not in sys.path: sys.path.append(p)
    logging.disable(logging.CRITICAL)
    devnull = open(os.devnull, 'w')
    keep = sys.stdout
    sys.stdout = devnull
    try:
        os.getlogin = lambda: 'nobody'
        from BibleOrgSys import BibleOrgSysGlobals as G
        G.preloadCommonData()
    finally:
        sys.stdout = keep
    G.verbosityLevel = 0
    G.maxProcesses = 1
    G.alreadyMultiprocessing = True
    _sut = G
    return G


class quiet:
    """Discard what the code under test prints."""
    def __enter__(self):
        self.keep = sys.stdout, sys.stderr
        if not hasattr(quiet, 'null'): quiet.null = open(os.devnull, 'w')
        sys.stdout = sys.stderr = quiet.null
    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.keep


class TempDir:
    """A fresh folder below the scratch folder, removed afterwards."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=os.environ['TMPDIR'])
        return self.path
    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ sub-checks
class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, rule='', shards=1, examples=(), sut_setup=None,
                 exhaustive=None):
        """strategy: a zero-argument function returning a hypothesis strategy for JSON-able cases (or None).
        exhaustive: a zero-argument function returning a finite list of cases, all of which are run instead."""
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.rule, self.shards, self.examples, self.sut_setup = rule, shards, list(examples), sut_setup
        self.exhaustive = exhaustive


class Probe:
    """A listed known finding: `run` raises Violation for as long as the defect is there."""
    def __init__(self, name, description, run):
        self.name, self.description, self.run = name, description, run


class Recorder:
    """Counts cases and classes of one sub-check."""
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self._case = None
        self._is_nontrivial = False
    def begin(self, case):
        self.evaluations += 1
        self._case, self._is_nontrivial = case, False
    def label(self, *names):
        for n in names: self.classes[n] = self.classes.get(n, 0) + 1
    def interesting(self, condition=True):
        """Mark the current case as non-trivial by this sub-check's rule."""
        if condition and not self._is_nontrivial:
            self._is_nontrivial = True
            s = json.dumps(self._case, ensure_ascii=False, sort_keys=True)
            h = hashlib.md5(s.encode('utf-8', 'surrogatepass')).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 and len(s) < 4000 or (len(self.samples) < 6 and len(self.nontrivial) in (25, 60, 150)):
                    self.samples.append(s[:3000])


def _on_cpu_limit(signum, frame):
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    raise Hang('one case used %g s of CPU time' % CASE_CPU_LIMIT)


def run_one(sub, case, rec):
    """Run one case; any exception other than Discard is a violation of the property for that case."""
    rec.begin(case)
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        with quiet():
            sub.run(case, rec)
    except Discard:
        rec.label('discarded')
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT):
            raise KeyboardInterrupt('environment: %r' % e)
        raise
    except SystemExit as e:
        raise Violation('the code under test called sys.exit(%r)' % (e.code,))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def derive_seed(seed, *names):
    return (seed * 1000003 + zlib.crc32('/'.join(str(n) for n in names).encode())) & 0x7fffffff


def drive(sub, seed, n, shard):
    """Returns a result dict for one sub-check shard."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    if sub.sut_setup: sub.sut_setup()
    rec = Recorder()
    failing = []           # [(case, message)], the last one is hypothesis' minimal one

    def attempt(case):
        try:
            run_one(sub, case, rec)
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except BaseException as e:
            if type(e).__module__.startswith('hypothesis'): raise
            msg = ''.join(traceback.format_exception_only(type(e), e)).strip()
            tb = traceback.format_exc()
            failing.append((case, msg, tb))
            if isinstance(e, Hang): raise
            if not isinstance(e, Exception):
                raise Violation('%s: %s' % (type(e).__name__, e))
            raise

    def result(**kw):
        r = dict(sub=sub.name, shard=shard, evaluations=rec.evaluations, nontrivial=sorted(rec.nontrivial),
                 classes=rec.classes, samples=rec.samples, failure=None)
        r.update(kw)
        return r

    if shard == 0:
        for case in sub.examples:
            try: attempt(case)
            except Exception: return result(failure=failing[-1])
            except Hang: return result(failure=failing[-1])
    if sub.exhaustive is not None:
        cases = sub.exhaustive()
        for i, case in enumerate(cases):
            if i % sub.shards != shard: continue
            try: attempt(case)
            except (Exception, Hang): return result(failure=failing[-1])
        return result(exhaustive=True)

    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    strategy = sub.strategy()

    @hypothesis.seed(derive_seed(seed, sub.name, shard))
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, derandomize=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False)
    @given(strategy)
    def test(case):
        attempt(case)

    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 60      # a shrunk case is nice to have, an answer in time is a must
    try:
        with quiet():
            test()
    except Hang:
        return result(failure=failing[-1])
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if not failing:
            raise
        return result(failure=failing[-1], note=type(e).__name__)
    return result()


# ------------------------------------------------------------------------------------------------ running a check
def _child(job, out):
    sub, seed, n, shard = job
    try:
        r = drive(sub, seed, n, shard)
    except BaseException as e:
        r = dict(sub=sub.name, shard=shard, error=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
    with open(out, 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(r, f)


def run_check(module, tier, seed):
    t0 = time.time()
    prop = module.PROPERTY
    only = os.environ.get('BOSV_ONLY')
    scale = float(os.environ.get('BOSV_SCALE', '1'))
    jobs = []
    for sub in module.SUBS:
        if only and sub.name not in only.split(','): continue
        n = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, int(n * scale))
        for shard in range(sub.shards):
            jobs.append((sub, seed, max(1, n // sub.shards), shard))
    # import once, then fork
    try:
        sut()
        if hasattr(module, 'setup'):
            with quiet(): _limited_setup(module)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        # The set-up only loads the tables the property is about: if the code cannot do that, the property is broken
        traceback.print_exc()
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-setup.json' % prop)
        with open(path, 'w', encoding='utf-8', errors='surrogatepass') as f:
            json.dump(dict(property=prop, sub='setup', case=None, message=repr(e), traceback=traceback.format_exc()), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    width = int(os.environ.get('BOSV_JOBS', '8'))
    outdir = tempfile.mkdtemp(dir=os.environ['TMPDIR'])
    running, results, errors, queue = {}, [], [], list(enumerate(jobs))
    queue.sort(key=lambda ij: -getattr(ij[1][0], 'weight', 1))
    while queue or running:
        while queue and len(running) < width:
            i, job = queue.pop(0)
            out = os.path.join(outdir, '%d.json' % i)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    home = os.path.join(scratch(), 'job%d' % i)
                    os.makedirs(home + '/tmp'); os.makedirs(home + '/cwd')
                    os.environ['TMPDIR'] = home + '/tmp'; tempfile.tempdir = None
                    os.chdir(home + '/cwd')
                    _child(job, out)
                finally:
                    os._exit(0)
            running[pid] = (i, job, out, time.time())
        pid, status = os.wait()
        if pid not in running: continue
        i, job, out, started = running.pop(pid)
        if os.path.exists(out):
            with open(out, encoding='utf-8', errors='surrogatepass') as f: r = json.load(f)
            r['wall'] = round(time.time() - started, 2)
            (errors if 'error' in r else results).append(r)
        else:
            errors.append(dict(sub=job[0].name, shard=job[3], error='worker ended without a result (status %r)' % status))
        shutil.rmtree(os.path.join(scratch(), 'job%d' % i), ignore_errors=True)
    results.sort(key=lambda r: (r['sub'], r['shard']))

    violations = [r for r in results if r['failure']]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    lines = []
    for r in violations:
        case, msg, tb = r['failure']
        name = '%s-%s-%s.json' % (prop, r['sub'], hashlib.md5(json.dumps(case, sort_keys=True).encode('utf-8', 'surrogatepass')).hexdigest()[:8])
        path = os.path.join(VERIF, 'replays', name)
        with open(path, 'w', encoding='utf-8', errors='surrogatepass') as f:
            json.dump(dict(property=prop, sub=r['sub'], case=case, message=msg, traceback=tb, seed=seed, tier=tier), f,
                      ensure_ascii=True, indent=1)
        print('--- %s/%s: %s' % (prop, r['sub'], msg.encode('utf-8', 'backslashreplace').decode()[:2500]))
        print('    case:', json.dumps(case)[:1500])
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    for e in errors:
        print('ERROR in %s/%s: %s' % (prop, e['sub'], e['error']), file=sys.stderr)

    # Known findings: one specific input each, listed in KNOWN_FINDINGS.txt; anything not listed there is a violation
    known = 0
    listed = set()
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'), encoding='utf-8') as f:
            for line in f:
                bits = line.split()
                if len(bits) > 2 and bits[0] == 'known:' and bits[1] == 'property=' + prop: listed.add(bits[2])
    except FileNotFoundError: pass
    for probe in getattr(module, 'PROBES', []):
        if only: break
        try:
            with quiet(): probe.run()
        except Exception as e:
            if probe.name in listed:
                known += 1
                print('KNOWN-FINDING: property=%s %s' % (prop, probe.description))
            else:
                violations.append(probe)
                path = os.path.join(VERIF, 'replays', '%s-probe-%s.json' % (prop, probe.name))
                with open(path, 'w', encoding='utf-8') as f:
                    json.dump(dict(property=prop, sub='probe', case=probe.name, message=repr(e)), f)
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))

    evaluations = sum(r['evaluations'] for r in results)
    nontrivial = len({(r['sub'], h) for r in results for h in r['nontrivial']})
    subs = {}
    for r in results:
        s = subs.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=set(), classes={}, wall_s=0))
        s['evaluations'] += r['evaluations']
        s['distinct_nontrivial'] |= set(r['nontrivial'])
        s['wall_s'] = round(max(s['wall_s'], r['wall']), 2)
        for k, v in r['classes'].items(): s['classes'][k] = s['classes'].get(k, 0) + v
    for s in subs.values(): s['distinct_nontrivial'] = len(s['distinct_nontrivial'])
    rules = [(s.name + ': ' + s.rule) for s in module.SUBS if s.rule]
    samples = [dict(sub=r['sub'], case=x) for r in results for x in r['samples'][:2]][:24]
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration',
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=nontrivial, rule=' | '.join(rules),
                                  samples=samples, per_sub_check=subs, known_findings=known),
                    wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %d known finding(s), %.1f s'
          % (prop, tier, seed, evaluations, nontrivial, len(violations), known, time.time() - t0))
    if os.environ.get('BOSV_VERBOSE'):
        for k, s in subs.items(): print('   ', k, s)
    for l in lines: print(l)
    sys.stdout.flush()
    if lines: return 1
    if errors: return 2
    return 0


def _limited_setup(module):
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, 2 * CASE_CPU_LIMIT)
    try:
        module.setup()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def replay(module, path):
    with open(path, encoding='utf-8', errors='surrogatepass') as f: data = json.load(f)
    try:
        sut()
        if hasattr(module, 'setup'):
            with quiet(): _limited_setup(module)
    except Exception:
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (module.PROPERTY, path))
        return 1
    if data['sub'] == 'probe':
        for probe in module.PROBES:
            if probe.name == data['case']: probe.run()
        return 0
    if data['sub'] == 'setup':
        print('replay: the code under test initialises'); return 0
    for sub in module.SUBS:
        if sub.name == data['sub']:
            if sub.sut_setup: sub.sut_setup()
            try:
                run_one(sub, data['case'], Recorder())
            except Exception as e:
                traceback.print_exc()
                print('VIOLATION property=%s replay=%s' % (module.PROPERTY, path))
                return 1
            print('replay: the property holds for this case')
            return 0
    print('no such sub-check', data['sub'])
    return 2
