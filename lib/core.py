"""Exploration kernel shared by all the checks.

A check enumerates a finite, deterministic list of cases (``cases(tier)``)
and executes every one of them on the real code (``run(case, ctx)``).  The
kernel distributes the cases over forked workers, counts what was covered,
turns the first violation into a replayable artefact and writes the evidence
file.  Nothing is sampled and no time cap truncates the enumeration: a case
that exceeds the (generous) per-case limit is itself a violation (the code
does not terminate on it).
"""
import atexit
import gc
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ABX_VERIF_REPO', '/repo')
CASE_TIMEOUT = 240


class Violation(Exception):
    """The property does not hold on the explored execution"""


class HarnessError(Exception):
    """The machinery itself failed (never reported as a violation)"""


def require(condition, message, *args):
    if not condition:
        if args:
            message = (message.format(*args) if '{' in message
                       else message % args)
        raise Violation(message)


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch_root():
    """A private scratch directory, removed when the check ends"""
    global _scratch
    if _scratch is None:
        base = None
        for candidate in ('/dev/shm', '/tmp'):
            try:
                st = os.statvfs(candidate)
                if (os.access(candidate, os.W_OK) and
                        st.f_bavail * st.f_frsize > 2 * 10 ** 9):
                    base = candidate
                    break
            except OSError:
                continue
        _scratch = tempfile.mkdtemp(prefix='abxverif-', dir=base)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        os.environ['TMPDIR'] = _scratch
        tempfile.tempdir = _scratch
    return _scratch


class Context(object):
    """What a case gets: an empty directory and counters"""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.dir = None
        self.n = 0
        self.states = set()
        self.transitions = 0
        self.extra = {}

    def reset(self):
        if self.dir is not None:
            try:
                shutil.rmtree(self.dir)
            except OSError:
                os.rename(self.dir, tempfile.mkdtemp(
                    prefix='old', dir=scratch_root()))
        # always the same path: what the code may remember about a file of an
        # earlier case is of no use for the next ones
        self.dir = os.path.join(scratch_root(), 'case')
        os.mkdir(self.dir)
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def sub(self):
        """A fresh sub directory of the case directory"""
        self.n += 1
        d = os.path.join(self.dir, 'd%d' % self.n)
        os.mkdir(d)
        return d

    def state(self, *what):
        """Record a distinct observed state (by content)"""
        self.states.add(hashlib.blake2b(
            repr(what).encode('utf8', 'replace'), digest_size=8).digest())

    def step(self, n=1):
        """Record transitions: calls of the real code"""
        self.transitions += n

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def quiet():
    """Silence what the code under test prints"""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def import_repo():
    """Make ABXpy importable from the working tree of the repository"""
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p != REPO]
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import ABXpy
    where = os.path.abspath(ABXpy.__file__)
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('ABXpy imported from %s' % where)


def preload():
    """Import everything once, before the workers are forked"""
    import importlib
    for name in ('ABXpy.task', 'ABXpy.score', 'ABXpy.analyze',
                 'ABXpy.distances.distances', 'h5features', 'tables',
                 'pandas.io.formats.format', 'pandas.io.pytables'):
        try:
            importlib.import_module(name)
        except ImportError:
            # reported by the cases which need it
            pass


def build_dtw():
    """Compile the DTW extension from the working tree, outside of it, and
    install it as the module used by the package"""
    import importlib.machinery
    import importlib.util
    import subprocess
    import sysconfig
    import numpy
    name = 'ABXpy.distances.metrics.dtw'
    if name in sys.modules:
        raise HarnessError('%s was imported before it was built' % name)
    srcdir = os.path.join(REPO, 'ABXpy', 'distances', 'metrics', 'dtw')
    if not os.path.exists(os.path.join(srcdir, 'dtw.pyx')):
        # not a Cython extension any more: use what the package has
        return
    work = os.path.join(scratch_root(), 'build')
    shutil.copytree(srcdir, work, ignore=shutil.ignore_patterns('*.c'))
    code = (
        'from Cython.Compiler.Main import compile, CompilationOptions\n'
        'import sys\n'
        'o = CompilationOptions(output_file=sys.argv[2], '
        'language_level=None)\n'
        'r = compile([sys.argv[1]], o, full_module_name="%s")\n'
        'sys.exit(1 if r.num_errors else 0)\n' % name)
    pyx = os.path.join(work, 'dtw.pyx')
    cfile = os.path.join(work, 'dtw.c')
    so = os.path.join(work, 'dtw' + sysconfig.get_config_var('EXT_SUFFIX'))
    p = subprocess.run(
        [sys.executable, '-W', 'ignore', '-m', 'cython', '-o', cfile, pyx,
         '--module-name', name], stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, cwd=work)
    if p.returncode:
        raise HarnessError('cython failed: %s' % p.stdout.decode()[-2000:])
    p = subprocess.run(
        ['gcc', '-shared', '-fPIC', '-O3', '-fwrapv', '-w',
         '-I', sysconfig.get_paths()['include'],
         '-I', numpy.get_include(), cfile, '-o', so],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise HarnessError('gcc failed: %s' % p.stdout.decode()[-2000:])
    import ABXpy.distances.metrics as metrics
    loader = importlib.machinery.ExtensionFileLoader(name, so)
    spec = importlib.util.spec_from_file_location(name, so, loader=loader)
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    loader.exec_module(module)
    metrics.dtw = module
    return so


# ---------------------------------------------------------------- running
def run_case(mod, case, ctx):
    """Run one case; returns None or a violation message"""
    ctx.reset()
    ctx.states = set()
    ctx.transitions = 0
    ctx.extra = {}
    cwd = os.getcwd()
    try:
        os.chdir(ctx.dir)
        mod.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = [f for f in tb
                  if f.filename.startswith(os.path.abspath(REPO) + os.sep)]
        where = ''
        if inside:
            where = ' at %s:%s' % (
                os.path.relpath(inside[-1].filename, REPO), inside[-1].name)
        return 'the code raised %s: %s%s' % (
            type(e).__name__, str(e)[:500], where)
    finally:
        os.chdir(cwd)


def _worker(mod, cases, nextcase, lock, current, started, slot, conn, tier,
            stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    quiet()
    # collections happen between the cases only: h5py fails when datasets in
    # reference cycles are freed while it closes a file
    # (and it enables the collector back, hence the threshold)
    gc.collect()
    gc.freeze()
    gc.set_threshold(0)
    base = tempfile.mkdtemp(prefix='w', dir=scratch_root())
    tempfile.tempdir = base
    os.environ['TMPDIR'] = base
    global _scratch
    _scratch = base
    ctx = Context(tier)
    states, transitions, done, extra = set(), 0, 0, {}
    failures = []
    previous = None
    try:
        while not stop.value:
            with lock:
                i = nextcase.value
                nextcase.value += 1
            if i >= len(cases):
                break
            started[slot] = time.monotonic()
            current[slot] = i
            msg = run_case(mod, cases[i], ctx)
            current[slot] = -1
            gc.collect()
            states |= ctx.states
            transitions += ctx.transitions
            for k, v in ctx.extra.items():
                extra[k] = extra.get(k, 0) + v
            done += 1
            if msg is not None:
                failures.append((i, msg, previous))
                stop.value = 1
                break
            previous = i
        shutil.rmtree(base, ignore_errors=True)
        conn.send(('ok', states, transitions, done, extra, failures))
    except BaseException:
        conn.send(('harness', traceback.format_exc()))
    conn.close()
    # (a manager process may be left)
    _kill_children(os.getpid())
    os._exit(0)


def explore(mod, cases, tier, nproc=None):
    """Run all the cases in forked workers; returns the aggregated result"""
    nproc = nproc or getattr(mod, 'NPROC', None) or min(8, os.cpu_count() or 1)
    nproc = max(1, min(nproc, len(cases)))
    nextcase = mp.Value('i', 0, lock=False)
    stop = mp.Value('i', 0, lock=False)
    lock = mp.Lock()
    current = mp.Array('i', [-1] * nproc, lock=False)
    started = mp.Array('d', [0.] * nproc, lock=False)
    limit = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)
    procs, conns = [], []
    ctxmp = mp.get_context('fork')
    sys.stdout.flush()
    sys.stderr.flush()
    for slot in range(nproc):
        r, w = ctxmp.Pipe(False)
        p = ctxmp.Process(target=_worker, args=(
            mod, cases, nextcase, lock, current, started, slot, w, tier, stop))
        # (workers fork children of their own in some checks)
        p.daemon = False
        p.start()
        w.close()
        procs.append(p)
        conns.append(r)
    res = {'states': set(), 'transitions': 0, 'done': 0, 'extra': {},
           'failures': []}
    alive = set(range(nproc))
    clocks = [_Clock() for _ in procs]
    broken = None
    while alive:
        for s in sorted(alive):
            if conns[s].poll(0.02):
                try:
                    out = conns[s].recv()
                except EOFError:
                    out = None
                alive.discard(s)
                if out is None:
                    i = current[s]
                    procs[s].join()
                    if i >= 0:
                        res['failures'].append(
                            (i, 'the process died (exit code %s)'
                             % procs[s].exitcode, None))
                        stop.value = 1
                    else:
                        broken = 'worker died outside of a case'
                elif out[0] == 'harness':
                    broken = out[1]
                    stop.value = 1
                else:
                    _, st, tr, done, extra, failures = out
                    res['states'] |= st
                    res['transitions'] += tr
                    res['done'] += done
                    for k, v in extra.items():
                        res['extra'][k] = res['extra'].get(k, 0) + v
                    res['failures'] += failures
            elif (current[s] >= 0 and
                  time.monotonic() - started[s] > limit / 4 and
                  procs[s].is_alive() and
                  clocks[s].over(procs[s].pid, started[s], limit)):
                i = current[s]
                _kill_tree(procs[s].pid)
                alive.discard(s)
                res['failures'].append(
                    (i, 'does not terminate (stopped after %d s)' % limit,
                     None))
                stop.value = 1
    for p in procs:
        p.join(10)
    if broken:
        raise HarnessError(broken)
    res['failures'].sort(key=lambda x: x[0])
    return res


class _Clock(object):
    """Whether a case takes too long: on a busy machine, the time which it
    was not given does not count"""

    def __init__(self):
        self.started = self.checked = None

    def over(self, pid, started, limit):
        now = time.monotonic()
        if self.started != started:
            # a new case (its first seconds are not measured)
            self.started, self.checked = started, now
            self.cpu = self.first = _cpu(pid)
            self.moved = now
            return False
        if now - self.checked < 2:
            return False
        self.checked, cpu = now, _cpu(pid)
        if cpu > self.cpu + 0.5:
            self.cpu, self.moved = cpu, now
        elif cpu < self.cpu:
            # a process ended, and nobody waits for it
            self.cpu = cpu
        if cpu - self.first > limit * 3 / 4 or now - started > 2 * limit:
            return True
        # nothing moves any more
        return now - started > limit and now - self.moved > limit / 4


def _cpu(pid):
    """seconds of processor used by a process and those it started"""
    total = 0
    try:
        with open('/proc/%d/stat' % pid) as f:
            fields = f.read().rsplit(')', 1)[1].split()
        total = sum(int(x) for x in fields[11:15]) / os.sysconf('SC_CLK_TCK')
        for task in os.listdir('/proc/%d/task' % pid):
            with open('/proc/%d/task/%s/children' % (pid, task)) as f:
                total += sum(_cpu(int(c)) for c in f.read().split())
    except (OSError, ValueError, IndexError):
        pass
    return total


def _kill_tree(pid):
    try:
        os.kill(pid, signal.SIGSTOP)
    except OSError:
        pass
    _kill_children(pid)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def _kill_children(pid):
    import glob
    children = []
    for f in glob.glob('/proc/[0-9]*/stat'):
        try:
            with open(f) as h:
                fields = h.read().rsplit(')', 1)[1].split()
            if int(fields[1]) == pid:
                children.append(int(f.split('/')[2]))
        except (OSError, IndexError, ValueError):
            pass
    for c in children:
        _kill_tree(c)


# ---------------------------------------------------------------- driver
def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('findings', [])
                if k.get('property') == prop and k.get('status') == 'known']


def main(mod, argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--replay')
    p.add_argument('--list', action='store_true')
    args = p.parse_args(argv)
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch_root()
    import_repo()
    if getattr(mod, 'NEEDS_DTW', False):
        build_dtw()
    preload()
    if hasattr(mod, 'setup'):
        mod.setup(tier)

    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        case = replay['case']
        gc.set_threshold(0)
        ctx = Context(tier)
        for c in replay.get('before', []):
            run_case(mod, c, ctx)
        # the same observation twice, or the replay is not trusted
        a = run_case(mod, case, ctx)
        for c in replay.get('before', []):
            run_case(mod, c, ctx)
        b = run_case(mod, case, ctx)
        ctx.reset()
        print('replay: %s' % (a or 'the property holds'))
        if (a is None) != (b is None):
            print('replay is not deterministic: %s' % b)
            return 2
        return 1 if a else 0

    cases = [json.loads(json.dumps(c)) for c in mod.cases(tier)]
    # the long ones early, so that the others fill the remaining time
    heavy = [c for c in cases if c.get('heavy')]
    cases = [c for c in cases if not c.get('heavy')]
    cases[40:40] = heavy
    if args.list:
        for c in cases:
            print(json.dumps(c))
        return 0
    known = known_findings(mod.ID)
    res = explore(mod, cases, tier)
    wall = time.time() - t0
    violations = []
    for i, msg, previous in res['failures']:
        k = [f for f in known if f.get('case') == cases[i]]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, k[0]['what']))
        else:
            violations.append((i, msg, previous))
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': dict({
            'states': len(res['states']),
            'transitions': res['transitions'],
            'traces_validated_against_impl': res['done'],
            'cases_enumerated': len(cases),
            'exhaustive': res['done'] == len(cases) and not violations,
            'bounds': mod.BOUNDS[tier] if hasattr(mod, 'BOUNDS') else '',
            'samples': cases[:2] + cases[len(cases) // 2:len(cases) // 2 + 1]
            + cases[-1:],
        }, **res['extra']),
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    }
    for s in ev['coverage']['samples']:
        s_ = json.dumps(s)
        if len(s_) > 3000:
            ev['coverage']['samples'] = [
                json.dumps(x)[:1000] for x in ev['coverage']['samples']]
            break
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d cases, %d states, %d transitions, %.1f s' % (
        mod.ID, tier, res['done'], len(res['states']), res['transitions'],
        wall))
    if violations:
        i, msg, previous = violations[0]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % mod.ID)
        with open(path, 'w') as f:
            json.dump({'property': mod.ID, 'tier': tier, 'case': cases[i],
                       'before': [] if previous is None
                       else [cases[previous]],
                       'message': msg,
                       'replay': '/opt/venv/bin/python %s/check.py %s '
                       '--tier %s --replay %s' % (VERIF, mod.ID, tier, path)},
                      f, indent=1)
        print('case %d: %s' % (i, msg))
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    return 0
