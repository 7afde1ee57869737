"""Controlled execution of multiprocessing code

Stand-ins for multiprocessing.Pool and Manager().Lock() which run the tasks
of a pool in real forked processes, one at a time, under a scheduler which
decides at each visible operation (lock operations, opening and closing HDF5
files) which process goes on. All the schedules are explored, by stateless
search ordered by number of preemptions, and a fault can be injected at any
operation of any process.
"""
import contextlib
import json
import os
import pickle
import select
import signal
import sys
import traceback

from .core import HarnessError, Violation, require

TIMEOUT = 150


class InjectedFault(OSError):
    """What the injected failing operations raise"""


class Local(object):
    """State of the current process"""
    fd_out = None       # controlled process: pipes to and from the scheduler
    fd_in = None
    active = False      # operations are observed
    count = 0
    fault = None        # number of the operation which fails
    watched = {}        # absolute path -> short name
    log = None
    prefix = ''
    fired = False
    everything = False  # all the files are watched, removals are points


L = Local()


def point(kind, detail=None, scheduled=True):
    """An operation is about to be executed"""
    if not L.active:
        return None
    n = L.count
    L.count += 1
    if L.log is not None:
        L.log.append((kind, detail))
    if L.fault is not None and n == L.fault:
        L.fired = True
        raise InjectedFault('injected fault in %s %s' % (kind, detail))
    if scheduled and L.fd_out is not None:
        send(L.fd_out, {'op': kind, 'detail': detail})
        return recv(L.fd_in)
    return None


def note(kind, detail=None):
    """An operation which neither fails nor is delayed"""
    if L.active and L.fd_out is not None:
        send(L.fd_out, {'op': kind, 'detail': detail})
        return recv(L.fd_in)
    return None


def send(fd, obj):
    data = json.dumps(obj).encode() + b'\n'
    while data:
        data = data[os.write(fd, data):]


def recv(fd):
    out = b''
    while not out.endswith(b'\n'):
        x = os.read(fd, 1)
        if not x:
            os._exit(3)
        out += x
    return json.loads(out.decode())


# ------------------------------------------------------- observed file access
def name_of(path):
    if isinstance(path, bytes):
        path = path.decode('utf8', 'replace')
    if not isinstance(path, (str, os.PathLike)):
        return None
    path = os.path.abspath(os.fspath(path))
    return L.watched.get(path, 'other:' + os.path.basename(path))


@contextlib.contextmanager
def observed(files=False):
    """Patch the HDF5 libraries so that opening, closing, reading and writing
    are points, and making and removing files too on request"""
    import shutil
    import tempfile
    import weakref
    import h5py
    import tables
    File = h5py.File
    Dataset = h5py.Dataset
    TFile = tables.File
    undo = []

    def patch(cls, attr, make):
        old = getattr(cls, attr)
        undo.append((cls, attr, old, attr in cls.__dict__))
        setattr(cls, attr, make(old))
    opened = {}

    def closed(key):
        what = opened.pop(key, None)
        if what is not None:
            note('close', what)

    def init(old):
        def fun(self, *args, **kw):
            name = args[0] if args else kw.get('name', kw.get('filename'))
            short = name_of(name)
            if short is None or not L.active:
                return old(self, *args, **kw)
            other = short.startswith('other:')
            if L.everything and other:
                other, short = False, 'other'
            point('open', short, not other)
            res = old(self, *args, **kw)
            if not other:
                opened[id(self)] = short
                try:
                    weakref.finalize(self, closed, id(self))
                except TypeError:
                    pass
            return res
        return fun

    def close(old):
        def fun(self, *args, **kw):
            what = opened.pop(id(self), None)
            if what is not None and L.active:
                # the preemption happens while it is still open
                note('closing', what)
                try:
                    return old(self, *args, **kw)
                finally:
                    note('close', what)
            return old(self, *args, **kw)
        return fun

    def access(kind):
        def make(old):
            def fun(self, *args, **kw):
                if L.active:
                    try:
                        f = h5py.h5f.get_name(self.id).decode()
                    except Exception:
                        f = None
                    if f and name_of(f) in L.watched.values():
                        point(kind, name_of(f), False)
                return old(self, *args, **kw)
            return fun
        return make

    def function(kind):
        def make(old):
            def fun(*args, **kw):
                if L.active and L.everything and not nested:
                    point(kind)
                    nested.append(kind)
                    try:
                        return old(*args, **kw)
                    finally:
                        nested.pop()
                return old(*args, **kw)
            return fun
        return make
    nested = []
    if files:
        for module, name in ((os, 'remove'), (os, 'unlink'),
                             (os, 'rename'), (os, 'replace'),
                             (shutil, 'rmtree'), (shutil, 'move'),
                             (shutil, 'copyfile'), (os, 'mkdir'),
                             (os, 'makedirs'), (tempfile, 'mkstemp'),
                             (tempfile, 'mkdtemp')):
            patch(module, name, function(name))
    patch(File, '__init__', init)
    patch(File, 'close', close)
    patch(TFile, '__init__', init)
    patch(TFile, 'close', close)
    patch(Dataset, '__getitem__', access('read'))
    patch(Dataset, '__setitem__', access('write'))
    try:
        yield
    finally:
        for cls, attr, old, own in reversed(undo):
            if own:
                setattr(cls, attr, old)
            else:
                delattr(cls, attr)


# -------------------------------------------------------------- stand-ins
class FakeLock(object):
    n = 0

    def __init__(self, reentrant=False):
        self.id = FakeLock.n
        FakeLock.n += 1
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=None):
        if L.fd_out is None:
            return True
        if not blocking or timeout is not None and timeout >= 0:
            return bool(note('tryacquire', self.id))
        note('acquire', self.id)
        return True

    def release(self):
        if L.fd_out is None:
            return
        if note('release', self.id) is False:
            raise RuntimeError('release unlocked lock')

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


class FakeManager(object):
    def __init__(self, real):
        self._real = real

    def Lock(self):
        return FakeLock()

    def RLock(self):
        return FakeLock(True)

    def start(self, *args):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def __getattr__(self, name):
        raise HarnessError('unsupported manager object: %s' % name)


class Result(object):
    def __init__(self, pool, first, n, single):
        self.pool, self.first, self.n, self.single = pool, first, n, single

    def wait(self, timeout=None):
        self.pool.flush()

    def ready(self):
        self.pool.flush()
        return True

    def successful(self):
        self.pool.flush()
        return all(ok for ok, _ in self.outcomes())

    def outcomes(self):
        return self.pool.outcomes[self.first:self.first + self.n]

    def get(self, timeout=None):
        self.pool.flush()
        for ok, v in self.outcomes():
            if not ok:
                raise v
        vals = [v for _, v in self.outcomes()]
        return vals[0] if self.single else vals


class FakePool(object):
    """Runs its tasks in forked processes under the scheduler"""
    scheduler = None

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, **kw):
        self.processes = processes or os.cpu_count()
        self.initializer, self.initargs = initializer, initargs
        self.todo = []
        self.outcomes = []
        FakePool.scheduler.pools += 1

    def submit(self, calls, single=False):
        first = len(self.outcomes) + len(self.todo)
        self.todo += calls
        return Result(self, first, len(calls), single)

    def flush(self):
        todo, self.todo = self.todo, []
        if todo:
            prepare = None
            if self.initializer is not None:
                prepare = (self.initializer, self.initargs)
            self.outcomes += FakePool.scheduler.run(
                todo, self.processes, prepare)

    def map_async(self, f, it, chunksize=None, callback=None,
                  error_callback=None):
        return self.submit([(f, (a,), {}) for a in it])

    def starmap_async(self, f, it, chunksize=None, callback=None,
                      error_callback=None):
        return self.submit([(f, tuple(a), {}) for a in it])

    def apply_async(self, f, args=(), kwds={}, callback=None,
                    error_callback=None):
        return self.submit([(f, tuple(args), dict(kwds))], True)

    def map(self, f, it, chunksize=None):
        return self.map_async(f, it).get()

    def starmap(self, f, it, chunksize=None):
        return self.starmap_async(f, it).get()

    def apply(self, f, args=(), kwds={}):
        return self.apply_async(f, args, kwds).get()

    def imap(self, f, it, chunksize=1):
        r = self.map_async(f, it)

        def gen():
            self.flush()
            for ok, v in r.outcomes():
                if not ok:
                    raise v
                yield v
        return gen()
    imap_unordered = imap

    def close(self):
        pass

    def terminate(self):
        self.todo = []

    def join(self):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.terminate()


@contextlib.contextmanager
def stand_ins(scheduler, *modules):
    import multiprocessing
    undo = []
    real = multiprocessing.Manager
    new = {'Pool': FakePool, 'Manager': lambda *a, **k: FakeManager(real),
           'Lock': lambda *a, **k: FakeLock(),
           'RLock': lambda *a, **k: FakeLock(True)}
    FakePool.scheduler = scheduler
    for m in (multiprocessing,) + modules:
        for name, v in new.items():
            if name in vars(m):
                undo.append((m, name, vars(m)[name]))
                setattr(m, name, v)
    try:
        yield
    finally:
        for m, name, v in undo:
            setattr(m, name, v)


# -------------------------------------------------------------- scheduler
EAGER = ('start', 'release', 'close')


class Proc(object):
    pass


class Scheduler(object):
    """One execution. choices: the processes to run at the first choice
    points; afterwards the current process goes on as long as it can."""

    def __init__(self, choices=(), fault=None, exclusive=True):
        self.exclusive = exclusive
        FakeLock.n = 0
        self.choices = list(choices)
        self.fault = fault          # (process, operation) or None
        self.points = []            # (options, chosen, current)
        self.trace = []
        self.pools = 0
        self.base = 0
        self.counts = {}
        self.logs = {}
        self.fired = False
        self.locks = {}
        self.open = {}              # file -> process which has it open

    def run(self, calls, width, prepare):
        procs = []
        waiting = list(enumerate(calls, self.base))
        self.base += len(calls)
        results = {}
        live = []
        current = None
        try:
            while waiting or live:
                while waiting and len(live) < width:
                    i, call = waiting.pop(0)
                    p = self.spawn(i, call, prepare)
                    procs.append(p)
                    live.append(p)
                    self.listen(p, results, live)
                enabled = [p for p in live if self.enabled(p)]
                if not live:
                    continue
                require(enabled, 'deadlock: {} wait for a lock which is '
                        'never released; operations: {}',
                        ['process %d' % p.i for p in live], self.trace[-12:])
                if current not in enabled:
                    order = enabled
                else:
                    order = [current] + [p for p in enabled
                                         if p is not current]
                k = len(self.points)
                pick = order[0]
                eager = [p for p in live if p.pending['op'] in EAGER]
                if eager:
                    # these operations commute with those of the others:
                    # delaying them shows nothing more
                    pick = eager[0]
                elif len(order) > 1:
                    if k < len(self.choices):
                        c = [p for p in order if p.i == self.choices[k]]
                        if not c:
                            raise HarnessError('schedule not reproducible')
                        pick = c[0]
                    self.points.append((
                        [p.i for p in order], pick.i,
                        current.i if current in enabled else None))
                if not eager:
                    current = pick
                self.execute(pick, results, live)
        finally:
            for p in procs:
                if p not in idle:
                    reap(p)
        self.trace.append('end')
        return [results[i] for i in sorted(results)]

    def spawn(self, i, call, prepare):
        task = {'i': i, 'call': pickle.dumps((call, prepare)).hex(),
                'watched': L.watched, 'fault': None,
                'everything': L.everything}
        if self.fault is not None and self.fault[0] == i:
            task['fault'] = self.fault[1]
        p = idle.pop() if idle else fork_child()
        p.i = i
        p.pending = None
        send(p.w, task)
        return p

    def listen(self, p, results, live):
        """Wait until the process reaches its next operation"""
        while b'\n' not in p.buf:
            r, _, _ = select.select([p.r], [], [], TIMEOUT)
            require(r, 'process {} does not reach its next operation; '
                    'operations: {}', p.i, self.trace[-12:])
            x = os.read(p.r, 65536)
            if not x:
                raise Violation('process %d died; operations: %s'
                                % (p.i, self.trace[-12:]))
            p.buf += x
        line, p.buf = p.buf.split(b'\n', 1)
        p.pending = json.loads(line.decode())
        if p.pending['op'] == 'end':
            results[p.i] = pickle.loads(bytes.fromhex(p.pending['data']))
            self.counts[p.i] = p.pending['count']
            self.logs[p.i] = p.pending['log']
            self.fired = self.fired or p.pending['fired']
            live.remove(p)
            for f, owner in list(self.open.items()):
                if owner == p.i:
                    del self.open[f]
            if results[p.i][0] and not p.pending['fired']:
                idle.append(p)
            else:
                reap(p)

    def enabled(self, p):
        op = p.pending
        if op['op'] == 'acquire':
            return self.locks.get(op['detail']) is None
        return True

    def execute(self, p, results, live):
        op, what = p.pending['op'], p.pending['detail']
        self.trace.append('%d:%s%s' % (p.i, op, '' if what is None
                                       else ' ' + str(what)))
        answer = True
        if op == 'acquire':
            self.locks[what] = p.i
        elif op == 'tryacquire':
            answer = self.locks.get(what) is None
            if answer:
                self.locks[what] = p.i
        elif op == 'release':
            answer = self.locks.get(what) is not None
            self.locks[what] = None
        elif op == 'open':
            require(not self.exclusive or self.open.get(what, p.i) == p.i,
                    'process {} opens the {} file while process {} has it '
                    'open; operations: {}', p.i, what, self.open.get(what),
                    self.trace[-12:])
            self.open[what] = p.i
        elif op == 'close':
            if self.open.get(what) == p.i:
                del self.open[what]
        send(p.w, answer)
        self.listen(p, results, live)

idle = []


def fork_child():
    """A process which executes the tasks it is given, as in a pool"""
    p = Proc()
    c_in, p_out = os.pipe()
    p_in, c_out = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    p.pid = os.fork()
    if p.pid == 0:
        try:
            os.close(p_in)
            os.close(p_out)
            while True:
                serve(c_in, c_out)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(c_in)
    os.close(c_out)
    p.r, p.w = p_in, p_out
    p.buf = b''
    return p


def serve(c_in, c_out):
    task = recv(c_in)
    (f, args, kw), prepare = pickle.loads(bytes.fromhex(task['call']))
    L.fd_in, L.fd_out = c_in, c_out
    L.count = 0
    L.fired = False
    L.log = []
    L.fault = task['fault']
    L.watched = task['watched']
    L.everything = task['everything']
    L.active = True
    try:
        note('start')
        if prepare:
            prepare[0](*prepare[1])
        value = (True, f(*args, **kw))
    except Exception as e:
        value = (False, e)
    L.active = False
    try:
        data = pickle.dumps(value)
    except Exception:
        data = pickle.dumps((False, RuntimeError(repr(value))))
    send(c_out, {'op': 'end', 'data': data.hex(), 'count': L.count,
                 'fired': L.fired, 'log': L.log})


def reap(p):
    if p.pid is None:
        return
    for fd in (p.r, p.w):
        try:
            os.close(fd)
        except OSError:
            pass
    try:
        os.kill(p.pid, signal.SIGKILL)
        os.waitpid(p.pid, 0)
    except OSError:
        pass
    p.pid = None


def shutdown():
    while idle:
        reap(idle.pop())


def preemptions(points):
    return sum(1 for _, pick, cur in points if cur is not None and pick != cur)


def schedules(execute, bound, part=0, parts=1):
    """Run execute(choices) -> Scheduler for all the schedules with at most
    `bound` preemptions, those with fewer preemptions first. Returns the
    number of executions. The search may be divided in parts according to
    the first preemption."""
    level = [[]]
    total = 0
    for b in range(bound + 1):
        nxt = []
        stack = list(level)
        while stack:
            prefix = stack.pop()
            s = execute(prefix)
            total += 1
            for k in range(len(prefix), len(s.points)):
                options, pick, cur = s.points[k]
                chosen = [x[1] for x in s.points[:k]]
                for o in options:
                    if o == pick:
                        continue
                    new = chosen + [o]
                    if cur is not None:
                        # leaving a process which could go on
                        nxt.append(new)
                    else:
                        stack.append(new)
        level = nxt[part::parts] if b == 0 else nxt
    return total
