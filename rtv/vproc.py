"""Virtual processes: multiprocessing contexts whose processes are threads of this process.

Every target / task is pickled and un-pickled (as "spawn" does), so that workers do not share state. Managers return
queues, events ... that are shared by all copies. The pool executes its chunks of tasks one after another in an order
given by a schedule (the writer- and combiner-"processes" run concurrently). Waiting forever raises `Hang`.
"""
import contextlib
import itertools
import multiprocessing
import queue
import signal
import threading
import time
from types import SimpleNamespace

import cloudpickle

HANG = 20.0
_REG = {}
_ids = itertools.count()
_tl = threading.local()


class Hang(Exception):
    """a virtual process waits for something that never happens"""


def _lookup(i):
    return _REG[i]


class _Shared:
    def __init__(self):
        self._i = next(_ids)
        _REG[self._i] = self

    def __reduce__(self):
        return _lookup, (self._i,)


class VQueue(_Shared):
    def __init__(self, *a):
        super().__init__()
        self.q = queue.Queue()

    def put(self, x, *a, **k):
        self.q.put(cloudpickle.dumps(x))

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not block:
            timeout = 0.0001
        try:
            return cloudpickle.loads(self.q.get(timeout=HANG if timeout is None else min(timeout, 0.02)))
        except queue.Empty:
            if timeout is None:
                raise Hang("queue.get") from None
            raise

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return self.q.qsize()

    def empty(self):
        return self.q.empty()


class VEvent(_Shared):
    def __init__(self):
        super().__init__()
        self.e = threading.Event()
        self.set, self.clear, self.is_set = self.e.set, self.e.clear, self.e.is_set

    def wait(self, timeout=None):
        if not self.e.wait(HANG if timeout is None else timeout) and timeout is None:
            raise Hang("event.wait")
        return self.e.is_set()


class VLock(_Shared):
    def __init__(self):
        super().__init__()
        self.l = threading.Lock()

    def acquire(self, blocking=True, timeout=-1):
        r = self.l.acquire(blocking, HANG if blocking and timeout in (-1, None) else timeout)
        if not r and blocking and timeout in (-1, None):
            raise Hang("lock.acquire")
        return r

    def release(self):
        self.l.release()

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class VValue(_Shared):
    def __init__(self, typ, value, *a, **k):
        super().__init__()
        self.value = value

    def get(self):
        return self.value

    def set(self, v):
        self.value = v


class VManager:
    def Queue(self, *a):
        return VQueue(*a)

    JoinableQueue = Queue

    def Event(self):
        return VEvent()

    def Lock(self):
        return VLock()

    RLock = Lock

    def Value(self, typ, value, *a, **k):
        return VValue(typ, value)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def list(self, *a):
        return list(*a)

    def start(self, *a, **k):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class VProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._p = cloudpickle.dumps((target, tuple(args), kwargs or {}))
        self.name, self.daemon, self.exitcode, self.exc, self.pid = name, daemon, None, None, 0

    def start(self):
        self._t = threading.Thread(target=self._run, daemon=True)
        CURRENT.procs.append(self)
        self._t.start()

    def _run(self):
        _tl.proc = SimpleNamespace(name=self.name, daemon=True, pid=0)
        try:
            target, args, kwargs = cloudpickle.loads(self._p)
            target(*args, **kwargs)
            self.exitcode = 0
        except SystemExit:
            self.exitcode = 0
        except BaseException as e:
            self.exc, self.exitcode = e, 1

    def join(self, timeout=None):
        self._t.join(2 * HANG if timeout is None else timeout)
        if self._t.is_alive() and timeout is None:
            raise Hang(f"join of {self.name}")

    def is_alive(self):
        return self._t.is_alive()

    def terminate(self):
        pass

    kill = close = terminate


class VResult:
    def __init__(self, pool, fn, args, chunksize, star):
        self.pool, self.fn, self.args, self.star = pool, fn, list(args), star
        n = len(self.args)
        if chunksize is None:
            chunksize, extra = divmod(n, pool.n * 4)
            chunksize += bool(extra)
        self.chunksize = max(1, chunksize or 1)
        self.out, self.done, self.todo = None, False, []
        pool.results.append(self)

    def _run(self):
        if self.done:
            return
        self.done, self.exc, self.out = True, None, [None] * len(self.args)
        k = self.chunksize
        chunks = [(i, cloudpickle.dumps((self.fn, self.args[i:i + k]))) for i in range(0, len(self.args), k)]
        self.todo = list(CURRENT.order(chunks))
        self._work(CURRENT.interrupt)

    def _work(self, interrupt=None):
        """execute the remaining chunks (a SIGTERM is received by the main process after `interrupt` chunks)"""
        n = 0
        while self.todo:
            if interrupt == n:
                CURRENT.interrupt, CURRENT.interrupted = None, True
                signal.getsignal(signal.SIGTERM)(signal.SIGTERM, None)
            i, p = self.todo.pop(0)
            n += 1
            w = self.pool.workers[CURRENT.rs.randint(len(self.pool.workers))]
            try:
                with as_process(w):
                    fn, args = cloudpickle.loads(p)
                    for j, a in enumerate(args):
                        if CURRENT.rs.rand() < CURRENT.delay:
                            time.sleep(0.03)
                        r = fn(*a) if self.star else fn(a)
                        self.out[i + j] = cloudpickle.loads(cloudpickle.dumps(r))
            except Hang:
                raise
            except Exception as e:  # the remaining tasks of the chunk are lost
                self.exc = self.exc or e

    def get(self, timeout=None):
        self._run()
        if self.exc is not None:
            raise self.exc
        return self.out

    def wait(self, timeout=None):
        self._run()

    def ready(self):
        return self.done


class VPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **k):
        self.n, self.results = processes or 1, []
        self.workers = [SimpleNamespace(name=f"SpawnPoolWorker-{i + 1}", daemon=True, pid=0) for i in range(self.n)]
        if initializer is not None:
            p = cloudpickle.dumps((initializer, tuple(initargs)))
            for w in self.workers:
                with as_process(w):
                    f, a = cloudpickle.loads(p)
                    f(*a)

    def starmap_async(self, fn, args, chunksize=None, **k):
        return VResult(self, fn, args, chunksize, True)

    def map_async(self, fn, args, chunksize=None, **k):
        return VResult(self, fn, args, chunksize, False)

    def starmap(self, fn, args, chunksize=None):
        return self.starmap_async(fn, args, chunksize).get()

    def map(self, fn, args, chunksize=None):
        return self.map_async(fn, args, chunksize).get()

    def imap(self, fn, args, chunksize=1):
        return iter(self.map(fn, args, chunksize))

    def imap_unordered(self, fn, args, chunksize=1):
        r = self.map(fn, args, chunksize)
        return iter([r[i] for i in CURRENT.rs.permutation(len(r))])

    def close(self):
        pass

    def join(self):
        # the workers of a closed pool finish all of its tasks
        for r in self.results:
            r._work()

    def terminate(self):
        for r in self.results:
            r.todo.clear()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class VContext:
    Process, Pool, Event, Lock, Queue = VProcess, VPool, VEvent, VLock, VQueue

    def Manager(self):
        return VManager()

    def get_start_method(self):
        return "spawn"

    def cpu_count(self):
        return 4


@contextlib.contextmanager
def as_process(p):
    old = getattr(_tl, "proc", None)
    _tl.proc = p
    try:
        yield
    finally:
        _tl.proc = old


_real_current = multiprocessing.current_process


def _current():
    return getattr(_tl, "proc", None) or _real_current()


class Run:
    def __init__(self, seed, delay, interrupt=None):
        import numpy as np

        self.rs = np.random.RandomState(seed)
        self.delay = delay
        self.procs = []
        self.interrupt, self.interrupted = interrupt, False

    def order(self, chunks):
        return [chunks[i] for i in self.rs.permutation(len(chunks))] if len(chunks) else []


CURRENT = None


@contextlib.contextmanager
def virtual(seed=0, delay=0.0, interrupt=None):
    """replace multiprocessing by virtual processes; the main process is called "MainProcess" """
    global CURRENT
    import logging

    names = ("get_context", "Manager", "Process", "Pool", "current_process")
    old = {n: getattr(multiprocessing, n) for n in names}
    sig = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)}
    from rt1 import log

    handlers = [(l, list(l.handlers)) for l in (log, logging.getLogger(), logging.getLogger("py.warnings"))]
    level = log.level
    ctx = VContext()
    CURRENT = run = Run(seed, delay, interrupt)
    multiprocessing.get_context = lambda method=None: ctx
    multiprocessing.Manager, multiprocessing.Process, multiprocessing.Pool = VManager, VProcess, VPool
    multiprocessing.current_process = _current
    main = SimpleNamespace(name="MainProcess", daemon=False, pid=0)
    try:
        with as_process(main):
            yield run
    finally:
        for n, v in old.items():
            setattr(multiprocessing, n, v)
        for s, h in sig.items():
            signal.signal(s, h)
        for l, hs in handlers:
            for h in list(l.handlers):
                if h not in hs:
                    l.removeHandler(h)
                    try:
                        h.close()
                    except Exception:
                        pass
        log.setLevel(level)
        _REG.clear()
