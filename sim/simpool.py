"""
Simulated process pool.

Workers are real forked processes (isolated memory, functions and data go
through dill as in `multiprocess`), but only one of them runs at a time: which
chunk goes to which worker, when it is pickled, and in which order the chunks
finish is drawn by the seed.
"""
import errno
import os
import signal
import struct

import dill


class PoolFault(MemoryError):
    """Injected in a worker."""


def _send(fd, data):
    data = struct.pack(">Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError()
            out += b
        return out
    return get(struct.unpack(">Q", get(8))[0])


class Worker(object):
    def __init__(self, pool, initializer, initargs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                if initializer:
                    initializer(*initargs)
                while True:
                    func, items, star, bad = dill.loads(_recv(r1))
                    out = []
                    for k, it in enumerate(items):
                        try:
                            if k == bad:
                                raise PoolFault("injected in a worker")
                            out.append((True, func(*it) if star
                                        else func(it)))
                        except Exception as e:
                            out.append((False, e))
                    try:
                        data = dill.dumps(out)
                    except Exception as e:
                        data = dill.dumps([(False, e)]*len(items))
                    _send(w2, data)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def run(self, data):
        _send(self.w, data)
        return dill.loads(_recv(self.r))

    def stop(self):
        os.close(self.w)
        os.close(self.r)
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


class Result(object):
    def __init__(self, pool, n):
        self.pool = pool
        self.slots = [None]*n
        self.single = False

    def ready(self):
        return all(s is not None for s in self.slots)

    def wait(self, timeout=None):
        self.pool._drain()

    def successful(self):
        return all(s[0] for s in self.slots)

    def get(self, timeout=None):
        self.pool._wait()
        self.pool._drain()
        for ok, v in self.pool._order(self):
            if not ok:
                raise v
        vals = [v for _, v in self.slots]
        return vals[0] if self.single else vals


class SimPool(object):
    """`ctl` (class attribute): rng, log, cpus, fail_at (item), start_error,
    interrupt."""
    ctl = None

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, **kw):
        c = self.ctl
        if processes is None:
            processes = c["cpus"]
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if c.get("start_error"):
            c["log"].fault("pool_start_error")
            raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        self.rng = c["rng"]
        self.log = c["log"]
        self.n = processes
        self.init = (initializer, initargs)
        self.workers = [Worker(self, *self.init)
                        for _ in range(min(processes, 6))]
        self.log.probe("pool_of_%d" % min(processes, 6))
        self.tasks = []
        self.closed = False
        c.setdefault("pools", []).append(self)

    # -- submission ----------------------------------------------------------
    def _submit(self, func, items, star, chunksize, callback=None,
                error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        items = list(items)
        res = Result(self, len(items))
        res.cb = callback, error_callback
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n*4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        for k in range(0, len(items), chunksize):
            t = [res, k, func, items[k:k + chunksize], star, None]
            # pickled now, or later by the handler thread
            if self.rng.random() < .5:
                self._pickle(t)
            self.tasks.append(t)
        if not items:
            self._done(res)
        return res

    def _pickle(self, t):
        c = self.ctl
        bad = None
        n = len(t[3])
        at = c.get("fail_at")
        if at is not None:
            done = c.setdefault("counted", 0)
            if done <= at < done + n:
                bad = at - done
                self.log.fault("task_error")
            c["counted"] = done + n
        t[5] = dill.dumps((t[2], t[3], t[4], bad))

    def _drain(self):
        r = self.rng
        finished = []
        while self.tasks:
            # the task queue is first in first out, completion is not
            k = min(len(self.tasks) - 1, int(r.random()*len(self.workers)))
            t = self.tasks.pop(k)
            if t[5] is None:
                self._pickle(t)
            w = r.randrange(len(self.workers))
            out = self.workers[w].run(t[5])
            self.log.sig("pool", self.n, t[1], w)
            for j, o in enumerate(out):
                t[0].slots[t[1] + j] = o
                t[0].__dict__.setdefault("seq", []).append(t[1] + j)
            if t[0].ready() and t[0] not in finished:
                finished.append(t[0])
                self._done(t[0])

    def _done(self, res):
        cb, ecb = res.cb
        bad = [v for ok, v in res.slots if not ok]
        if bad:
            if ecb:
                ecb(bad[0])
        elif cb:
            vals = [v for _, v in res.slots]
            cb(vals[0] if res.single else vals)

    def _order(self, res):
        return [res.slots[i] for i in res.__dict__.get("seq", [])]

    def _wait(self):
        c = self.ctl
        if c.get("interrupt"):
            c["interrupt"] = False
            self.log.fault("interrupt_while_waiting")
            raise KeyboardInterrupt("injected")

    # -- interface of multiprocess.Pool -----------------------------------------
    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._submit(func, iterable, False, chunksize, callback,
                            error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._submit(func, iterable, True, chunksize, callback,
                            error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        f = func
        if kwds:
            def f(*a, _f=func, _k=dict(kwds)):
                return _f(*a, **_k)
        res = self._submit(f, [tuple(args)], True, 1, callback,
                           error_callback)
        res.single = True
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        res = self._submit(func, iterable, False, chunksize)
        return self._iter(res, False)

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self._submit(func, iterable, False, chunksize)
        return self._iter(res, True)

    def _iter(self, res, unordered):
        def gen():
            self._wait()
            self._drain()
            for ok, v in (self._order(res) if unordered else res.slots):
                if not ok:
                    raise v
                yield v
        return gen()

    def close(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        self._wait()
        self._drain()
        self._stop()

    def terminate(self):
        self.closed = True
        self.tasks = []
        self._stop()

    def _stop(self):
        ws, self.workers = self.workers, []
        for w in ws:
            w.stop()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def install(modules, ctl):
    """Replaces `Pool` in the given modules; returns the undo function."""
    SimPool.ctl = ctl
    old = []
    for m in modules:
        if hasattr(m, "Pool"):
            old.append((m, m.Pool))
            m.Pool = SimPool

    def undo():
        for m, p in old:
            m.Pool = p
        for p in ctl.get("pools", []):
            p._stop()
    return undo
