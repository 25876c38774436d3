"""
Processes and queues under a scheduler that the harness controls.

Stands in for multiprocessing.Process and multiprocessing.Queue, both when
executing symbolically and when replaying: every process is a thread, of
which only one runs at a time.  Which one goes on is an input of the
harness wherever that can matter:

- which process takes the next item of a queue: these only meet at queues,
  so that each can run until it asks one.  The main process runs until it
  has to wait and then lets the others go on until these have to wait.
  Processes that have not yet got anything are all the same, so the first
  of them stands for all; and where all that is left in the queue are None
  (the order to stop), it does not matter who is first.
- from which process the next result arrives.
- with preempt=N, also before a directory is made, at most N times.

What goes through a queue or to a process is copied, as pickling or forking
would; what could not be pickled gets lost, as it does in the feeder thread
of a real queue.  Items of different processes may arrive in any order,
those of one process in order.
"""

import io
import multiprocessing
import os
import pickle
import threading
import types

from . import values as V


NONE = pickle.dumps(None)


class Killed(BaseException):
    """ ends the processes left over """


class Deadlock(BaseException):
    """ all processes wait """


def plain_class(x):
    m = type(x).__module__
    return m.split(".")[0] in ("javatools", "symjavatools", "collections",
                               "argparse", "symharness", "harness") or \
        isinstance(x, Exception)


def clone(x, memo=None):
    """ a copy that shares nothing which could be changed """
    if memo is None:
        memo = {}
    t = type(x)
    if x is None or t in (bool, int, float, str, bytes) or \
            t in V.SYMTYPES or isinstance(x, (type, types.ModuleType)):
        return x
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType)):
        if "<" in x.__qualname__:
            raise TypeError("cannot pickle " + x.__qualname__)
        return x
    if id(x) in memo:
        return memo[id(x)][0]
    if isinstance(x, (Queue, Process)):
        return x
    if t is tuple:
        r = tuple([clone(y, memo) for y in x])
    elif t in (list, set, frozenset):
        r = t([clone(y, memo) for y in x])
    elif t is dict:
        r = {}
        memo[id(x)] = (r, x)
        for k, v in x.items():
            r[clone(k, memo)] = clone(v, memo)
    elif plain_class(x):
        if isinstance(x, (io.IOBase, dict, list)):
            raise TypeError("cannot pickle " + t.__name__)
        r = t.__new__(t)
        memo[id(x)] = (r, x)
        if isinstance(x, Exception):
            r.args = clone(x.args, memo)
        r.__dict__.update(clone(x.__dict__, memo))
    else:
        raise TypeError("cannot pickle " + t.__name__)
    memo[id(x)] = (r, x)
    return r


SCHED = None


class Task(object):

    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.ready = None
        self.queue = None
        self.fresh = True
        self.done = False


class Sched(object):

    def __init__(self, c, preempt=0):
        self.preempt = preempt
        self.c = c
        self.main = Task("main")
        self.tasks = [self.main]
        self.current = self.main
        self.dead = False
        self.error = None
        self.count = 0
        self.symbolic = c.symbolic

    def runnable(self):
        return [t for t in self.tasks if not t.done and
                (t.ready is None or t.ready())]

    def pick(self, what, options):
        if len(options) == 1:
            return options[0]
        self.count += 1
        return options[self.c.choose("%s %d" % (what, self.count),
                                     range(len(options)))]

    def choose(self, me):
        """ the process to go on """
        can = self.runnable()
        if not can:
            raise Deadlock()
        if me in can and me is self.main:
            return me
        if len(can) > 1 and self.main in can:
            # whatever the main process waits for can still be more
            can.remove(self.main)
        if me in can and me.queue is None:
            return me
        fresh = [t for t in can if t.fresh]
        can = fresh[:1] + [t for t in can if not t.fresh]
        q = can[0].queue
        if q is not None and all([t.queue is q for t in can]) and \
                all([x is None or x == NONE
                     for i in q.items.values() for x in i]):
            return can[0]
        return self.pick("run", can)

    def point(self, ready=None, queue=None):
        """ the current process may have to wait """
        me = self.current
        if self.dead:
            raise Killed()
        me.ready = ready
        me.queue = queue
        to = self.choose(me)
        if to is not me:
            self.switch(to, me)
        me.ready = None
        me.queue = None

    def before(self):
        """ something that others can see is about to be done """
        me = self.current
        if self.dead:
            raise Killed()
        if self.preempt < 1:
            return
        can = [t for t in self.runnable() if t is not me]
        fresh = [t for t in can if t.fresh]
        can = [me] + fresh[:1] + [t for t in can if not t.fresh]
        to = self.pick("run", can)
        if to is not me:
            self.preempt -= 1
            self.switch(to, me)

    def switch(self, to, me):
        self.current = to
        to.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.dead:
                if me is self.main and self.error is not None:
                    raise self.error
                raise Killed()

    def body(self, task, fn, args, kwargs, proc):
        """ of a thread """
        task.sem.acquire()
        try:
            if self.dead:
                return
            try:
                fn(*args, **kwargs)
                proc._code = 0
            except Exception as ex:     # pylint: disable=broad-except
                # a process that fails says so on stderr, and ends
                proc._code = 1
                self.failed = ex
            except SystemExit:
                proc._code = 1
            task.done = True
            to = self.choose(task)
            self.current = to
            to.sem.release()
        except Killed:
            pass
        except BaseException as ex:     # pylint: disable=broad-except
            # ends this path: hand it to the main thread
            self.error = ex
            self.dead = True
            self.main.sem.release()

    def start(self, proc):
        task = Task("p%d" % len(self.tasks))
        proc._task = task
        args = clone(tuple(proc._args))
        kwargs = clone(dict(proc._kwargs))
        self.tasks.append(task)
        t = threading.Thread(
            target=self.body,
            args=(task, proc._target, args, kwargs, proc))
        t.daemon = True
        proc._thread = t
        t.start()
        self.threads = getattr(self, "threads", []) + [t]

    def finish(self):
        """ wait for all processes, as the interpreter does at its end """
        self.point(lambda: all([t.done for t in self.tasks
                                if t is not self.main and
                                not getattr(t, "daemon", False)]))

    def kill(self):
        self.dead = True
        for t in self.tasks:
            if t is not self.main and not t.done:
                t.sem.release()
        for t in getattr(self, "threads", ()):
            t.join()


class Process(object):

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name
        self.daemon = bool(daemon)
        self._task = None
        self._code = None

    def start(self):
        SCHED.start(self)
        SCHED.before()

    def join(self, timeout=None):
        SCHED.point(lambda: self._task.done)

    def is_alive(self):
        return self._task is not None and not self._task.done

    @property
    def exitcode(self):
        return self._code


class Queue(object):

    def __init__(self, maxsize=0):
        self.items = {}

    def put(self, obj, block=True, timeout=None):
        try:
            if not SCHED.symbolic:
                obj = pickle.dumps(obj)
            else:
                obj = clone(obj)
        except Exception:       # pylint: disable=broad-except
            # the feeder thread says so on stderr
            return
        self.items.setdefault(SCHED.current.name, []).append(obj)

    put_nowait = put

    def get(self, block=True, timeout=None):
        SCHED.point(lambda: any(self.items.values()), self)
        full = [k for k in sorted(self.items) if self.items[k]]
        SCHED.current.fresh = False
        obj = self.items[SCHED.pick("from", full)].pop(0)
        return obj if SCHED.symbolic else pickle.loads(obj)

    def empty(self):
        return not any(self.items.values())

    def close(self):
        pass

    def join_thread(self):
        pass

    cancel_join_thread = join_thread


class Patched(object):
    """ with Patched(c, fs) as sched: ... """

    def __init__(self, c, fs=None, preempt=0):
        self.c = c
        self.fs = fs
        self.preempt = preempt
        self.saved = []

    def patch(self, obj, name, new):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def __enter__(self):
        global SCHED
        SCHED = Sched(self.c, self.preempt)
        self.patch(multiprocessing, "Process", Process)
        self.patch(multiprocessing, "Queue", Queue)
        self.patch(multiprocessing, "SimpleQueue", Queue)
        if self.fs is not None:
            if self.c.symbolic:
                self.patch(self.fs, "before_mkdir", SCHED.before)
            else:
                real = os.mkdir

                def mkdir(*a, **k):
                    SCHED.before()
                    return real(*a, **k)
                self.patch(os, "mkdir", mkdir)
        return SCHED

    def __exit__(self, *a):
        global SCHED
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
        SCHED.kill()
        SCHED = None


threading.stack_size(64 * 1024 * 1024)
