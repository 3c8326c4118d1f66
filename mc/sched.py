"""Controlled scheduler: two threads, one runs at a time, switched at chosen lines of the library's code.

Every line executed in a module of the library (and in the functions it generates) is a scheduling point. Locks created by the
library's modules are replaced by cooperative ones while the library is imported, so a thread that has to wait hands over the turn.
"""
from __future__ import annotations

import collections
import dis
import os
import pickle
import sys
import threading

REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
SEM = threading.Semaphore
CURRENT = None  # the running schedule, if any


class Deadlock(BaseException):
    pass


class CoopLock:
    """Lock or RLock that reports to the scheduler instead of blocking the process."""

    def __init__(self, reentrant):
        self.reentrant, self.owner, self.count = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or CURRENT is None:
                if CURRENT is None and blocking:
                    raise Deadlock("the lock is never released")
                return False
            CURRENT.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == threading.get_ident()


def install(root):
    """Locks created from now on by modules below `root` are cooperative."""
    root = os.path.join(os.path.realpath(root), "")

    def made_there():
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return False
            if os.path.realpath(f.f_code.co_filename).startswith(root):
                return True
            f = f.f_back
        return False

    threading.Lock = lambda: CoopLock(False) if made_there() else REAL_LOCK()
    threading.RLock = lambda: CoopLock(True) if made_there() else REAL_RLOCK()


class Pair:
    """Two activities; the turn is handed over explicitly."""

    def __init__(self, a, b):
        self.fns = [a, b]
        self.sems = [SEM(0), SEM(0)]
        self.idents = [None, None]
        self.done = [False, False]
        self.started = [False, False]
        self.waiting = [None, None]
        self.results = [None, None]
        self.dead = False
        self.threads = [None, None]

    def me(self):
        return 0 if threading.get_ident() == self.idents[0] else 1

    def switch(self, i):
        """Give the turn to the other one; returns when it comes back. `i` is the caller."""
        j = 1 - i
        if self.done[j]:
            return
        if not self.started[j]:
            self.start(j)
        else:
            self.sems[j].release()
        # a thread that neither finishes nor reports within the limit waits for something real: run on beside it
        self.sems[i].acquire(timeout=5)
        if self.dead:
            raise Deadlock("deadlock")

    def block(self, lock):
        i = self.me()
        self.waiting[i] = lock
        j = 1 - i
        w = self.waiting[j]
        if self.done[j] or (w is not None and w.owner is not None and w.owner != self.idents[j]):
            self.dead = True
            if not self.done[j]:
                self.sems[j].release()
            raise Deadlock("deadlock")
        self.switch(i)
        self.waiting[i] = None

    def start(self, j):
        self.started[j] = True

        def body():
            self.idents[j] = threading.get_ident()
            if self.tracer is not None and j in self.traced:
                sys.settrace(self.tracer)
            try:
                self.results[j] = self.fns[j]()
            except BaseException as e:  # noqa: BLE001
                self.results[j] = [f"crash:{type(e).__name__}: {e}"]
            finally:
                sys.settrace(None)
                self.done[j] = True
                self.sems[1 - j].release()

        self.threads[j] = threading.Thread(target=body, daemon=True)
        self.threads[j].start()

    tracer = None
    traced = ()


def lines(root):
    """A trace function factory: calls `point()` before every line of the library's modules and of the generated functions."""
    root = os.path.join(os.path.realpath(root), "")
    known = {}

    def ours(code):
        r = known.get(code)
        if r is None:
            fn = code.co_filename
            r = known[code] = (fn == "<string>" and not code.co_name.startswith("__")) or os.path.realpath(fn).startswith(root)
        return r

    def make(point):
        def local(frame, event, arg):
            if event == "line":
                point(frame)
            return local

        def glob(frame, event, arg):
            return local if ours(frame.f_code) else None

        return glob

    return make


BENIGN = {
    "__name__", "__args__", "__origin__", "__module__", "__qualname__", "__class__", "__supertype__", "__metadata__", "__value__", "__init__", "__mro__",
    "__bases__", "__dataclass_fields__", "__parameters__", "__orig_bases__", "__doc__", "__bound__", "__init_subclass__", "__post_init__", "__len__",
    "__wrapped__", "__annotations__", "__type_params__", "__forward_arg__", "__code__", "__globals__", "__members__", "__required_keys__", "__total__",
    "__constraints__", "__notes__"}
REFLECT = {"getattr", "hasattr", "setattr", "delattr", "vars", "globals", "exec", "eval", "is_dataclass"}


class Touches:
    """Which lines may access state that threads share (the others commute with everything the other thread does).

    Shared are: mutable globals of the library's modules (containers, and instances with identity), attributes of such instances and of the
    scope attached to a class, closure cells, and special attributes of classes other than those fixed when a class is created.
    """

    def __init__(self, package, attached=()):
        """`attached`: attributes of the records the library attaches to classes."""
        self.cache = {}
        names = set()
        self.mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == package]
        self.package = package
        for m in self.mods:
            for v in vars(m).values():
                if self.shared(v) and hasattr(v, "__dict__"):
                    names |= set(vars(v))
        self.attrs = names | set(attached) - {"name", "type"}

    def shared(self, v):
        t = type(v)
        if isinstance(v, type):
            return False
        if isinstance(v, (dict, list, set, collections.deque)):
            return True
        mod = t.__module__.split(".")[0]
        return mod in ("threading", "_thread", "contextvars", "queue") or (mod in (self.package, "mc") and t.__hash__ in (None, object.__hash__))

    def of(self, code, g):
        r = self.cache.get(code)
        if r is not None:
            return r
        r, refl, consts = set(), set(), {}
        line = code.co_firstlineno
        for i in dis.get_instructions(code):
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            a = i.argval
            if i.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                if a in REFLECT:
                    refl.add(line)
                elif a in g and self.shared(g[a]):
                    r.add(line)
            elif i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF", "BEFORE_WITH"):
                r.add(line)
            elif "ATTR" in i.opname or "METHOD" in i.opname:
                if a in self.attrs or (str(a).startswith("__") and a not in BENIGN):
                    r.add(line)
            elif i.opname == "LOAD_CONST" and isinstance(a, str):
                consts.setdefault(line, set()).add(a)
        for ln in refl:
            if not consts.get(ln, set()) & BENIGN:
                r.add(ln)
        self.cache[code] = r
        return r


def explore_one(a, b, root, child, touches=None, changed=None):
    """Run `a`; before each of its lines fork, and in the fork run `b` until it ends or has to wait, then the rest.

    With `touches`, only before the lines that may access shared state and where `changed()` differs from before.

    `child(results)` turns the two results into what is reported; yields (line number, report) for each schedule.
    """
    global CURRENT
    make = lines(root)
    out = []
    n = 0
    from .checks.c14 import in_child  # fork helper

    class Stop(BaseException):
        pass

    def whole():
        nonlocal n
        state = {"child": False, "pipe": None, "pair": None}

        def point(frame):
            nonlocal n
            if state["child"]:
                return
            n += 1
            if touches is not None:
                new = changed()
                same = new == state.get("fp")
                state["fp"] = new
                if same and frame.f_lineno not in touches.of(frame.f_code, frame.f_globals):
                    return
            k = n
            r, w = os.pipe()
            pid = os.fork()
            if pid:
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                os.waitpid(pid, 0)
                out.append((k, pickle.loads(data) if data else ("crash", "child died")))
                return
            os.close(r)
            sys.settrace(None)
            state["child"] = True
            state["pipe"] = w
            p = state["pair"] = Pair(None, b)
            p.idents[0] = threading.get_ident()
            p.started[0] = True
            global CURRENT
            CURRENT = p
            p.switch(0)

        sys.settrace(make(point))
        try:
            res = a()
        except BaseException as e:  # noqa: BLE001
            res = [f"crash:{type(e).__name__}: {e}"]
        finally:
            sys.settrace(None)
        if state["child"]:
            code = 1
            try:
                p = state["pair"]
                p.results[0], p.done[0] = res, True
                if not p.done[1]:
                    p.sems[1].release()
                    p.threads[1].join(5)
                if not p.done[1]:
                    p.results[1] = ["hang"]
                global_clear()
                rep = child(p.results)
                with os.fdopen(state["pipe"], "wb") as f:
                    pickle.dump(rep, f)
                code = 0
            finally:
                os._exit(code)
        out.append((0, child([res, b()])))
        return out

    def global_clear():
        global CURRENT
        CURRENT = None

    return in_child(whole)


def run_two(a, b, root, k, j):
    """Two preemptions: `a` up to its k-th line, `b` up to its j-th line, then `a` to its end, then `b`."""
    global CURRENT
    make = lines(root)
    p = Pair(a, b)
    counts = [0, 0]
    stops = [k, j]

    def point(frame):
        i = p.me()
        counts[i] += 1
        if counts[i] == stops[i]:
            p.switch(i)

    p.tracer, p.traced = make(point), (0, 1)
    CURRENT = p
    p.start(0)
    for i in (0, 1):
        while not p.done[0] or not p.done[1]:
            t = p.threads[0] if not p.done[0] else p.threads[1]
            if t is None:
                p.start(1)
                continue
            t.join(10)
            if t.is_alive():
                p.results[0 if t is p.threads[0] else 1] = ["hang"]
                CURRENT = None
                return p.results, counts
            if p.done[0] and not p.done[1] and not p.started[1]:
                p.start(1)
    CURRENT = None
    return p.results, counts
