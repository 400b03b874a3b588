"""Deterministic scheduler for real threads.

Only one managed thread runs at a time.  Control moves to another thread at the
operations of the (patched) synchronisation primitives and, with a probability
chosen per script, before any line of the code under test.  Time is virtual: it
advances when no thread can run.  A script is a list of operations performed
between quiescent points (or, in a burst, right after each other).
"""
import _thread
import asyncio
import queue
import random
import sys
import threading
import time

from harness.vloop import Livelock, Recorder, Stuck, VirtualLoop

SCHED = None
TRACED = "/repo/aiomisc"
_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real = {}


class Kill(SystemExit):
    pass


class VLock:
    """A lock which is a scheduling point for managed threads."""

    def __init__(self):
        self._lk = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if s is None or not s.managed():
            return self._lk.acquire(blocking, timeout)
        s.point()
        if self._lk.acquire(False):
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while True:
            s.block(lambda: not self._lk.locked(), None if end is None else end - s.now)
            if self._lk.acquire(False):
                return True
            if end is not None and s.now >= end:
                return False

    def release(self):
        self._lk.release()
        s = SCHED
        if s is not None and s.managed():
            s.point()

    def locked(self):
        return self._lk.locked()

    def _at_fork_reinit(self):
        self._lk = _real_lock()

    acquire_lock = acquire
    release_lock = release

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Managed:
    def __init__(self, name):
        self.name = name
        self.baton = _real_lock()
        self.baton.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.exc = None
        self.kills = 0
        self.why = ""


class Sched:
    MAX_POINTS = 400000

    def __init__(self, seed=0, p=0.1, tracing=True):
        self.rng = random.Random(seed)
        self.p = p
        self.now = 1000.0
        self.main = Managed("main")
        self.main.ident = _thread.get_ident()
        self.threads = [self.main]
        self.by_ident = {self.main.ident: self.main}
        self.by_thread = {}
        self.cur = self.main
        self.on_idle = None
        self.on_advance = None
        self.horizon = None
        self.dead = False
        self.points = 0
        self.tracing = tracing
        self.traced = (TRACED,)
        self.target = None

    def managed(self):
        return _thread.get_ident() in self.by_ident

    # -- scheduling
    def point(self):
        me = self.cur
        if self.dead:
            self._killed(me)
            return
        self.points += 1
        if self.points > self.MAX_POINTS:
            self.points = 0
            if me is self.main:
                raise Livelock()
            self.main.exc = Livelock()
            self.main.pred = None
            self._to(me, self.main)
            return
        if self.rng.random() < self.p:
            run = self._runnable()
            if len(run) > 1 or (run and run[0] is not me):
                nxt = self.rng.choice(run)
                if nxt is not me:
                    self._to(me, nxt)

    def _runnable(self):
        r = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is None or t.exc is not None:
                r.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                r.append(t)
            elif t.pred():
                r.append(t)
        return r

    def block(self, pred, timeout=None):
        me = self.cur
        if self.dead:
            self._killed(me)
            return
        me.deadline = None if timeout is None else self.now + max(timeout, 0)
        me.pred = pred
        try:
            nxt = self._next()
            if nxt is not me:
                self._to(me, nxt)
        finally:
            me.pred = None
            me.deadline = None
        if me.exc is not None:
            e, me.exc = me.exc, None
            raise e

    def _killed(self, me):
        if me is not self.main:
            me.kills += 1
            if me.kills < 2000:
                raise Kill()

    def _to(self, me, nxt):
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.dead:
            self._killed(me)
        elif me.exc is not None and me.pred is None:
            e, me.exc = me.exc, None
            raise e

    def _next(self):
        while True:
            run = self._runnable()
            if run:
                return self.rng.choice(run)
            if self.on_idle is not None and self.on_idle():
                continue
            ends = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if self.target is not None:
                ends.append(self.target)
            if not ends or (self.horizon is not None and min(ends) > self.horizon):
                self.main.exc = Stuck()
                continue
            self.now = max(self.now, min(ends))
            if self.on_advance is not None:
                self.on_advance(self.now)

    def start(self, func, args, kwargs):
        owner = getattr(func, "__self__", None)
        t = Managed(getattr(owner, "name", "thread"))
        self.threads.append(t)
        if owner is not None:
            self.by_thread[id(owner)] = t

        def body():
            t.baton.acquire()
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            if self.dead:
                t.done = True
                self.by_ident.pop(t.ident, None)
                self.cur = self.main
                self.main.baton.release()
                return
            if self.tracing:
                sys.settrace(self.tracer)
            try:
                func(*args, **kwargs)
            except SystemExit:
                pass
            except BaseException:
                pass
            finally:
                sys.settrace(None)
                t.done = True
                self.by_ident.pop(t.ident, None)
                if self.dead:
                    nxt = self.main
                else:
                    nxt = self._next()
                self.cur = nxt
                nxt.baton.release()
        return _real_start(body, ())

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.traced):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line" and SCHED is self:
            self.point()
        return self.local

    def kill(self):
        """Unwinds all other threads (called by the main thread)."""
        self.dead = True
        for t in list(self.threads):
            n = 0
            while t is not self.main and not t.done and n < 50:
                n += 1
                t.pred = t.deadline = None
                self.cur = t
                t.baton.release()
                if not self.main.baton.acquire(True, 2):
                    break

    def blocked(self):
        return [t.name for t in self.threads if not t.done and t is not self.main]


def install():
    """Patches the primitives; has to happen before the code under test is imported."""
    if _real:
        return
    _real["time"], _real["monotonic"], _real["sleep"] = time.time, time.monotonic, time.sleep
    _real["join"], _real["is_alive"] = threading.Thread.join, threading.Thread.is_alive

    def vtime():
        s = SCHED
        return s.now + 1.7e9 if s is not None and s.managed() else _real["time"]()

    def vmono():
        s = SCHED
        return s.now if s is not None and s.managed() else _real["monotonic"]()

    def vsleep(d):
        s = SCHED
        if s is None or not s.managed():
            return _real["sleep"](d)
        end = s.now + d
        s.block(lambda: False, d) if d > 0 else s.point()
        return None

    def start_new_thread(func, args=(), kwargs={}):
        s = SCHED
        if s is None or not s.managed():
            return _real_start(func, args, kwargs)
        return s.start(func, args, kwargs)

    def join(self, timeout=None):
        s = SCHED
        t = s.by_thread.get(id(self)) if s is not None else None
        if t is None:
            return _real["join"](self, timeout)
        s.block(lambda: t.done, timeout)

    def is_alive(self):
        s = SCHED
        t = s.by_thread.get(id(self)) if s is not None else None
        if t is None:
            return _real["is_alive"](self)
        return not t.done

    time.time, time.monotonic, time.sleep, time.perf_counter = vtime, vmono, vsleep, vmono
    threading.Lock = VLock
    threading._allocate_lock = VLock
    threading.RLock = threading._PyRLock
    threading._start_new_thread = start_new_thread
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
    threading._time = vmono
    queue.time = vmono
    queue.SimpleQueue = queue._PySimpleQueue
    threading.excepthook = lambda *a: None


class ThreadLoop(VirtualLoop):
    """An event loop whose thread is managed by the scheduler."""
    TICK = 1e-5
    in_select = False

    def __init__(self, sched):
        self.sched = sched
        self._woken = False
        super().__init__()

    def time(self):
        return self.sched.now

    def _write_to_self(self):
        self._woken = True

    def call_soon_threadsafe(self, callback, *args, context=None):
        if self.sched.managed():
            self.sched.point()
        r = super().call_soon_threadsafe(callback, *args, context=context)
        if self.sched.managed():
            self.sched.point()
        return r

    def run_in_executor(self, executor, func, *args):
        return asyncio.SelectorEventLoop.run_in_executor(self, executor, func, *args)

    def _virtual_select(self, timeout):
        s = self.sched
        if timeout == 0 or self._ready:
            s.now += self.TICK
            s.point()
            self._woken = False
            return []
        self.in_select = True
        try:
            s.block(lambda: self._woken or self._ready or self._stopping, timeout)
        finally:
            self.in_select = False
        self._woken = False
        return []


class Run:
    """One script: subclass and define perform(op), setup(), cleanup()."""
    SPARE = 60
    ANY = ()          # operations which may be performed while the loop is blocked

    def __init__(self, s):
        self.s = s
        self.rec = Recorder()
        self.sched = Sched(s["seed"], s.get("p", 0.1), s.get("tracing", True))
        self.ops = list(s["ops"])
        self.gates = {}
        self.finished = False
        self.scheduled = False

    # -- user code inside threads
    def gate(self, key):
        """Blocks the calling thread until the gate is opened; returns its value."""
        g = self.gates[key] = []
        self.sched.block(lambda: bool(g))
        return g[0]

    def open(self, key, val=None):
        g = self.gates.pop(key, None)
        if g is None:
            return False
        g.append(val)
        return True

    def adv(self, dt):
        self.sched.target = self.sched.now + dt

    def idle_fields(self):
        return {}

    def record_idle(self):
        if self.rec._dirty:
            self.rec("idle", **self.idle_fields())
            self.rec._dirty = False

    def on_idle(self):
        if self.finished:
            return False
        s = self.sched
        if s.target is not None:
            if s.now < s.target:
                return False
            s.target = None
            self.rec._dirty = True
        self.record_idle()
        if self.scheduled:
            return False
        if not self.ops:
            return False
        if self.loop_free():
            self.scheduled = True
            self.loop.call_soon(self._drive)
            self.loop._woken = True
            return True
        for i, op in enumerate(self.ops):
            if op["e"] in self.ANY or op["e"] == "adv":
                del self.ops[i]
                n = len(self.rec.ev)
                done = self._perform(op)
                if done or len(self.rec.ev) != n or s.target is not None:
                    return s.target is None
                return self.on_idle()
        return False

    def loop_free(self):
        return self.loop.in_select

    def _perform(self, op):
        if op["e"] == "adv":
            self.adv(op["t"] / 1000)
            return False
        return self.perform(op)

    def _drive(self):
        self.scheduled = False
        while self.ops:
            op = self.ops.pop(0)
            n = len(self.rec.ev)
            try:
                done = self._perform(op)
            except Exception as e:
                # neither the driver nor what it calls may fail
                import traceback
                self.rec.error = traceback.format_exc()
                self.rec("failed", op=op["e"], x=type(e).__name__)
                done = True
            if self.sched.target is not None:
                return
            if op.get("b"):
                for _ in range(self.sched.rng.choice([0, 0, 1, 3])):
                    self.sched.point()
                if self.sched.rng.random() < 0.5:
                    # let the loop run
                    self.scheduled = True
                    self.loop.call_soon(self._drive)
                    return
                continue
            if done or len(self.rec.ev) != n:
                return

    def on_advance(self, t):
        ms = int(round((t - 1000) * 1000))
        if self.rec.frozen:
            return
        if self.rec.ev and self.rec.ev[-1]["e"] == "adv":
            self.rec.ev[-1]["t"] = ms
        else:
            self.rec.ev.append({"e": "adv", "t": ms})

    def execute(self, main, cfg):
        """Runs coroutine function main() to its end; the operations are performed meanwhile."""
        global SCHED
        import gc
        s, rec = self.sched, self.rec
        # nothing is waited for longer than that
        s.horizon = s.now + sum(o["t"] for o in self.ops if o["e"] == "adv") / 1000 + self.SPARE
        status = "ok"
        gc.collect()
        gc.disable()
        loop = self.loop = ThreadLoop(s)
        rec.loop = loop
        s.on_idle, s.on_advance = self.on_idle, self.on_advance
        asyncio.set_event_loop(loop)
        SCHED = s
        if s.tracing:
            sys.settrace(s.tracer)
        try:
            loop.run_until_complete(main())
        except Stuck:
            status = "stuck"
        except Livelock:
            status = "livelock"
        except asyncio.CancelledError:
            status = "cancelled"
        except Exception:
            import traceback
            rec.error = traceback.format_exc()
            status = "raised"
        finally:
            sys.settrace(None)
            self.finished = True
            r = rec.finish(status, cfg)
            rec.frozen = True
            s.on_idle = s.on_advance = None
            s.kill()
            SCHED = None
            asyncio.set_event_loop(None)
            try:
                for t in asyncio.all_tasks(loop):
                    t._log_destroy_pending = False
                loop._ready.clear()
                loop._scheduled.clear()
                loop.close()
            except BaseException:
                pass
            gc.enable()
        return r
