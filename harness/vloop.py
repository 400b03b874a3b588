"""Deterministic asyncio event loop with a virtual clock.

The loop never sleeps: whenever nothing is ready to run it calls ``on_idle``
(a quiescent point of the system: every obligation that does not depend on the
environment or on time passing must have been discharged by then) and only then
jumps to the next timer.  Blocking forever is reported instead of happening.
"""
import asyncio
import selectors
import traceback


class Stuck(BaseException):
    """Nothing can ever run again (a deadlock of the whole program)."""


class Livelock(BaseException):
    """Too many loop iterations at one instant of virtual time."""


class _Selector(selectors.BaseSelector):
    def __init__(self):
        self.real = selectors.SelectSelector()
        self.owner = None

    def register(self, *a, **kw):
        return self.real.register(*a, **kw)

    def unregister(self, *a, **kw):
        return self.real.unregister(*a, **kw)

    def modify(self, *a, **kw):
        return self.real.modify(*a, **kw)

    def select(self, timeout=None):
        return self.owner._virtual_select(timeout)

    def close(self):
        self.real.close()

    def get_map(self):
        return self.real.get_map()

    def get_key(self, fileobj):
        return self.real.get_key(fileobj)


class VirtualLoop(asyncio.SelectorEventLoop):
    MAX_ITER = 20000

    def __init__(self, use_io=False):
        sel = _Selector()
        sel.owner = self
        self._vnow = 0.0
        self.on_idle = None           # callable()
        self.on_advance = None        # callable(new_time)
        self.on_stuck = None
        self._settlers = []
        self._iters = 0
        self._use_io = use_io
        self.errors = []
        super().__init__(sel)
        self.set_exception_handler(self._collect)

    def _collect(self, loop, context):
        self.errors.append(context)

    def time(self):
        return self._vnow

    def settle(self):
        fut = self.create_future()
        self._settlers.append(fut)
        return fut

    def _virtual_select(self, timeout):
        self._iters += 1
        if self._iters > self.MAX_ITER:
            self._iters = 0
            raise Livelock()
        if self._use_io:
            got = self._selector.real.select(0)
            if got:
                return got
        else:
            got = self._selector.real.select(0) if self._iters % 50 == 0 else []
            if got:
                return got
        if timeout == 0:
            return []
        # idle at the current instant
        got = self._selector.real.select(0)
        if got:
            return got
        if self.on_idle is not None:
            self.on_idle()
        if self._ready or self._stopping:
            return []
        while self._settlers:
            fut = self._settlers.pop(0)
            if not fut.done():
                fut.set_result(None)
                return []
        if not self._scheduled:
            if self._use_io:
                got = self._selector.real.select(0.05)
                if got:
                    return got
            if self.on_stuck is not None:
                self.on_stuck()
                if self._ready:
                    return []
            raise Stuck()
        when = self._scheduled[0]._when
        self._iters = 0
        if when > self._vnow:
            self._vnow = when
        else:
            self._vnow += 1e-6
        if self.on_advance is not None:
            self.on_advance(self._vnow)
        return []

    # executors run inline and instantly
    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except BaseException as e:
            fut.set_exception(e)
        return fut


class Recorder:
    def __init__(self, loop=None):
        self.ev = []
        self.loop = loop
        self.idle_fields = None
        self._dirty = True
        self.frozen = False
        self.error = None

    def __call__(self, e, **kw):
        if self.frozen:
            return None
        d = {"e": e}
        d.update(kw)
        self.ev.append(d)
        self._dirty = True
        return d

    def finish(self, status, cfg):
        if status != "ok":
            self.ev.append({"e": status})
        r = dict(cfg=cfg, ev=self.ev)
        if self.error:
            r["error"] = self.error
        return r

    def now(self):
        return int(round(self.loop.time() * 1000))

    def attach(self, loop, idle_fields=None):
        self.loop = loop
        self.idle_fields = idle_fields

        def on_idle():
            if self._dirty:
                kw = idle_fields() if idle_fields else {}
                self("idle", **kw)
                self._dirty = False

        def on_advance(t):
            ms = int(round(t * 1000))
            # collapse advances
            if self.ev and self.ev[-1]["e"] == "adv":
                self.ev[-1]["t"] = ms
            else:
                self.ev.append({"e": "adv", "t": ms})
            self._dirty = True

        loop.on_idle = on_idle
        loop.on_advance = on_advance


def run_virtual(main, rec, idle_fields=None, use_io=False, loop=None):
    """Run coroutine function ``main(loop)`` on a fresh virtual loop; returns
    'ok', 'stuck', 'livelock' or 'exc:<...>'."""
    loop = loop or VirtualLoop(use_io=use_io)
    rec.attach(loop, idle_fields)
    rec.error = None
    asyncio.set_event_loop(loop)
    status = "ok"
    try:
        task = loop.create_task(main(loop))
        loop.run_until_complete(task)
    except Stuck:
        status = "stuck"
    except Livelock:
        status = "livelock"
        if task.cancelled():
            status = "cancelled"
    except asyncio.CancelledError:
        status = "cancelled"
    except Exception:
        status = "raised"
        rec.error = traceback.format_exc()
    finally:
        rec.frozen = True
        loop.on_idle = loop.on_advance = loop.on_stuck = None
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            loop._settlers.clear()
            loop._iters = 0
            for _ in range(20):
                loop.call_soon(loop.stop)
                loop.run_forever()
                if not asyncio.all_tasks(loop):
                    break
        except BaseException:
            pass
        asyncio.set_event_loop(None)
        try:
            loop.close()
        except BaseException:
            pass
    return status
