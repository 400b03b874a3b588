"""Functions in threads and coroutines awaited by threads under a deterministic thread scheduler."""
import asyncio
import contextvars
import random

SPEC = "Bridge"
PROPS = ("Y01", "T01")
ENF = '{"Y01", "T01"}'
N_QUICK = 1500
N_THOROUGH = 12000
SCRIPT_LIMIT = 40
MODES = ["threaded", "separate", "new", "lazy", "nr", "exec", "deco"]


def design(tier):
    q = tier == "quick"
    return [dict(module="MCBridge", spec="MCSpec", invariants=["Obligations", "OutcomeTrue", "RetTrue"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", Depth=5, NJobs=2 if q else 3, NWaits=2, Modes='{"threaded", "nr"}'))]


def generated(tier):
    return [dict(module="MCBridge", num=200 if tier == "quick" else 1500, depth=45, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NJobs=6, NWaits=8, Depth=45,
                                                       Modes="{%s}" % ", ".join('"%s"' % m for m in MODES)))]


def trace_cfg(s):
    return {"x": 0}


def _common(rng):
    return dict(seed=rng.randrange(1 << 30), p=rng.choice([0, 0.02, 0.1, 0.3, 0.6]))


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] in ("jend", "cend"):
            o["x"] = rng.randrange(8)
        if o["e"] == "wait":
            o["m"] = rng.randrange(6)
        if rng.random() < 0.4:
            o["b"] = 1
        ops.append(o)
    return dict(_common(rng), ops=ops)


def random_script(rng, tier):
    ops = []
    n = w = 0
    burst = rng.choice([0, 0.3, 0.7])
    for _ in range(rng.randrange(4, 40)):
        k = rng.choices(["call", "cancel", "jend", "wait", "cend", "cancelall", "ccancel"], [4, 1, 4, 4, 4, 0.3, 0.7])[0]
        o = dict(e=k)
        if k == "call":
            n += 1
            o.update(j=n, m=rng.choice(MODES), v=rng.randrange(100))
        elif k == "cancel":
            o.update(j=rng.randrange(1, n + 2))
        elif k == "jend":
            o.update(j=rng.randrange(1, n + 2), k=rng.choice(["ok", "ok", "exc", "exc", "stop", "cancelled"]), x=rng.randrange(8))
        elif k == "wait":
            if not n:
                continue
            w += 1
            o.update(j=rng.randrange(1, n + 1), w=w, m=rng.randrange(6))
        elif k in ("cend", "ccancel"):
            o.update(w=rng.randrange(1, w + 2), k=rng.choice(["ok", "ok", "exc", "cancelled"]), x=rng.randrange(8))
        if rng.random() < burst:
            o["b"] = 1
        ops.append(o)
    return dict(_common(rng), ops=ops)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class EmptyBoom(Exception):
    def __len__(self):
        return 0


def outcome(kind, x, tag):
    """The value to return or exception to raise."""
    if kind == "ok":
        return [None, ("v", tag), 0, [], (), Boom("a value"), "", False][x]
    if kind == "exc":
        return [Boom(tag), BaseBoom(tag), EmptyBoom(tag), ValueError(tag), KeyError(tag), asyncio.TimeoutError(tag),
                StopAsyncIteration(tag), RuntimeError(tag)][x]
    if kind == "stop":
        return StopIteration(tag)
    return asyncio.CancelledError(tag)


def run_script(s):
    from harness import threads
    threads.install()
    import sys
    import threading

    import aiomisc
    from aiomisc.compat import set_current_loop
    from aiomisc.thread_pool import ThreadPoolExecutor, ThreadPoolStatistic, run_in_executor, run_in_new_thread
    VAR = contextvars.ContextVar("VAR")

    class R(threads.Run):
        ANY = ("jend", "wait")

        def setup(self):
            self.loop_thread = threading.get_ident()
            self.pool = ThreadPoolExecutor(32)
            self.pool2 = ThreadPoolExecutor(32)
            self.loop.set_default_executor(self.pool)
            self.main_end = self.loop.create_future()
            self.callers = {}
            self.values = {}
            self.running = {}      # j -> commands
            self.cores = {}
            self.coretasks = {}
            self.called, self.asked = set(), set()
            self.main = asyncio.current_task()

        def stats(self, j):
            """Statistics of the thread of this function, if it has its own."""
            trace = sys.gettrace()
            sys.settrace(None)
            try:
                d = {x.metric: x.value for x in aiomisc.get_statistics(ThreadPoolStatistic) if x.name == "own-%d-%d" % (id(self), j)}
            finally:
                sys.settrace(trace)
            return [d.get(k, -1) for k in ("threads", "submitted", "done", "success", "error")] if d else []

        # -- functions in threads
        def func(self, j, *a, **kw):
            ok = a == (j, "arg") and kw == {"kw": j}
            me = threading.get_ident()
            self.rec("jstart", j=j, t=me != self.loop_thread, v=VAR.get(-1), a=ok, s=self.stats(j))
            cmds = self.running[j] = []
            while True:
                cmd = cmds.pop(0) if cmds else self.gate(("j", j))
                if cmd["e"] == "jend":
                    break
                self.wait_for_coroutine(j, cmd["w"], cmd["m"])
            del self.running[j]
            v = self.values["j", j] = outcome(cmd["k"], cmd["x"], j)
            self.rec("jend", j=j, k=cmd["k"])
            if cmd["k"] == "ok":
                return v
            raise v

        def wait_for_coroutine(self, j, w, m):
            self.rec("wait", w=w, j=j)
            loop = self.loop
            me = threading.get_ident()
            try:
                if m == 0:
                    v = aiomisc.wait_coroutine(self.core(w))
                elif m == 1:
                    v = aiomisc.wait_coroutine(self.core(w), loop)
                elif m == 2:
                    v = aiomisc.sync_wait_coroutine(loop, self.core, w, kw=w)
                elif m == 3:
                    v = aiomisc.sync_wait_coroutine(None, self.core, w, kw=w)
                elif m == 4:
                    v = aiomisc.sync_await(self.core, w, kw=w)
                else:
                    # not a coroutine function, but returns an awaitable
                    v = aiomisc.sync_await(lambda x: self.core(x), w)
                k = "ok" if v is self.values.get(("c", w), self) else "wrong_value"
            except threads.Kill:
                raise
            except BaseException as e:
                mine = self.values.get(("c", w))
                if e is mine and not isinstance(e, asyncio.CancelledError):
                    k = "exc"
                elif isinstance(e, asyncio.CancelledError):
                    k = "cancelled"
                else:
                    k = "wrong_" + type(e).__name__
            self.rec("wret", w=w, k=k, s=threading.get_ident() == me)

        async def core(self, w, kw=None):
            self.rec("cstart", w=w, t=threading.get_ident() == self.loop_thread and asyncio.current_task() is not None)
            f = self.cores[w] = self.loop.create_future()
            self.coretasks[w] = asyncio.current_task()
            cmd = None
            try:
                cmd = await f
            except asyncio.CancelledError as e:
                self.values["c", w] = e
                self.rec("cend", w=w, k="cancelled")
                raise
            finally:
                del self.cores[w]
                del self.coretasks[w]
            k = cmd["k"]
            v = self.values["c", w] = outcome(k, cmd["x"] if k != "exc" or cmd["x"] != 6 else 0, w)
            self.rec("cend", w=w, k=k)
            if k == "ok":
                return v
            raise v

        # -- callers
        def make(self, j, m):
            a, kw = (j, j, "arg"), {"kw": j}
            f = self.func
            if m == "threaded":
                return aiomisc.threaded(f)(*a, **kw)
            if m == "separate":
                return aiomisc.threaded_separate(f)(*a, **kw)
            if m == "deco":
                return aiomisc.threaded_separate(False)(f)(*a, **kw)
            if m == "new":
                return run_in_new_thread(f, a, kw, statistic_name="own-%d-%d" % (id(self), j))
            if m == "nr":
                return run_in_new_thread(f, a, kw, no_return=True)
            if m == "exec":
                return run_in_executor(f, self.pool2, a, kw)
            asyncio._set_running_loop(None)
            try:
                return aiomisc.threaded(f)(*a, **kw)
            finally:
                asyncio._set_running_loop(self.loop)

        async def caller(self, j, m, v):
            VAR.set(v)
            set_current_loop(self.loop)
            try:
                aw = self.make(j, m)
                VAR.set(v + 1000)
                if m == "lazy":
                    VAR.set(v)
                r = await aw
                k = "ok" if r is self.values.get(("j", j), self) else "wrong_value"
            except asyncio.CancelledError:
                k = "cancelled"
            except BaseException as e:
                mine = self.values.get(("j", j))
                if e is mine:
                    k = "exc"
                elif isinstance(mine, StopIteration) and isinstance(e, RuntimeError):
                    # as coroutines do
                    k = "stop"
                else:
                    k = "wrong_" + type(e).__name__
            self.rec("res", j=j, k=k, t=threading.get_ident() == self.loop_thread)

        def perform(self, op):
            k = op["e"]
            if k == "call":
                j = op["j"]
                self.called.add(j)
                self.rec("call", j=j, m=op["m"], v=op["v"])
                t = self.callers[j] = self.loop.create_task(self.caller(j, op["m"], op["v"]))
                # cancelled before it began
                t.add_done_callback(lambda t: t.cancelled() and self.rec("res", j=j, k="cancelled", t=True))
            elif k == "cancel":
                t = self.callers.get(op["j"])
                if t is not None and not t.done() and op["j"] not in self.cancelled:
                    self.cancelled.add(op["j"])
                    self.rec("cancel", j=op["j"])
                    t.cancel()
            elif k in ("jend", "wait"):
                j = op["j"]
                if j not in self.running:
                    if k == "wait" or not self.running or not op.get("any"):
                        return
                    j = min(self.running)
                if k == "wait":
                    if op["w"] in self.asked:
                        return
                    self.asked.add(op["w"])
                if not self.open(("j", j), op):
                    self.running[j].append(op)
                self.rec._dirty = True
                return True
            elif k == "cend":
                f = self.cores.get(op["w"])
                if f is None and op.get("any") and self.cores:
                    f = self.cores[min(self.cores)]
                if f is not None and not f.done():
                    f.set_result(op)
                    self.rec._dirty = True
                    return True
            elif k == "ccancel":
                t = self.coretasks.get(op["w"])
                if t is not None:
                    t.cancel()
                    self.rec._dirty = True
                    return True
            elif k == "cancelall":
                self.rec("cancelall")
                for t in asyncio.all_tasks(self.loop):
                    if t is not self.main and t not in self.callers.values():
                        t.cancel()
            elif k == "end":
                if not self.main_end.done():
                    self.main_end.set_result(None)

    r = R(s)
    r.cancelled = set()
    n = len([o for o in s["ops"] if o["e"] in ("call", "wait")])
    for _ in range(n):
        r.ops += [dict(e="cend", w=0, k="ok", x=1, any=1), dict(e="jend", j=0, k="ok", x=1, any=1)]
    r.ops += [dict(e="adv", t=100), dict(e="end")]

    async def main():
        r.setup()
        await r.main_end

    return r.execute(main, trace_cfg(s))
