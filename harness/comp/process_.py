"""aiomisc.service: ProcessService and RespawningProcessService with child processes played by the script."""
import asyncio
import os
import random
import signal
import threading

SPEC = "Process"
PROPS = ("V01",)
ENF = '{"V01"}'
N_QUICK = 2500
N_THOROUGH = 25000
UNIT = 100


def design(tier):
    q = tier == "quick"
    return [dict(module="MCProcess", spec="MCSpec", timeout=900, invariants=["Obligations", "DownIsDown", "OneChild"],
                 constants=dict(Enforce=ENF, Diagnose="FALSE", NProcs=2 if q else 3, Modes="{TRUE, FALSE}", Depth=5,
                                Times="{1000, 2000}", Unit=1000, MaxTime=6000 if q else 12000))]


def generated(tier):
    c = dict(Enforce=ENF, Diagnose="FALSE", Modes="{TRUE, FALSE}", Times="{1000, 2000, 3000}", Unit=1000, NProcs=99,
             MaxTime=10 ** 6)
    k = 1 if tier == "quick" else 8
    g = dict(module="MCProcess", init="MCInit", next_="GenNext", constraint="GenPrint")
    return [dict(g, num=500 * k, depth=34, constants=dict(c, Depth=34)),
            dict(g, num=300 * k, depth=16, constants=dict(c, Depth=16))]


def trace_cfg(s):
    return {"resp": s["resp"], "poll": s["poll"], "tmo": s["tmo"]}


def relevant(s, pid):
    return True


def common(rng):
    return dict(entry=rng.random() < 0.6, seed=rng.randrange(1 << 30), burst=rng.choice([0.0, 0.3, 0.7, 1.0]))


def from_generated(g, rng):
    c, ops, t = g["cfg"], [], 0
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "adv":
            o["dt"] = o["t"] - t
            t = o["t"]
        ops.append(o)
    return dict(common(rng), resp=c["resp"], poll=c["poll"], tmo=c["tmo"], ops=ops)


def random_script(rng, tier):
    s = dict(common(rng), resp=rng.random() < 0.6, poll=rng.choice([100, 200, 500, 1000]), tmo=rng.choice([100, 300, 1000]))
    ops = [dict(e="start")]
    style = rng.choice(["any", "healthy", "healthy"])
    for j in range(rng.randrange(3, 36)):
        if style == "healthy" and ops[-1]["e"] in ("start", "dead") and rng.random() < 0.8:
            if ops[-1]["e"] == "dead":
                ops.append(dict(e="adv", dt=s["poll"]))
            ops.append(dict(e="boot"))
        k = rng.choices(["boot", "over", "dead", "adv", "stop"], [4, 3, 3, 6, 1])[0]
        o = dict(e=k)
        if k == "adv":
            o["dt"] = rng.choice([s["poll"], s["tmo"], s["tmo"] // 2, 50, 100, s["poll"] // 2, 1000])
        elif k == "over":
            o["k"] = rng.choice(["ok", "raise"])
        elif k == "dead":
            o["silent"] = rng.random() < 0.5
        ops.append(o)
    return dict(s, ops=ops)


class Gone(BaseException):
    pass


def run_script(s):
    from harness.vloop import Recorder, VirtualLoop, run_virtual

    from aiomisc.service import process as module
    rec = Recorder()
    rng = random.Random(s["seed"])
    state = {"in": False, "end": False}
    procs = []
    loop_ref = []

    def blocking(fut, what):
        if state["in"]:
            return fut
        rec("blocks_the_loop", what=what)
        return False

    class FakeEvent:
        def __init__(self):
            self.flag = False
            self.waiters = []

        def is_set(self):
            return self.flag

        def clear(self):
            self.flag = False

        def set(self):
            p = current[0]
            if p is not None:
                if not p.alive:
                    return
                c = p.args_events.index(self) if self in p.args_events else -1
                rec("up" if c == 0 else "fin" if c == 1 else "unknown_event", p=p.n)
            self.flag = True
            for f in self.waiters:
                if not f.done():
                    f.set_result(True)
            self.waiters = []

        def wait(self, timeout=None):
            if self.flag:
                return True
            f = loop_ref[0].create_future()
            self.waiters.append(f)
            if timeout is not None:
                loop_ref[0].call_later(timeout, lambda: f.done() or f.set_result(self.flag))
            return blocking(f, "event")

    current = [None]        # the child which is running

    class FakeProcess:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self.target, self.args, self.kwargs = target, args, dict(kwargs or {})
            self.name = name
            self.pid = None
            self.alive = False
            self.waiters = []
            self.exitcode = None
            self.args_events = [a for a in list(args) + list(self.kwargs.values()) if isinstance(a, FakeEvent)]
            self.thread = None
            self.go = threading.Semaphore(0)
            self.back = threading.Semaphore(0)
            self.how = None
            self.hooked = False

        def start(self):
            procs.append(self)
            self.n = len(procs)
            self.pid = 4000000 + self.n
            self.alive = True
            rec("spawn", p=self.n)

        def is_alive(self):
            return self.alive

        def join(self, timeout=None):
            if not self.alive:
                return None
            f = loop_ref[0].create_future()
            self.waiters.append(f)
            if timeout is not None:
                loop_ref[0].call_later(timeout, lambda: f.done() or f.set_result(None))
            return blocking(f, "join")

        def kill(self):
            if self.alive:
                rec("kill", p=self.n)
                self.die(-9)

        def terminate(self):
            if self.alive:
                rec("sigint", p=self.n)

        def close(self):
            pass

        # -- the script
        def die(self, code):
            if not self.alive:
                return
            rec("dead", p=self.n)
            self.alive = False
            self.exitcode = code
            for f in self.waiters:
                if not f.done():
                    f.set_result(None)

        def resume(self):
            current[0] = self
            self.go.release()
            self.back.acquire()
            current[0] = None

        def boot(self):
            def body():
                self.go.acquire()
                try:
                    self.target(*self.args, **self.kwargs)
                except BaseException:
                    pass
                self.ended = True
                self.back.release()
            self.ended = False
            self.thread = threading.Thread(target=body, daemon=True)
            self.thread.start()
            self.resume()

        def park(self):
            self.hooked = True
            self.back.release()
            self.go.acquire()
            self.hooked = False
            if self.how == "gone":
                raise Gone()
            if self.how == "raise":
                raise RuntimeError("hook")

    def fake_kill(pid, sig):
        for p in procs:
            if p.pid == pid and p.alive:
                if sig in (signal.SIGINT, signal.SIGTERM):
                    rec("sigint", p=p.n)
                elif sig == signal.SIGKILL:
                    p.kill()
                return
        rec("sigint", p=-1)

    class Mixin:
        process_stop_timeout = s["tmo"] / 1000
        process_poll_timeout = s["poll"] / 1000

        def get_process_kwargs(self):
            return {"token": len(procs) + 1}

        def in_process(self, token):
            p = current[0]
            rec("hook", p=p.n, x=token == p.n)
            p.park()

    class Plain(Mixin, module.ProcessService):
        pass

    class Resp(Mixin, module.RespawningProcessService):
        pass

    class Loop(VirtualLoop):
        def run_in_executor(self, executor, func, *args):
            state["in"] = True
            try:
                r = func(*args)
            except BaseException as e:
                r = self.create_future()
                r.set_exception(e)
                return r
            finally:
                state["in"] = False
            if isinstance(r, asyncio.Future):
                return r
            f = self.create_future()
            if rng.random() < late:
                # a thread takes its time
                self.call_soon(self.call_soon, lambda: f.done() or f.set_result(r))
            else:
                f.set_result(r)
            return f

    late = rng.choice([0, 0.5, 1])

    async def main(loop):
        svc = (Resp if s["resp"] else Plain)(name="child")
        svc.set_loop(loop)
        start = stopping = None

        async def call(name, f):
            rec(name)
            name = {"start": "started", "stop": "stopped"}[name]
            if name == "stopped" and s["entry"] and start is not None and not start.done():
                start.cancel()
                await asyncio.wait([start])
            try:
                await f()
            except asyncio.CancelledError:
                rec(name, r="cancelled")
                raise
            except Exception:
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
                rec(name, r="error")
            else:
                rec(name, r="ok")

        for op in s["ops"]:
            e = op["e"]
            p = procs[op.get("p", len(procs)) - 1] if 0 < op.get("p", len(procs)) <= len(procs) else None
            if e == "start":
                start = loop.create_task(call("start", svc.start))
                await asyncio.sleep(0)
            elif e == "stop":
                if stopping is None:
                    stopping = loop.create_task(call("stop", svc.stop))
            elif e == "adv":
                await loop.settle()
                await asyncio.sleep(op["dt"] / 1000)
            elif p is None or not p.alive:
                continue
            elif e == "boot":
                if p.thread is None:
                    rec("boot", p=p.n)
                    p.boot()
            elif e == "over":
                if p.hooked:
                    rec("over", p=p.n, k=op["k"])
                    p.how = op["k"]
                    p.resume()
            elif e == "dead":
                p.die(rng.choice([0, 1, -9]))
            if rng.random() >= s["burst"]:
                await loop.settle()
        await loop.settle()
        if stopping is None:
            stopping = loop.create_task(call("stop", svc.stop))
        await loop.settle()
        await asyncio.sleep(7)
        await loop.settle()
        rec.frozen = True

    loop = Loop()
    loop_ref.append(loop)
    saved = {k: getattr(module, k) for k in ("Process", "Event", "basic_config")}
    real_kill = os.kill
    module.Process, module.Event, module.basic_config = FakeProcess, FakeEvent, lambda *a, **kw: None
    os.kill = fake_kill
    from aiomisc_log import LOG_FORMAT, LogFormat
    token = LOG_FORMAT.set(LogFormat.plain) if s["seed"] % 2 else None
    try:
        status = run_virtual(main, rec, loop=loop)
    finally:
        os.kill = real_kill
        if token is not None:
            LOG_FORMAT.reset(token)
        for k, v in saved.items():
            setattr(module, k, v)
        for p in procs:
            if p.thread is not None and not p.ended:
                p.how = "gone"
                p.alive = False
                p.resume()
                p.thread.join(5)
    return rec.finish(status, trace_cfg(s))
