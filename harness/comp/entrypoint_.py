"""aiomisc.entrypoint: services' life cycle."""
import asyncio
import random
import signal

from harness.vloop import Recorder, Stuck, VirtualLoop, Livelock

SPEC = "Entrypoint"
PROPS = ("E01", "E02")
N_QUICK = 2500
N_THOROUGH = 12000


def design(tier):
    q = tier == "quick"
    base = dict(Enforce='{"E01", "E02"}', Diagnose="FALSE", Depth=5, Modes="<- ModesAll")
    kw = dict(module="MCEntrypoint", spec="MCSpec", invariants=["Obligations", "AllStoppedAtExit", "ReadyWhenEntered"],
              properties=["Once"])
    return [dict(kw, constants=dict(base, NS=2 if q else 3, ND=0, NBg=0 if q else 1, NWait=0, Tmo=1, MaxT=0 if q else 1)),
            dict(kw, constants=dict(base, NS=1, ND=0, NBg=1, NWait=1, Tmo=1, MaxT=1)),
            dict(kw, constants=dict(base, NS=2, ND=1, NBg=0, NWait=0, Tmo=2, MaxT=0 if q else 1))]


def generated(tier):
    n = 60 if tier == "quick" else 600
    return [dict(module="MCEntrypoint", num=n, depth=50, init="MCInit", next_="GenNext", constraint="GenPrint",
                 constants=dict(Enforce='{"E01", "E02"}', Diagnose="FALSE", NS=3, ND=2, NBg=1, NWait=1, Tmo=2,
                                MaxT=6, Depth=50, Modes="<- ModesGen"))]


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "hook":
            o = dict(e="hend")
        elif o["e"] == "dstop":
            o = dict(e="dstop", b=o["b"], n=1)
        elif o["e"] == "adv":
            o["t"] *= 1000
        ops.append(o)
    if not ops or ops[0]["e"] != "enter":
        ops.insert(0, dict(e="enter", ss=[]))
    return dict(seed=rng.randrange(1 << 30), mode=g["cfg"]["mode"], tmo=g["cfg"]["tmo"] * 1000, ops=ops, auto=0,
                hauto=0, stub=rng.choice([0, 0.3]), burst=rng.choice([0, 0, 0.3]), clean="exit")


def trace_cfg(s):
    return {"mode": s["mode"], "tmo": s["tmo"]}


def random_script(rng, tier):
    mode = rng.choice(["with", "with", "forever", "async", "async", "run"])
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    ops = [dict(e="enter", ss=list(range(1, n + 1)))]
    ns, nd, nb, nw, t = n, 0, 0, 0, 0
    dying = False
    for _ in range(rng.randrange(4, 40)):
        k = rng.choices(["sev", "send", "pend", "hend", "bg", "bgend", "wait", "adv", "dstart", "dstop", "intr", "exit"],
                        [3, 6, 5 if dying else 1, 3, 1.5, 1, 0.7, 2, 0.7, 0.6, 0.5, 0.7])[0]
        s = rng.randrange(1, ns + 1) if ns else 1
        if k == "sev":
            ops.append(dict(e=k, s=s))
        elif k == "send":
            ops.append(dict(e=k, s=s, k=rng.choice(["ok"] * 6 + ["raise"])))
        elif k == "pend":
            ops.append(dict(e=k, s=s, k=rng.choice(["ok"] * 3 + ["raise"])))
        elif k == "hend":
            ops.append(dict(e=k))
        elif k in ("bg", "bgend"):
            nb += k == "bg"
            ops.append(dict(e=k, x=nb if k == "bg" else rng.randrange(1, nb + 2)))
        elif k == "wait":
            nw += 1
            ops.append(dict(e=k, w=nw))
        elif k == "adv":
            t += rng.choice([100, 100, 500, 3000])
            ops.append(dict(e=k, t=t))
        elif k == "dstart":
            nd += 1
            m = rng.randrange(1, 3)
            ops.append(dict(e=k, g=nd, ss=list(range(ns + 1, ns + m + 1))))
            ns += m
        elif k == "dstop":
            nd += 1
            ops.append(dict(e=k, b=nd, n=rng.randrange(1, 3)))
        elif k == "intr":
            ops.append(dict(e=k))
            dying = True
        else:
            ops.append(dict(e=k, k=rng.choice(["none", "none", "exc"])))
            dying = True
    return dict(seed=rng.randrange(1 << 30), mode=mode, tmo=rng.choice([1000, 5000, 60000]), ops=ops,
                auto=rng.choice([0, 0.3, 0.7, 1]), hauto=rng.choice([0.6, 1, 1]), stub=rng.choice([0, 0, 0.4]),
                burst=rng.choice([0, 0, 0.4]), clean=rng.choice(["exit", "exit", "intr"]))


class Boom(Exception):
    pass


class EpLoop(VirtualLoop):
    async def shutdown_default_executor(self, timeout=None):
        for _ in range(4):
            await asyncio.sleep(0)
        if self._default_executor is not None:
            self._default_executor.shutdown(wait=True)


class Policy(asyncio.DefaultEventLoopPolicy):
    loop = None

    def new_event_loop(self):
        return self.loop


def run_script(s):
    import aiomisc
    from aiomisc.service import Service
    rng = random.Random(s["seed"])
    rec = Recorder()
    loop = EpLoop()
    rec.attach(loop)
    gates, services, tasks, waiting = {}, {}, {}, {}
    state = dict(over=False, exiting=False, intr=False, entered=False, left=False, dyn=0, ep=None)
    groups, batches = {}, {}
    hooks = []

    async def gate(key):
        f = gates[key] = loop.create_future()
        try:
            return await f
        finally:
            gates.pop(key, None)

    async def pause():
        d = rng.choice([0, 0, 0.1, 0.1, 0.3, 1, 2])
        if d:
            await asyncio.sleep(d)
        else:
            for _ in range(rng.randrange(3)):
                await asyncio.sleep(0)

    class Svc(Service):
        async def start(self):
            n = self.number
            rec("sbegin", s=n, ok=self.loop is loop and asyncio.get_running_loop() is loop)
            stub = rng.random() < s["stub"]
            auto = rng.random() < s["auto"]
            steps = rng.choice([["ok"], ["ok"], ["ok"], ["ev", "ok"], ["ev", "never"], ["raise"] if rng.random() < 0.3 else ["ok"],
                                ["ev", "raise"]])
            while True:
                try:
                    if auto:
                        if rng.random() < 0.7:
                            await pause()
                        k = steps[0]
                        steps = steps[1:]
                        if k == "never":
                            auto = False
                            continue
                    else:
                        k = await gate(("s", n))
                except asyncio.CancelledError:
                    rec("screq", s=n)
                    if stub:
                        stub = auto = False
                        continue
                    rec("send", s=n, k="cancelled")
                    raise
                if k == "ev":
                    rec("sev", s=n)
                    self.start_event.set()
                    continue
                rec("send", s=n, k=k)
                if k == "raise":
                    raise Boom("start", n)
                return

        async def stop(self, exception=None):
            n = self.number
            if exception is None:
                x = "none"
            elif isinstance(exception, Boom) and exception.args[0] == "body":
                x = "exc"
            elif isinstance(exception, SystemExit):
                x = "exit70"
            elif isinstance(exception, RuntimeError) and "nterrupt" in str(exception):
                x = "intr"
            elif isinstance(exception, asyncio.CancelledError):
                x = "intr"
            else:
                x = repr(exception)
            rec("pbegin", s=n, x=x)
            stub = rng.random() < s["stub"]
            auto = rng.random() < s["auto"]
            while True:
                try:
                    if auto:
                        await pause()
                        k = rng.choice(["ok", "ok", "ok", "raise"])
                    else:
                        k = await gate(("p", n))
                except asyncio.CancelledError:
                    rec("pcreq", s=n)
                    if stub:
                        stub = auto = False
                        continue
                    rec("pend", s=n, k="cancelled")
                    raise
                rec("pend", s=n, k=k)
                if k == "raise":
                    raise Boom("stop", n)
                return

    def mk(ss):
        for n in ss:
            services[n] = Svc(number=n)
        return [services[n] for n in ss]

    def hook(name):
        async def f(entrypoint, services):
            ss = sorted(x.number for x in services)
            table = groups if name in ("pre_start", "post_start") else batches
            g = table.get(frozenset(ss), 0)
            if entrypoint is not state["ep"] and state["ep"] is not None:
                rec("other_entrypoint")
            rec("hook", h=name, a="b", g=g, ss=ss)
            try:
                if rng.random() < s["hauto"]:
                    if rng.random() < 0.4:
                        await pause()
                else:
                    key = ("h", name, g, rng.random())
                    await gate(key)
            except asyncio.CancelledError:
                rec("hook", h=name, a="c", g=g, ss=ss)
                raise
            rec("hook", h=name, a="e", g=g, ss=ss)
        return f

    hooks_f = {h: hook(h) for h in ("pre_start", "post_start", "pre_stop", "post_stop")}

    def connect(ep):
        state["ep"] = ep
        for h, f in hooks_f.items():
            getattr(ep, h).connect(f)

    async def background(x):
        rec("bg", x=x)
        stub = rng.random() < s["stub"]
        while True:
            try:
                await gate(("b", x))
            except asyncio.CancelledError:
                rec("bgcreq", x=x)
                if stub:
                    stub = False
                    continue
                rec("bgend", x=x)
                raise
            rec("bgend", x=x)
            return

    async def waiter(w):
        rec("wait", w=w)
        try:
            await state["ep"].closing()
        finally:
            rec("closed", w=w)

    def outcome(e):
        if e is None:
            return "ok", 0
        if isinstance(e, Boom) and e.args[0] in ("start", "stop"):
            return "raise", e.args[1]
        return type(e).__name__, 0

    async def dstart(op):
        err = None
        try:
            await state["ep"].start_services(*[services[n] for n in op["ss"]])
        except Boom as e:
            err = e
        except asyncio.CancelledError:
            return
        k, n = outcome(err)
        rec("dstarted", g=op["g"], k=k, s=n)
        state["dyn"] -= 1

    async def dstop(b, ss):
        try:
            await state["ep"].stop_services(*[services[n] for n in ss])
        except Boom:
            pass
        except asyncio.CancelledError:
            return
        rec("dstopped", b=b)
        state["dyn"] -= 1

    def has(e, n):
        return any(x["e"] == e and x.get("s") == n for x in rec.ev)

    target = [None]
    exit_fut = []

    def set_gate(key, val):
        f = gates.get(key)
        if f is None or f.done():
            return False
        f.set_result(val)
        return True

    def do_exit(k):
        if state["exiting"] or not state["entered"] or state["dyn"] or state["left"]:
            return
        state["exiting"] = True
        if s["mode"] == "forever":
            k = "none"
        rec("exit", k=k)
        if s["mode"] == "forever":
            loop.stop()
        else:
            f = exit_fut[0]
            if not f.done():
                if k == "exc":
                    f.set_exception(Boom("body", 0))
                else:
                    f.set_result(None)

    def do_intr():
        if state["intr"] or state["exiting"] or not state["entered"] or state["dyn"]:
            return
        state["intr"] = True
        rec("intr")
        signal.raise_signal(signal.SIGTERM)

    def stopping():
        return state["intr"] or state["exiting"]

    def perform(op):
        k = op["e"]
        if k == "sev":
            set_gate(("s", op["s"]), "ev")
        elif k == "send":
            set_gate(("s", op["s"]), op["k"])
        elif k == "pend":
            set_gate(("p", op["s"]), op["k"])
        elif k == "hend":
            hs = sorted(x for x in gates if x[0] == "h")
            if hs:
                set_gate(hs[0], None)
        elif k == "bg" and state["entered"] and not stopping():
            tasks["b", op["x"]] = loop.create_task(background(op["x"]))
        elif k == "bgend":
            set_gate(("b", op["x"]), None)
        elif k == "wait" and state["entered"] and not state["over"]:
            if not stopping() or s["mode"] == "async" or True:
                if not (stopping() and s["mode"] != "async"):
                    tasks["w", op["w"]] = loop.create_task(waiter(op["w"]))
        elif k == "dstart" and state["entered"] and not stopping():
            rec("dstart", g=op["g"], ss=op["ss"])
            groups[frozenset(op["ss"])] = op["g"]
            mk(op["ss"])
            tasks["d", op["g"]] = loop.create_task(dstart(op))
            state["dyn"] += 1
        elif k == "dstop" and state["entered"] and not stopping() and not state["dyn"]:
            cand = [n for n in services if has("sbegin", n) and has("send", n) and not has("pbegin", n)
                    and not any(n in b for b in batches)]
            ss = cand[:op["n"]]
            if ss:
                rec("dstop", b=op["b"], ss=ss)
                batches[frozenset(ss)] = op["b"]
                state["dyn"] += 1
                tasks["d", op["b"]] = loop.create_task(dstop(op["b"], ss))
        elif k == "intr":
            do_intr()
        elif k == "exit":
            do_exit(op["k"])
        elif k == "adv":
            if op["t"] / 1000 > loop.time():
                target[0] = op["t"] / 1000
                loop.call_at(target[0], lambda: None)
                return "wait"

    ops = list(s["ops"][1:])
    left = [400]

    def on_idle():
        if rec._dirty:
            rec("idle")
            rec._dirty = False
        if state["over"]:
            return
        if target[0] is not None:
            if loop.time() < target[0] - 1e-9:
                return
            target[0] = None
        while ops:
            n = len(rec.ev)
            if perform(ops.pop(0)) == "wait":
                return
            if loop._ready and rng.random() >= s["burst"]:
                return
        if loop._ready:
            return
        # clean up
        left[0] -= 1
        if left[0] <= 0:
            rec("never_ends")
            raise Stuck()
        for key in sorted(gates, key=repr):
            if key[0] in "h":
                set_gate(key, None)
            elif key[0] == "s" and (not stopping() or has("screq", key[1])):
                set_gate(key, "ok")
            elif key[0] == "p":
                set_gate(key, "ok")
            elif key[0] == "b" and any(e["e"] == "bgcreq" and e["x"] == key[1] for e in rec.ev):
                set_gate(key, None)
        if loop._ready or loop._scheduled:
            if loop._ready or not stopping():
                if loop._ready:
                    return
        if state["entered"] and not stopping():
            if s["clean"] == "intr":
                do_intr()
            else:
                do_exit("none")
            if loop._ready:
                return
        if not loop._scheduled and not loop._stopping:
            rec("never_ends")
            raise Stuck()

    loop.on_idle = on_idle

    async def body(ep=None):
        if s["mode"] in ("run", "async"):
            state["entered"] = True
            rec("entered", k="ok", s=0)
        try:
            await exit_fut[0]
        except asyncio.CancelledError:
            rec("maincreq")
            raise

    kw = dict(log_config=False, shutdown_timeout=s["tmo"] / 1000)
    first = s["ops"][0]["ss"]
    Policy.loop = loop
    policy = Policy()
    old = {x: signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)}
    status = "ok"

    def ctx_released():
        try:
            aiomisc.get_context(loop)
        except Exception:
            return True
        return False

    def exited(e):
        k, n = outcome(e)
        rec("exited", k=k, s=n, ctx=ctx_released())

    try:
        exit_fut.append(loop.create_future())
        svcs = mk(first)
        rec("enter", mode=s["mode"], ss=first)
        groups[frozenset(first)] = 0
        if s["mode"] in ("with", "forever"):
            ep = aiomisc.entrypoint(*svcs, policy=policy, pool_size=1, **kw)
            connect(ep)
            err = None
            try:
                ep.__enter__()
            except Boom as e:
                err = e
            k, n = outcome(err)
            rec("entered", k=k, s=n)
            if err is None:
                state["entered"] = True
                exc = (None, None, None)
                try:
                    if s["mode"] == "with":
                        loop.run_until_complete(body())
                    else:
                        loop.run_forever()
                    state["left"] = True
                except BaseException as e:
                    if isinstance(e, (Stuck, Livelock)):
                        raise
                    exc = (type(e), e, e.__traceback__)
                    if isinstance(e, SystemExit):
                        rec("exit70" if e.code == 70 else "system_exit", fin=False)
                    elif not isinstance(e, (Boom, asyncio.CancelledError)):
                        rec("body_failed_" + type(e).__name__)
                err = None
                try:
                    ep.__exit__(*exc)
                except (Boom, asyncio.CancelledError) as e:
                    err = e
                except SystemExit as e:
                    rec("exit70" if e.code == 70 else "system_exit", fin=True)
                    state["over"] = True
                if not state["over"]:
                    exited(err)
                    if err is None and not loop.is_closed():
                        rec("loop_not_closed")
        elif s["mode"] == "run":
            # the hooks of the entrypoint made by run() come from the class
            cls = aiomisc.Entrypoint if hasattr(aiomisc, "Entrypoint") else type(aiomisc.entrypoint)
            cls = aiomisc.entrypoint
            for h, f in hooks_f.items():
                getattr(cls, h.upper()).connect(f)
            err = None
            try:
                async def m():
                    state["ep"] = aiomisc.entrypoint.get_current()
                    await body()
                    return "value"
                coro = m()
                r = aiomisc.run(coro, *svcs, policy=policy, pool_size=1, **kw)
                if r != "value":
                    rec("value_lost")
            except (Boom, asyncio.CancelledError) as e:
                err = e
            except SystemExit as e:
                rec("exit70" if e.code == 70 else "system_exit", fin=True)
                state["over"] = True
            except RuntimeError as e:
                rec("run_failed_" + type(e).__name__)
            finally:
                coro.close()
                for h, f in hooks_f.items():
                    getattr(cls, h.upper()).disconnect(f)
            if not state["entered"]:
                k, n = outcome(err)
                rec("entered", k=k, s=n)
            elif not state["over"]:
                if isinstance(err, asyncio.CancelledError) and state["intr"]:
                    err = None
                if isinstance(err, Boom) and err.args[0] == "body":
                    err = None
                exited(err)
        else:
            asyncio.set_event_loop(loop)

            async def m():
                ep = aiomisc.entrypoint(*svcs, **kw)
                connect(ep)
                err = None
                try:
                    await ep.__aenter__()
                except Boom as e:
                    k, n = outcome(e)
                    rec("entered", k=k, s=n)
                    return
                exc = (None, None, None)
                try:
                    await body()
                except Boom as e:
                    exc = (type(e), e, e.__traceback__)
                try:
                    await ep.__aexit__(*exc)
                except Boom as e:
                    err = e
                exited(err)
                # life goes on after the context manager
                for _ in range(5):
                    await asyncio.sleep(0)
                await asyncio.sleep(0.5)
                state["over"] = True
            task = loop.create_task(m())
            try:
                loop.run_until_complete(task)
            except SystemExit as e:
                rec("exit70" if e.code == 70 else "system_exit", fin=True)
            except RuntimeError as e:
                rec("loopstop" if "before Future completed" in str(e) else "runtime_error")
    except Stuck:
        status = "stuck"
    except Livelock:
        status = "livelock"
    except asyncio.CancelledError:
        status = "cancelled"
    except Exception as e:
        import traceback
        rec.error = traceback.format_exc()
        status = "raised"
    finally:
        rec.frozen = True
        state["over"] = True
        loop.on_idle = loop.on_advance = None
        for x, h in old.items():
            signal.signal(x, h)
        try:
            if not loop.is_closed():
                for _ in range(3):
                    for t in asyncio.all_tasks(loop):
                        t.cancel()
                    loop._iters = 0
                    for _ in range(5):
                        loop.call_soon(loop.stop)
                        loop.run_forever()
                if loop._default_executor is not None:
                    loop._default_executor.shutdown(wait=False)
                loop.close()
        except BaseException:
            pass
        asyncio.set_event_loop_policy(None)
        asyncio.set_event_loop(None)
    rec.frozen = False
    r = rec.finish(status, trace_cfg(s))
    return r
