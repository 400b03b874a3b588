"""aiomisc.service: TCPClient, TLSClient and their robust variants over an in-memory network."""
import asyncio
import random

SPEC = "Client"
PROPS = ("N02",)
ENF = '{"N02"}'
N_QUICK = 3000
N_THOROUGH = 30000


def design(tier):
    q = tier == "quick"
    return [dict(module="MCClient", spec="MCSpec", timeout=900,
                 invariants=["Obligations", "DownIsDown", "OneConnection", "OpenIsHandled"],
                 constants=dict(Enforce=ENF, Diagnose="FALSE", NAttempts=3 if q else 5, Modes="{TRUE, FALSE}", Attempts="{1, 2}",
                                Timeouts="{0, 1, 2}", MaxTime=4 if q else 8, Depth=5))]


def generated(tier):
    c = dict(Enforce=ENF, Diagnose="FALSE", Modes="{TRUE, FALSE}", Attempts="{1, 2, 3}", Timeouts="{0, 1, 2, 5}")
    k = 1 if tier == "quick" else 8
    g = dict(module="MCClient", init="MCInit", next_="GenNext", constraint="GenPrint")
    return [dict(g, num=400 * k, depth=40, constants=dict(c, NAttempts=99, MaxTime=99, Depth=40)),
            dict(g, num=400 * k, depth=18, constants=dict(c, NAttempts=99, MaxTime=99, Depth=18))]


def trace_cfg(s):
    return {"robust": s["robust"], "n": s["n"], "rt": s["rt"], "rc": s["rc"]}


def relevant(s, pid):
    return True


UNIT = 100      # ms


def common(rng):
    return dict(tls=rng.random() < 0.4, entry=rng.random() < 0.5, seed=rng.randrange(1 << 30),
                burst=rng.choice([0.0, 0.3, 0.7, 1.0]))


def from_generated(g, rng):
    c = g["cfg"]
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "adv":
            o["dt"] = UNIT
        elif o["e"] == "answer":
            o["slow"] = rng.random() < 0.3
        elif o["e"] == "drop":
            o["how"] = rng.choice(["eof", "reset"])
        ops.append(o)
    return dict(common(rng), robust=c["robust"], n=c["n"], rt=c["rt"] * UNIT, rc=c["rc"] * UNIT, ops=ops)


def random_script(rng, tier):
    s = dict(common(rng), robust=rng.random() < 0.75, n=rng.choice([1, 2, 3]), rt=rng.choice([0, 100, 200, 300]),
             rc=rng.choice([0, 100, 200, 500]))
    ops = [dict(e="start")]
    bad = rng.choice([0.1, 0.4, 0.8])
    for j in range(rng.randrange(3, 40)):
        k = rng.choices(["answer", "adv", "end", "drop", "stop", "released"], [6, 6, 4, 1, 0.5, 1])[0]
        o = dict(e=k)
        if k == "answer":
            o.update(k=rng.choice(["refused", "refused", "error"]) if rng.random() < bad else "ok", slow=rng.random() < 0.4)
        elif k == "adv":
            o["dt"] = rng.choice([s["rt"], s["rc"], s["rc"], 100, 50, s["rt"] + s["rc"]])
        elif k == "end":
            o["k"] = rng.choice(["ok", "fail", "fail", "fail"])
        elif k == "drop":
            o["how"] = rng.choice(["eof", "reset"])
        ops.append(o)
    return dict(s, ops=ops)


class Boom(Exception):
    pass


def run_script(s):
    from harness.fakenet import NetLoop, Transport
    from harness.vloop import Recorder, run_virtual

    from aiomisc.service import tcp, tls
    rec = Recorder()
    rng = random.Random(s["seed"])
    cls = {(0, 0): tcp.TCPClient, (0, 1): tcp.RobustTCPClient, (1, 0): tls.TLSClient,
           (1, 1): tls.RobustTLSClient}[int(s["tls"]), int(s["robust"])]
    state = {"n": 0, "gate": None, "try": None, "exit": None, "slow": False, "conn": None}
    svc = None

    class Client(cls):
        connect_attempts = s["n"]
        connect_retry_timeout = s["rt"] / 1000
        reconnect_timeout = s["rc"] / 1000

        async def handle_connection(self, reader, writer):
            i = writer.get_extra_info("peername")[1]
            rec("call", i=i)
            gate = state["gate"] = asyncio.get_running_loop().create_future()
            slow = state["slow"]
            try:
                if await gate == "fail":
                    raise rng.choice([Boom, Boom, ConnectionResetError, ConnectionRefusedError, OSError, asyncio.TimeoutError, EOFError])()
            except asyncio.CancelledError:
                rec("cancel", i=i)
                if not gate.done():
                    gate.cancel()
                if slow:
                    g = state["exit"] = asyncio.get_running_loop().create_future()
                    try:
                        await g
                    except asyncio.CancelledError:
                        if not g.done() or g.cancelled():
                            rec("released", i=i)
                    state["exit"] = None
                else:
                    rec("released", i=i)
                raise
            finally:
                rec("fin", i=i)

    async def main(loop):
        nonlocal svc

        async def on_connect(address, kw):
            state["n"] += 1
            i = state["n"]
            rec("attempt", i=i)
            if address != ("10.0.0.9", 4242) or bool(kw.get("ssl")) != s["tls"]:
                rec("wrong_address", i=i)
            fut = loop.create_future()
            state["try"] = fut
            try:
                k = await fut
            except asyncio.CancelledError:
                if not fut.done():
                    fut.cancel()
                rec("aborted", i=i)
                raise
            rec("answer", i=i, k=k)
            if k == "refused":
                raise rng.choice([ConnectionRefusedError(111, "refused")] * 3 + [ConnectionResetError(104, "reset"), ConnectionAbortedError(103, "aborted")])
            if k == "error":
                raise rng.choice([OSError(113, "No route to host"), TimeoutError(), ValueError("x")])
            t = Transport(loop, None, {"peername": ("10.0.0.9", i)})
            t.on_closed = lambda: rec("closed", i=i)
            state["conn"] = t
            return t
        loop.on_connect = on_connect

        kw = dict(cert="", key="", verify=False) if s["tls"] else {}
        svc = Client(address="10.0.0.9", port=4242, **kw)
        svc.set_loop(loop)
        start = ev = None

        async def starting():
            try:
                await svc.start()
            except asyncio.CancelledError:
                rec("started", r="cancelled")
                raise
            except Exception:
                rec("started", r="error")
            else:
                rec("started", r="ok")

        async def wait_ready():
            await svc.start_event.wait()
            rec("ready")

        async def stop():
            rec("stop")
            if s["entry"]:
                start.cancel()
                await asyncio.wait([start])
            await svc.stop()
            rec("stopped")
        stopping = None

        def release():
            g = state["exit"]
            if g is not None and not g.done():
                rec("released", i=state["conn"].get_extra_info("peername")[1])
                g.set_result(None)

        for op in s["ops"]:
            e = op["e"]
            if e == "start":
                rec("start")
                ev = loop.create_task(wait_ready())
                start = loop.create_task(starting())
                if stopping is None:
                    await asyncio.sleep(0)
            elif e == "answer":
                f = state["try"]
                if f is None or f.done():
                    continue
                state["slow"] = op["slow"]
                f.set_result(op["k"])
            elif e == "adv":
                await loop.settle()
                await asyncio.sleep(op["dt"] / 1000)
            elif e == "end":
                g = state["gate"]
                if g is None or g.done() or stopping is not None:
                    continue
                rec("end", i=state["n"], k=op["k"])
                g.set_result(op["k"])
            elif e == "drop":
                t = state["conn"]
                if t is None or t.closing or t.peer_gone:
                    continue
                rec("drop", i=t.get_extra_info("peername")[1])
                t.peer_gone = True
                if op["how"] == "eof":
                    t.feed_eof()
                else:
                    t.force(ConnectionResetError())
            elif e == "released":
                release()
            elif e == "stop":
                if stopping is not None:
                    continue
                stopping = loop.create_task(stop())
            if rng.random() >= s["burst"]:
                await loop.settle()
        await loop.settle()
        if stopping is None:
            stopping = loop.create_task(stop())
        await loop.settle()
        release()
        await loop.settle()
        await asyncio.sleep(1 + (s["rt"] + s["rc"]) / 1000)
        await loop.settle()
        rec.frozen = True

    def idle_fields():
        c = getattr(svc, "connected", None) if s["robust"] else None
        return {"con": bool(c is not None and c.is_set())}

    status = run_virtual(main, rec, idle_fields=idle_fields, loop=NetLoop())
    return rec.finish(status, trace_cfg(s))
