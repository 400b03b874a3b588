"""aiomisc_worker.worker: a worker process over a socket played by the script, with signals at every line."""
import asyncio
import hashlib
import hmac
import os
import pickle
import random
import signal
import socket
import struct
import sys

SPEC = "Worker"
PROPS = ("W01", "W02")
ENF = '{"W01", "W02"}'
N_QUICK = 4000
N_THOROUGH = 25000
KINDS = ["ok", "exc", "cancel", "catch", "exit", "unsent", "badexc", "conn"]


def design(tier):
    q = tier == "quick"
    return [dict(module="MCWorker", spec="MCSpec", invariants=["Obligations", "OneReply", "NoSignalNoCancel"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", Depth=5, NReqs=2 if q else 4, NSigs=2 if q else 4,
                                Kinds='{"ok", "exc", "catch", "unsent"}'))]


def generated(tier):
    return [dict(module="MCWorker", num=150 if tier == "quick" else 1000, depth=25, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NReqs=5, NSigs=3, Depth=25,
                                                       Kinds='{"ok", "exc", "catch", "unsent", "cancel", "exit"}'))]


def trace_cfg(s):
    return {"m": s["m"]}


def from_generated(g, rng):
    reqs, points, n = [], [], 30
    for o in g["ops"]:
        if o["e"] == "req":
            reqs.append(dict(k=o["k"], n=rng.choice([0, 3, 500]), steps=rng.choice([0, 1, 4])))
            n += rng.randrange(10, 60)
        elif o["e"] == "sig":
            points.append(n + rng.randrange(0, 40))
    return dict(m="run", welcome="fail" if any(o["e"] == "welcome" and o["r"] == "fail" for o in g["ops"]) else "ok",
                reqs=reqs, points=points, seed=rng.randrange(1 << 30), frag=rng.choice([0, 0.5]))


def random_script(rng, tier):
    if rng.random() < 0.02:
        return dict(m="badinit", welcome="ok", reqs=[], points=[], seed=1, frag=0)
    reqs = [dict(k=rng.choices(KINDS, [6, 3, 1, 1, 0.3, 1, 0.5, 0.7])[0], n=rng.choice([0, 3, 100, 500, 5000]),
                 steps=rng.choice([0, 1, 2, 5])) for _ in range(rng.randrange(1, 7))]
    points = sorted(rng.randrange(0, 60 * len(reqs) + 20) for _ in range(rng.choice([0, 1, 1, 1, 2, 3])))
    return dict(m="run", welcome=rng.choice(["ok"] * 15 + ["fail", "pkt"]), reqs=reqs, points=points, seed=rng.randrange(1 << 30),
                frag=rng.choice([0, 0.3, 1]))


class End(BaseException):
    pass


class Boom(Exception):
    pass


class Reset(ConnectionResetError):
    pass


class BadExc(Exception):
    def __init__(self, a, b):
        super().__init__(a)


class Value:
    """A result which can't be pickled."""

    def __reduce__(self):
        raise Boom("unsent")


class Current:
    run = None


def func(i, k=None):
    return Current.run.func(i, k)


def pack(x):
    d = pickle.dumps(x)
    return struct.pack("!L", len(d)) + d


TOOL = 3


def run_script(s):
    from harness.vloop import Recorder

    import importlib
    sys.modules.pop("aiomisc_worker.worker", None)
    W = importlib.import_module("aiomisc_worker.worker")
    from aiomisc_worker import SIGNAL, PacketTypes
    rng = random.Random(s["seed"])
    rec = Recorder()
    cookie, wid = b"c" * 128, b"w" * 16
    state = dict(n=0, pend=0, armed=True)
    points = sorted(s["points"])
    inbox = bytearray()
    outbox = bytearray()
    todo = list(enumerate(s["reqs"], 1))
    cur = dict(i=0)

    def masked():
        return SIGNAL in signal.pthread_sigmask(signal.SIG_BLOCK, [])

    def point():
        """A signal may arrive here."""
        if not state["armed"]:
            return
        state["n"] += 1
        if points and state["n"] >= points[0]:
            points.pop(0)
            state["pend"] += 1
        if state["pend"] and not masked():
            state["pend"] = 0
            h = signal.getsignal(SIGNAL)
            rec("sig")
            if callable(h):
                state["armed"] = False
                try:
                    h(SIGNAL, None)
                finally:
                    state["armed"] = True
            elif h == signal.SIG_DFL:
                raise End

    def parse():
        while len(outbox) >= 4:
            n = struct.unpack("!L", bytes(outbox[:4]))[0]
            if len(outbox) < n + 4:
                return
            d = bytes(outbox[4:n + 4])
            del outbox[:n + 4]
            i = cur["i"]
            try:
                p = pickle.loads(d)
            except TypeError:
                # an exception which can be pickled but not read
                p = (PacketTypes.EXCEPTION, "badexc")
            except Exception:
                rec("junk")
                continue
            sign = hmac.HMAC(cookie, wid, digestmod=hashlib.sha256).digest()
            if p[0] == PacketTypes.AUTH:
                rec("auth", ok=p == (PacketTypes.AUTH, wid, sign, os.getpid()))
                rec("welcome", r="ok" if s["welcome"] == "ok" else "fail")
                inbox.extend(pack(PacketTypes.AUTH_OK if s["welcome"] == "ok" else
                                  PacketTypes.AUTH_FAIL if s["welcome"] == "fail" else (1, 2)))
            elif p[0] == PacketTypes.BAD_INITIALIZER:
                rec("auth", ok=s["m"] == "badinit" and p == (PacketTypes.BAD_INITIALIZER, wid, sign, os.getpid()))
            elif s["m"] == "badinit":
                rec("welcome", r="fail")
                if p[0] != PacketTypes.EXCEPTION or not isinstance(p[1], Boom):
                    rec("junk")
            elif p[0] == PacketTypes.RESULT:
                rec("reply", i=i, r="ok" if p[1] == ("value", i, "x" * todo_of(i)["n"]) else "wrong")
            elif p[0] == PacketTypes.EXCEPTION:
                k = todo_of(i)["k"]
                good = p[1] == "badexc" if k == "badexc" else isinstance(p[1], Reset if k == "conn" else Boom) and \
                    p[1].args == (("unsent",) if k == "unsent" else (i,))
                rec("reply", i=i, r="exc" if good else "wrong")
            elif p[0] == PacketTypes.CANCELLED:
                rec("reply", i=i, r="cancelled" if p[1] is asyncio.CancelledError else "wrong")
            else:
                rec("junk")

    def todo_of(i):
        return s["reqs"][i - 1] if 0 < i <= len(s["reqs"]) else dict(k="", n=0)

    def out(data):
        outbox.extend(data)
        parse()

    class Sock:
        def __init__(self, *a, **kw):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def connect(self, address):
            if address != "address":
                rec("junk")

        def close(self):
            pass

        def sendall(self, data):
            data = bytes(data)
            point()
            while data:
                n = rng.randrange(1, len(data) + 1) if rng.random() < s["frag"] else len(data)
                out(data[:n])
                data = data[n:]
                point()

        def send(self, data):
            n = rng.randrange(1, len(data) + 1) if rng.random() < s["frag"] else len(data)
            point()
            out(bytes(data[:n]))
            return n

        def recv(self, n):
            point()
            if not inbox:
                if outbox:
                    # it waits for the pool, which waits for the rest
                    rec("junk")
                    raise End
                if todo and s["welcome"] == "ok":
                    i, r = todo.pop(0)
                    point()
                    cur["i"] = i
                    rec("req", i=i, k={"badexc": "exc", "conn": "exc"}.get(r["k"], r["k"]))
                    inbox.extend(pack((PacketTypes.REQUEST, func, (i,), {"k": r["k"]})))
                else:
                    rec("eof")
                    return b""
            if rng.random() < s["frag"]:
                n = rng.randrange(1, n + 1)
            d = bytes(inbox[:n])
            del inbox[:n]
            return d

    class Run:
        def func(self, i, k):
            rec("run", i=i)
            h = "ok"
            try:
                for _ in range(todo_of(i)["steps"]):
                    point()
                if k in ("exc", "badexc", "conn"):
                    h = "exc"
                    raise Boom(i) if k == "exc" else BadExc(i, 2) if k == "badexc" else Reset(i)
                if k == "cancel":
                    raise asyncio.CancelledError
                if k == "exit":
                    h = "exit"
                    raise SystemExit(3)
                return Value() if k == "unsent" else ("value", i, "x" * todo_of(i)["n"])
            except asyncio.CancelledError:
                if k == "catch":
                    return "value", i, "x" * todo_of(i)["n"]
                h = "cancelled"
                raise
            finally:
                rec("ran", i=i, h=h)

    here = os.path.dirname(W.__file__)
    mon = sys.monitoring

    def on_line(code, line):
        if not code.co_filename.startswith(here) or code.co_name == "on_cancel_signal":
            return mon.DISABLE
        point()

    saved = socket.socket, sys.excepthook
    mask = signal.pthread_sigmask(signal.SIG_BLOCK, [])
    socket.socket = Sock
    Current.run = Run()
    error = None
    try:
        mon.use_tool_id(TOOL, "verif")
        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        try:
            if s["m"] == "badinit":
                W.bad_initializer("address", cookie, wid, Boom("init"))
            else:
                W.worker("address", cookie, wid)
        finally:
            state["armed"] = False
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
    except End:
        pass
    except BaseException as e:
        error = repr(e)
    finally:
        socket.socket, sys.excepthook = saved
        signal.pthread_sigmask(signal.SIG_SETMASK, mask)
        Current.run = None
    rec("exit")
    rec("idle")
    t = dict(cfg=trace_cfg(s), ev=rec.ev)
    if error:
        t["error"] = error
    return t
