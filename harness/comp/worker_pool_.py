"""aiomisc.WorkerPool; the script plays the worker processes, over in-memory connections."""
import asyncio
import hashlib
import hmac
import os
import pickle
import random
import shutil
import struct
import subprocess
import tempfile

SPEC = "WorkerPool"
PROPS = ("W01", "W02", "T01")
ENF = '{"W01", "W02", "T01"}'
N_QUICK = 2500
N_THOROUGH = 15000
SUP = 800000000
WPID = 900000000
KINDS = ["good", "digest", "unknown", "packet", "silent", "badinit"]
REPLIES = ["ok", "exc", "cancelled", "garbage"]


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ENF, Diagnose="FALSE", Depth=5)
    inv = ["Obligations", "OneWorker", "OnlyGood"]
    return [dict(module="MCWorkerPool", spec="MCSpec", invariants=inv, timeout=900,
                 constants=dict(c, NCalls=2, NWorkers=2, Kinds='{"good", "digest"}', Replies='{"ok", "cancelled"}', Ps="<- OnlyT",
                                MaxT=2000 if q else 4000)),
            dict(module="MCWorkerPool", spec="MCSpec", invariants=inv, timeout=900,
                 constants=dict(c, NCalls=2 if q else 3, NWorkers=1 if q else 2, Kinds='{"good", "badinit"}', Replies='{"ok", "garbage"}',
                                Ps="<- Both", MaxT=2000))]


def generated(tier):
    return [dict(module="MCWorkerPool", num=150 if tier == "quick" else 1000, depth=40, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NCalls=6, NWorkers=4,
                                                       Kinds='{"good", "digest", "unknown", "silent"}',
                                                       Replies='{"ok", "exc", "cancelled"}', Ps="<- OnlyT", MaxT=20000, Depth=40))]


def trace_cfg(s):
    return {"m": s["m"], "stat": True}


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "adv":
            o["t"] = 2000
        elif o["e"] == "lost":
            o["how"] = rng.choice(["eof", "reset"])
        elif rng.random() < 0.6:
            o["b"] = rng.randrange(6)
        ops.append(o)
    return dict(m=rng.choice([0, 0, 1, 2]), n=rng.choice([1, 2, 3]), ops=ops)


def random_script(rng, tier):
    w = dict(call=5, cancel=rng.choice([0, 1, 3]), conn=rng.choice([0.5, 1, 2]), reply=rng.choice([3, 5, 8]),
             lost=rng.choice([0, 0.5, 1, 2]), close=rng.choice([0, 0, 0.2, 0.6]), adv=rng.choice([0.1, 1]))
    kinds, weights = zip(*w.items())
    burst = rng.choice([0, 0.3, 0.7, 0.95])
    qw = rng.choice([[1, 0, 0, 0, 0, 0], [8, 1, 1, 1, 1, 0], [12, 1, 1, 1, 1, 0.5]])
    rw = rng.choice([[1, 0, 0, 0], [5, 2, 1, 0], [5, 2, 1, 1]])
    pp = rng.choice([1, 1, 0.9])
    ops = [dict(e="conn", k=1, q="good")] if rng.random() < 0.8 else []
    nc, nk = 0, len(ops)
    for _ in range(rng.randrange(6, 45)):
        k = rng.choices(kinds, weights)[0]
        o = dict(e=k)
        if k == "call":
            nc += 1
            o.update(c=nc, p=rng.random() < pp)
        elif k == "cancel":
            if not nc:
                continue
            o.update(c=max(1, nc - rng.choice([0, 0, 0, 1, 1, 2, 3, 5])))
        elif k == "conn":
            nk += 1
            o.update(k=nk, q=rng.choices(KINDS, qw)[0], v=rng.randrange(100))
        elif k == "reply":
            o.update(k=0, i=rng.randrange(100), r=rng.choices(REPLIES, rw)[0])
        elif k == "lost":
            o.update(k=rng.randrange(nk) + 1 if nk else 1, how=rng.choice(["eof", "reset"]))
        elif k == "close":
            o.update(x=len(ops) + 1)
        elif k == "adv":
            o.update(t=rng.choice([1, 100, 1000, 2000]))
        if rng.random() < burst:
            o["b"] = rng.choices(range(7), [3, 2, 2, 2, 2, 1, 1])[0]
        ops.append(o)
    return dict(m=rng.choice([0, 0, 0, 1, 2]), n=rng.choice([1, 2, 3]), ops=ops)


class Boom(Exception):
    def __init__(self, c):
        super().__init__(c)
        self.c = c

    def __eq__(self, other):
        return False

    __hash__ = Exception.__hash__


class BadInit(Exception):
    pass


def work(c, k=None):
    return c


class Stdin:
    def __init__(self):
        self.data = b""

    def write(self, d):
        self.data += bytes(d)
        return len(d)

    def flush(self):
        pass

    def close(self):
        pass


_popen = subprocess.Popen


class FakePopen:
    current = None
    count = 0

    def __new__(cls, *a, **kw):
        cmd = a[0] if a else kw.get("args")
        if "aiomisc_worker" not in cmd:
            return _popen(*a, **kw)
        return object.__new__(cls)

    def __init__(self, *a, **kw):
        FakePopen.count += 1
        self.pid = SUP + FakePopen.count
        self.returncode = None
        self.stdin = Stdin()
        FakePopen.current = self

    def poll(self):
        return self.returncode

    def send_signal(self, sig):
        os.kill(self.pid, sig)

    def kill(self):
        os.kill(self.pid, 9)

    terminate = kill

    def wait(self, timeout=None):
        return 0


class Env:
    kill = None


_kill = os.kill


def fake_kill(pid, sig):
    if pid >= SUP:
        if Env.kill is not None:
            Env.kill(pid)
        return
    _kill(pid, sig)


def unpack(buf):
    out = []
    while len(buf) >= 4:
        n = struct.unpack("!L", bytes(buf[:4]))[0]
        if len(buf) < 4 + n:
            break
        out.append(pickle.loads(bytes(buf[4:4 + n])))
        del buf[:4 + n]
    return out


def pack(x):
    d = pickle.dumps(x)
    return struct.pack("!L", len(d)) + d


def run_script(s):
    from harness.fakenet import NetLoop
    from harness.vloop import Recorder, run_virtual
    from multiprocessing import ProcessError
    subprocess.Popen = FakePopen
    os.kill = fake_kill

    from aiomisc import get_statistics
    from aiomisc.worker_pool import WorkerPool, WorkerPoolStatistic
    from aiomisc_worker import PacketTypes
    from uuid import uuid4
    rec = Recorder()
    tmp = tempfile.mkdtemp(prefix="wp-")
    tempfile.tempdir = tmp

    class Worker:
        def __init__(self, k, q, t):
            self.k, self.q, self.t = k, q, t
            self.buf = bytearray()
            self.pend = []
            self.dead = False
            self.hung = False
            t.on_write = self.written
            t.on_closed = self.hangup
            eof = t.write_eof

            def write_eof():
                eof()
                self.hangup()
            t.write_eof = write_eof

        def hangup(self):
            if not self.hung:
                self.hung = True
                self.dead = True
                rec("gone", k=self.k)

        def written(self, data):
            self.buf += data
            for p in unpack(self.buf):
                if p == PacketTypes.AUTH_OK:
                    rec("authok", k=self.k)
                elif isinstance(p, tuple) and p and p[0] == PacketTypes.REQUEST:
                    _, func, args, kw = p
                    c = args[0] if args else -1
                    rec("req", k=self.k, c=c, a=func is work and args == (c,) and kw == {"k": c * 10})
                    self.pend.append(c)
                elif p in (PacketTypes.AUTH_FAIL, PacketTypes.BAD_PACKET):
                    pass
                else:
                    rec("junk", k=self.k)

    stat_name, keep = [], []

    def idle_fields():
        d = {x.metric: x.value for x in get_statistics(WorkerPoolStatistic) if x.name == stat_name[0]}
        d["sum_time"] = int(round(d.get("sum_time", -1) * 1000))
        return {"s": d}

    async def main(loop):
        name = "wp%d" % FakePopen.count
        stat_name.append(name)
        pool = WorkerPool(s["n"], s["m"], statistic_name=name)
        keep.append(pool)
        await pool.start()
        server = loop.servers[0]
        buf = bytearray(FakePopen.current.stdin.data)
        cookie, ids = unpack(buf)[2:4]
        ws = {}
        tasks = {}

        def on_kill(pid):
            if pid < WPID:
                if pid == FakePopen.current.pid:
                    rec("supsig")
                return
            k = pid - WPID
            if k in ws and ws[k].dead:
                raise ProcessLookupError(3, "No such process")
            rec("sig", k=k)
        Env.kill = on_kill

        begun = set()

        async def call(c, p):
            begun.add(c)
            try:
                v = await pool.create_task(work if p else (lambda *a, **kw: 1), c, k=c * 10)
                r = "ok" if v == ("value", c) else "wrong"
            except asyncio.CancelledError:
                r = "cancelled"
            except Boom as e:
                r = "exc" if e.c == c else "wrong"
            except BadInit:
                r = "badinit"
            except ProcessError:
                r = "lost"
            except RuntimeError as e:
                r = "closed" if "close" in str(e).lower() else "other"
            except Exception as e:
                r = "other" if p else "unsent"
            rec("res", c=c, r=r)

        async def close(x):
            await (pool.close() if x % 2 else pool.__aexit__(None, None, None))
            rec("closedone", x=x)

        def perform(op):
            e = op["e"]
            if e == "call":
                rec("call", c=op["c"], p=op["p"])
                t = tasks[op["c"]] = loop.create_task(call(op["c"], op["p"]))
                t.add_done_callback(lambda _: op["c"] in begun or rec("res", c=op["c"], r="never"))
            elif e == "cancel":
                t = tasks.get(op["c"])
                if t is not None and not t.done() and not t.cancelling():
                    rec("cancel", c=op["c"])
                    t.cancel()
            elif e == "conn":
                k, q = op["k"], op["q"]
                if server.closed:
                    return
                rec("conn", k=k, q=q)
                t = server.connect(peername="")
                ws[k] = Worker(k, q, t)
                wid = ids[k % len(ids)]
                sign = hmac.HMAC(cookie, wid, digestmod=hashlib.sha256).digest()
                if q == "silent":
                    t.feed(pack((PacketTypes.AUTH, wid, sign, WPID + k))[:-1])
                elif q == "digest":
                    bad = [bytes([sign[0] ^ 1]) + sign[1:], sign[:-1] + bytes([sign[-1] ^ 128]), sign[:-1], b"", sign + b"\0",
                           hmac.HMAC(b"", wid, digestmod=hashlib.sha256).digest(), wid, cookie,
                           hmac.HMAC(cookie, b"", digestmod=hashlib.sha256).digest()]
                    t.feed(pack((PacketTypes.AUTH, wid, bad[op.get("v", 0) % len(bad)], WPID + k)))
                elif q == "unknown":
                    wid = uuid4().bytes
                    sign = hmac.HMAC(cookie, wid, digestmod=hashlib.sha256).digest()
                    t.feed(pack((PacketTypes.AUTH, wid, sign, WPID + k)))
                elif q == "packet":
                    t.feed(pack((PacketTypes.RESULT, wid, sign, WPID + k)))
                elif q == "badinit":
                    t.feed(pack((PacketTypes.BAD_INITIALIZER, wid, sign, WPID + k)))
                    t.feed(pack((PacketTypes.EXCEPTION, BadInit())))
                else:
                    t.feed(pack((PacketTypes.AUTH, wid, sign, WPID + k)))
            elif e == "reply":
                k = op["k"]
                if not k:
                    can = [x for x in sorted(ws) if ws[x].pend and not ws[x].dead]
                    k = can[op["i"] % len(can)] if can else 0
                w = ws.get(k)
                if w is None or not w.pend or w.dead:
                    return
                c = w.pend.pop(0)
                rec("reply", k=k, r=op["r"])
                if op["r"] == "ok":
                    w.t.feed(pack((PacketTypes.RESULT, ("value", c))))
                elif op["r"] == "exc":
                    w.t.feed(pack((PacketTypes.EXCEPTION, Boom(c))))
                elif op["r"] == "cancelled":
                    w.t.feed(pack((PacketTypes.CANCELLED, asyncio.CancelledError)))
                else:
                    w.t.feed(struct.pack("!L", 3) + b"\xff\xff\xff")
            elif e == "lost":
                w = ws.get(op["k"])
                if w is None or w.dead:
                    return
                w.dead = True
                rec("lost", k=op["k"])
                w.t.peer_gone = True
                if op["how"] == "eof":
                    w.t.feed_eof()
                else:
                    w.t.force(ConnectionResetError(104, "Connection reset by peer"))
            elif e == "close":
                rec("close", x=op["x"])
                tasks[-op["x"]] = loop.create_task(close(op["x"]))

        ops = s["ops"] + [dict(e="adv", t=1), dict(e="close", x=1000), dict(e="adv", t=2500), dict(e="call", c=999, p=True),
                          dict(e="close", x=1001), dict(e="adv", t=2500)]
        for op in ops:
            if op["e"] == "adv":
                await asyncio.sleep(op["t"] / 1000)
                await loop.settle()
                continue
            perform(op)
            if "b" in op:
                for _ in range(op["b"]):
                    await asyncio.sleep(0)
            else:
                await loop.settle()
        rec.frozen = True
        Env.kill = None

    try:
        status = run_virtual(main, rec, loop=NetLoop(), idle_fields=idle_fields)
        return rec.finish(status, trace_cfg(s))
    finally:
        Env.kill = None
        tempfile.tempdir = None
        shutil.rmtree(tmp, ignore_errors=True)
