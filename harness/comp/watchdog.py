"""aiomisc.service.sdwatchdog in an entrypoint, with a notify socket of the script."""
import asyncio
import os
import random
import shutil
import socket
import tempfile

SPEC = "Watchdog"
PROPS = ("V02",)
ENF = '{"V02"}'
N_QUICK = 1500
N_THOROUGH = 15000


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ENF, Diagnose="FALSE", Socks="{TRUE, FALSE}", Ivs="{0, 2000, 3000}", Envs="{0, 2000}", Unit=500, Depth=5)
    return [dict(module="MCWatchdog", spec="MCSpec", timeout=900, invariants=["Obligations", "Ordered", "ReadyIsReady", "Silent"],
                 constants=dict(c, Ns="{1, 2}" if q else "{1, 2, 3}", MaxTime=3000 if q else 6000))]


def generated(tier):
    k = 1 if tier == "quick" else 8
    c = dict(Enforce=ENF, Diagnose="FALSE", Socks="{TRUE}", Ivs="{0, 1000, 2000}", Envs="{0, 1000}", Unit=500, Ns="{1, 3}",
             MaxTime=10 ** 6, Depth=34)
    return [dict(module="MCWatchdog", init="MCInit", next_="GenNext", constraint="GenPrint", num=300 * k, depth=34, constants=c)]


def trace_cfg(s):
    return {"n": s["n"], "sock": s["sock"] not in ("none", "empty"), "iv": s["iv"], "env": s["env"]}


def relevant(s, pid):
    return True


def common(rng):
    return dict(seed=rng.randrange(1 << 30), burst=rng.choice([0.0, 0.3, 0.7]), bad=rng.choice([0, 0, 0.2, 1]))


def from_generated(g, rng):
    ops, t = [], 0
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "adv":
            o["dt"] = o["t"] - t
            t = o["t"]
        ops.append(o)
    return dict(common(rng), n=g["cfg"]["n"], sock=rng.choice(["path", "abstract"]), iv=g["cfg"]["iv"], env=g["cfg"]["env"],
                ops=ops)


def random_script(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    env = rng.choice([0, 1000, 2000, 3000, 500, 2500, 1250])
    iv = rng.choice([env, env, 0, 1000, 2000, 250, 1500, 3250])
    ops = []
    for j in range(rng.randrange(2, 24)):
        k = rng.choices(["ready", "adv", "exit", "down"], [4, 8, 1, 2])[0]
        o = dict(e=k)
        if k in ("ready", "down"):
            o["s"] = rng.randrange(1, n + 1)
            o["k"] = rng.choice(["ok"] * 9 + ["fail"])
        elif k == "adv":
            o["dt"] = rng.choice([250, 500, 1000, 125, 5000, 2000])
        ops.append(o)
    return dict(common(rng), n=n, sock=rng.choice(["path", "abstract", "path", "none", "empty"]), iv=iv, env=env, ops=ops)


class Boom(Exception):
    pass


_count = [0]


def run_script(s):
    from harness.vloop import Recorder, VirtualLoop, run_virtual

    import aiomisc
    from aiomisc.service import Service, sdwatchdog
    rec = Recorder()
    rng = random.Random(s["seed"])
    tmp = tempfile.mkdtemp(prefix="verif-sd")
    peer = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
    peer.setblocking(False)
    _count[0] += 1
    if s["sock"] == "abstract":
        addr = "@verif-%d-%d" % (os.getpid(), _count[0]) + rng.choice(["", "@", "@x", "/@"])
        peer.bind("\0" + addr[1:])
    else:
        addr = tmp + rng.choice(["/notify", "/@notify", "/no tify@"])
        peer.bind(addr)

    def heard(data):
        text = data.decode("utf-8", "replace")
        key, _, value = text.partition("=")
        words = value.split()
        if key == "STATUS" and len(words) == 3 and words[0] in ("Starting", "Started", "Stopping") and words[1].isdigit():
            rec("msg", m=words[0].lower(), x=int(words[1]))
        elif text == "READY=1":
            rec("msg", m="ready", x=0)
        elif text == "STOPPING=1":
            rec("msg", m="bye", x=0)
        elif text == "WATCHDOG=1":
            rec("msg", m="watchdog", x=0)
        elif key == "WATCHDOG_USEC" and value.isdigit():
            rec("msg", m="usec", x=int(value))
        else:
            rec("msg", m="other:" + text, x=0)

    def drain():
        while True:
            try:
                heard(peer.recv(4096))
            except BlockingIOError:
                return

    class Loop(VirtualLoop):
        async def sock_sendall(self, sock, data):
            if rng.random() < s["bad"]:
                heard(bytes(data))
                raise rng.choice([ConnectionRefusedError(111, "refused"), OSError(105, "No buffer space available")])
            r = await super().sock_sendall(sock, data)
            drain()
            return r

    gates, states = {}, {}

    class Svc(Service):
        async def start(self):
            i = self.number
            rec("begin", s=i)
            f = gates["up", i] = asyncio.get_running_loop().create_future()
            if await f == "fail":
                raise Boom()

        async def stop(self, exception=None):
            i = self.number
            drain()
            rec("stop", s=i)
            f = gates["down", i] = asyncio.get_running_loop().create_future()
            await f

    async def main(loop):
        exit_ = loop.create_future()
        svc = sdwatchdog.SDWatchdogService(watchdog_interval=s["iv"] / 1000 if s["iv"] else None) \
            if s["iv"] != s["env"] else sdwatchdog.SDWatchdogService(watchdog_interval=sdwatchdog._get_watchdog_interval())
        svcs = [Svc(number=i) for i in range(1, s["n"] + 1)]
        svcs.insert(rng.randrange(len(svcs) + 1), svc)

        async def life():
            ep = aiomisc.entrypoint(*svcs, log_config=False)
            rec("enter")
            try:
                await ep.__aenter__()
            except Boom:
                drain()
                rec("entered", r="fail")
                return
            drain()
            rec("entered", r="ok")
            states["in"] = True
            await exit_
            await ep.__aexit__(None, None, None)
            drain()
            rec("left")

        task = loop.create_task(life())
        await loop.settle()
        for op in s["ops"]:
            e = op["e"]
            if e == "ready":
                f = gates.get(("up", op["s"]))
                if f is None or f.done():
                    continue
                rec("ready", s=op["s"], k=op["k"])
                f.set_result(op["k"])
            elif e == "down":
                f = gates.get(("down", op["s"]))
                if f is None or f.done():
                    continue
                rec("down", s=op["s"])
                f.set_result(None)
            elif e == "exit":
                if not states.get("in") or exit_.done():
                    continue
                rec("exit")
                exit_.set_result(None)
            elif e == "adv":
                await loop.settle()
                await asyncio.sleep(op["dt"] / 1000)
            if rng.random() >= s["burst"]:
                await loop.settle()
        await loop.settle()
        for _ in range(10):
            if task.done():
                break
            for (k, i), f in sorted(gates.items()):
                if not f.done():
                    if k == "up":
                        rec("ready", s=i, k="ok")
                    else:
                        rec("down", s=i)
                    f.set_result("ok")
            await loop.settle()
            if states.get("in") and not exit_.done():
                rec("exit")
                exit_.set_result(None)
            await loop.settle()
        else:
            rec("never_ends")
        await asyncio.sleep(10)
        await loop.settle()
        rec.frozen = True

    saved = {k: os.environ.pop(k, None) for k in ("NOTIFY_SOCKET", "WATCHDOG_USEC")}
    interval = sdwatchdog.WATCHDOG_INTERVAL
    try:
        if s["sock"] == "empty":
            os.environ["NOTIFY_SOCKET"] = ""
        elif s["sock"] != "none":
            os.environ["NOTIFY_SOCKET"] = addr
        if s["env"]:
            os.environ["WATCHDOG_USEC"] = str(s["env"] * 1000)
        sdwatchdog.WATCHDOG_INTERVAL = sdwatchdog._get_watchdog_interval()
        status = run_virtual(main, rec, idle_fields=lambda: drain() or {}, loop=Loop())
    finally:
        sdwatchdog.WATCHDOG_INTERVAL = interval
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        peer.close()
        shutil.rmtree(tmp, ignore_errors=True)
    return rec.finish(status, trace_cfg(s))
