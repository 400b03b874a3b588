"""aiomisc.Signal."""
import asyncio
import random

from harness.vloop import Recorder, run_virtual

SPEC = "Signal"
PROPS = ("G01",)
N_QUICK = 1500
N_THOROUGH = 8000


def design(tier):
    q = tier == "quick"
    return [dict(module="MCSignal", spec="MCSpec", properties=["FrozenStays", "Isolated"], invariants=["Obligations"],
                 constants=dict(Enforce='{"G01"}', Diagnose="FALSE", NSig=2, NRecv=2, NCalls=1 if q else 2, Depth=5))]


def generated(tier):
    return [dict(module="MCSignal", num=300 if tier == "quick" else 3000, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint",
                 constants=dict(Enforce='{"G01"}', Diagnose="FALSE", NSig=4, NRecv=4, NCalls=5, Depth=30))]


def from_generated(g, rng):
    return dict(seed=rng.randrange(1 << 30), auto=0.3, burst=rng.choice([0, 0.5]), ops=g["ops"])


def random_script(rng, tier):
    ops, ns, nc = [], 1, 0
    w = dict(connect=6, disconnect=2, freeze=rng.choice([0, 0.5]), copy=1, call=4, end=4, cancel=0.5)
    ks, ws = zip(*w.items())
    for _ in range(rng.randrange(4, 40)):
        k = rng.choices(ks, ws)[0]
        s = rng.randrange(1, ns + 1)
        if k == "connect":
            ops.append(dict(e=k, s=s, r=rng.randrange(1, 5), how=rng.choice(["fn", "fn", "deco", "bad"])))
        elif k == "disconnect":
            ops.append(dict(e=k, s=s, r=rng.randrange(1, 5)))
        elif k == "freeze":
            ops.append(dict(e=k, s=s))
        elif k == "copy":
            ns += 1
            ops.append(dict(e=k, s=s, n=ns))
        elif k == "call":
            nc += 1
            ops.append(dict(e=k, c=nc, s=s))
        elif k == "end":
            ops.append(dict(e=k, c=rng.randrange(1, nc + 2), k=rng.choice(["ok", "ok", "ok", "raise"])))
        else:
            ops.append(dict(e=k, c=rng.randrange(1, nc + 2)))
    return dict(seed=rng.randrange(1 << 30), auto=rng.choice([0, 0.5, 1]), burst=rng.choice([0, 0.5]), ops=ops)


def trace_cfg(s):
    return {"x": 0}


class Boom(Exception):
    pass


def run_script(s):
    from aiomisc.signal import Signal, receiver
    rng = random.Random(s["seed"])
    rec = Recorder()
    sigs = {1: Signal()}
    gates, tasks, cancelled = {}, {}, set()

    def mk(r):
        async def f(c, *a, **kw):
            rec("recv", c=c, r=r, same=(a == (1,) and kw == {"x": c}))
            try:
                if rng.random() < s["auto"]:
                    k = rng.choice(["ok", "ok", "ok", "ok", "raise"])
                    if rng.random() < 0.4:
                        await asyncio.sleep(0.1)
                else:
                    gates[c] = asyncio.get_running_loop().create_future()
                    k = await gates[c]
            except asyncio.CancelledError:
                rec("end", c=c, r=r, k="cancelled")
                raise
            rec("end", c=c, r=r, k=k)
            if k == "raise":
                raise Boom(r)
            return rng.choice([None, None, True, False, c])
        return f

    class Receivers:
        """A bound method is another object whenever it is asked for."""

        async def r1(self, *a, **kw):
            return await plain_fs[1](*a, **kw)

        async def r2(self, *a, **kw):
            return await plain_fs[2](*a, **kw)

    class Fs:
        def __getitem__(self, r):
            return getattr(methods, "r%d" % r) if bound and r < 3 else plain_fs[r]

    bound = rng.random() < 0.4
    methods = Receivers()
    plain_fs = {r: mk(r) for r in range(1, 5)}
    fs = Fs()

    def plain(*a, **k):
        pass

    async def caller(c, sg):
        rec("call", c=c, s=sg)
        try:
            await sigs[sg].call(c, 1, x=c)
        except asyncio.CancelledError:
            rec("ret", c=c, k="cancelled", r=0)
        except Boom as e:
            rec("ret", c=c, k="raise", r=e.args[0])
        except Exception as e:
            rec("ret", c=c, k=type(e).__name__, r=0)
        else:
            rec("ret", c=c, k="ok", r=0)

    async def main(loop):
        for op in s["ops"]:
            k = op["e"]
            if k in ("connect", "disconnect"):
                if op["s"] not in sigs:
                    continue
                d = dict(op)
                rec(d.pop("e"), **d)
                ok = True
                try:
                    sg = sigs[op["s"]]
                    if k == "disconnect":
                        sg.disconnect(fs[op["r"]])
                    elif op["how"] == "bad":
                        sg.connect(plain)
                    elif op["how"] == "deco":
                        if receiver(sg)(fs[op["r"]]) != fs[op["r"]]:
                            rec("decorator_lost_function")
                    else:
                        sg.connect(fs[op["r"]])
                except RuntimeError:
                    ok = False
                rec("changed", ok=ok)
                rec("frozen", s=op["s"], b=sg.is_frozen)
            elif k == "freeze" and op["s"] in sigs:
                rec("freeze", s=op["s"])
                sigs[op["s"]].freeze()
                rec("frozen", s=op["s"], b=sigs[op["s"]].is_frozen)
            elif k == "copy" and op["s"] in sigs:
                rec("copy", s=op["s"], n=op["n"])
                sigs[op["n"]] = sigs[op["s"]].copy()
                rec("frozen", s=op["n"], b=sigs[op["n"]].is_frozen)
            elif k == "call" and op["s"] in sigs:
                tasks[op["c"]] = loop.create_task(caller(op["c"], op["s"]))
                await asyncio.sleep(0)
            elif k == "end":
                g = gates.get(op["c"])
                if g is not None and not g.done() and op["k"] != "cancelled":
                    g.set_result(op["k"])
            elif k == "cancel":
                t = tasks.get(op["c"])
                if t is not None and not t.done() and op["c"] not in cancelled:
                    cancelled.add(op["c"])
                    rec("cancel", c=op["c"])
                    t.cancel()
            if rng.random() >= s["burst"]:
                await loop.settle()
        for _ in range(60):
            await loop.settle()
            if all(t.done() for t in tasks.values()):
                break
            for g in gates.values():
                if not g.done():
                    g.set_result("ok")
            await asyncio.sleep(0.1)
        else:
            rec("never_ends")

    st = run_virtual(main, rec)
    return rec.finish(st, trace_cfg(s))
