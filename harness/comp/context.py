"""Context values set from the loop and from threads, awaited by many tasks."""
import asyncio
import random
import threading

from harness.vloop import Recorder, run_virtual

SPEC = "Context"
PROPS = ("X01", "T01")
ALL = '{"X01","T01"}'
N_QUICK = 1500
N_THOROUGH = 8000


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ALL, Diagnose="FALSE", Keys="{1,2}", NSets=3, NReaders=3 if q else 4, Depth=5)
    return [dict(module="MCContext", spec="MCSpec", constants=c, invariants=["EffBounded", "RangeSane", "Settled", "Obligations"])]


def generated(tier):
    d = 24
    return [dict(module="MCContext", num=400 if tier == "quick" else 3000, depth=d, init="MCInit", next_="GenNext",
                 constraint="GenPrint",
                 constants=dict(Enforce=ALL, Diagnose="FALSE", Keys="{1,2,3}", NSets=8, NReaders=12, Depth=d))]


def from_generated(g, rng):
    return dict(seed=rng.randrange(1 << 30), pthread=rng.choice([0, 0.5]), ops=g["ops"])


def random_script(rng, tier):
    ops, r, v = [], 0, 0
    nk = rng.choice([1, 1, 2, 4])
    w = dict(set=rng.choice([2, 4]), get=5, cancel=rng.choice([0, 0, 2]), settle=rng.choice([1, 4]))
    kinds, weights = zip(*w.items())
    for _ in range(rng.randrange(5, 40)):
        k = rng.choices(kinds, weights)[0]
        if k == "set":
            v += 1
            ops.append(dict(e="set", k=rng.randrange(nk), v=v))
        elif k == "get":
            r += 1
            ops.append(dict(e="get", k=rng.randrange(nk), r=r))
        elif k == "cancel":
            ops.append(dict(e="cancel", r=rng.randrange(1, r + 2)))
        else:
            ops.append(dict(e="settle"))
    return dict(seed=rng.randrange(1 << 30), pthread=rng.choice([0, 0, 0.5, 1]), ops=ops)


def trace_cfg(s):
    return {"x": 0}


KEYS = [7, "7", ("7",), None, "None"]


def run_script(s):
    import aiomisc
    from aiomisc.context import Context, ContextStatistic, get_context
    rng = random.Random(s["seed"])
    rec = Recorder()
    tasks = {}
    vals = {}
    falsy = [None, False, 0, "", []]

    def total():
        r = {"get": 0, "set": 0}
        for x in aiomisc.get_statistics(ContextStatistic):
            r[x.metric] += x.value
        return r

    base = total()
    hold = []

    def value(n):
        # distinct objects, some falsy
        v = falsy[n] if n < len(falsy) else [lambda: ["v"], lambda: ["v", n], lambda: RuntimeError(n), lambda: (lambda: n),
                                             lambda: asyncio.CancelledError(), asyncio.get_running_loop().create_future][n % 6]()
        vals[n] = v
        return v

    def number(v):
        for n, x in vals.items():
            if x is v:
                return n
        return -1

    async def reader(r, k):
        rec("get", r=r, k=k)
        try:
            if rng.random() < 0.5:
                v = await hold[0][KEYS[k]]
            else:
                v = await get_context()[KEYS[k]]
        except asyncio.CancelledError:
            rec("ret", r=r, s="cancelled", v=0)
        else:
            rec("ret", r=r, s="ok", v=number(v))

    async def main(loop):
        ctx = Context(loop=loop)
        hold.append(ctx)
        for op in s["ops"]:
            k = op["e"]
            if k == "get":
                tasks[op["r"]] = loop.create_task(reader(op["r"], op["k"]))
                await asyncio.sleep(0)
            elif k == "set":
                rec("set", k=op["k"], v=op["v"])
                val = value(op["v"])
                if rng.random() < s["pthread"]:
                    def setter():
                        ctx[KEYS[op["k"]]] = val
                    t = threading.Thread(target=setter)
                    t.start()
                    t.join()
                else:
                    ctx[KEYS[op["k"]]] = val
                if rng.random() < 0.3:
                    await asyncio.sleep(0)
            elif k == "cancel":
                t = tasks.get(op["r"])
                if t is None or t.done():
                    continue
                if op["r"] in cancelled:
                    continue
                cancelled.add(op["r"])
                rec("cancel", r=op["r"])
                t.cancel()
            elif k == "settle":
                await loop.settle()
        await loop.settle()
        await asyncio.sleep(1)
        await loop.settle()

    cancelled = set()

    def idle_fields():
        t = total()
        return {"s": {k: t[k] - base[k] for k in t}}

    st = run_virtual(main, rec, idle_fields=idle_fields)
    if hold:
        hold[0].close()
        hold.clear()
    tasks.clear()
    return rec.finish(st, trace_cfg(s))
