"""aiomisc aggregation driven on the virtual loop."""
import asyncio
import random

from harness.vloop import Recorder, run_virtual

SPEC = "Aggregate"
PROPS = ("A01", "A02", "T01")
ALL = '{"A01","A02"}'
N_QUICK = 900


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ALL, Diagnose="FALSE", MaxCalls=3, MaxExec=2 if q else 3, MaxTime=2 if q else 3,
             Maxes="{0,2}" if q else "{0,1,2}", Leeways="{1}" if q else "{1,2}", Modes='{"agg","async"}', Depth=30)
    return [dict(module="MCAggregate", spec="MCSpec", constants=c,
                 invariants=["OwnResult", "OneBatch", "OneAtATime", "Bounded", "NoneEarly", "Obligations"])]


def generated(tier):
    d = 30 if tier == "quick" else 45
    return [dict(module="MCAggregate", num=150 if tier == "quick" else 1500, depth=d,
                 init="MCInit", next_="GenNext", constraint="GenPrint",
                 constants=dict(Enforce=ALL, Diagnose="FALSE", MaxCalls=7, MaxExec=6, MaxTime=8,
                                Maxes="{0,2,3}", Leeways="{2}", Modes='{"agg","async"}', Depth=d))]


def from_generated(ops, rng):
    out = [dict(op, dt=50) if op["e"] == "adv" else dict(op) for op in ops]
    mode = "async" if any(o["e"] == "set" for o in out) else rng.choice(["agg", "async"])
    return dict(max=rng.choice([0, 2, 3]), leeway=100, mode=mode, auto=0.0,
                burst=rng.choice([0.0, 0.3, 0.7]), via=rng.choice(["class", "deco"]),
                seed=rng.randrange(1 << 30), ops=out)


def random_script(rng, tier):
    ops, c = [], 0
    w = dict(call=6, cancel=rng.choice([0, 1, 3]), set=rng.choice([0, 2]), finish=3, adv=rng.choice([1, 3]))
    kinds, weights = zip(*w.items())
    leeway = rng.choice([10, 50, 100])
    for _ in range(rng.randrange(8, 50)):
        k = rng.choices(kinds, weights)[0]
        op = {"e": k}
        if k == "call":
            c += 1
            op["c"] = c
        elif k == "cancel":
            op["c"] = rng.randrange(max(1, c - 5), c + 1) if c else 1
        elif k == "set":
            op.update(x=rng.randrange(3), c=rng.randrange(8), k=rng.choice(["ok", "ok", "exc"]))
        elif k == "finish":
            op.update(x=rng.randrange(3), k=rng.choice(["ok", "ok", "ok", "exc", "short", "long"]),
                      n=rng.randrange(4))
        elif k == "adv":
            op["dt"] = rng.choice([leeway // 2, leeway // 5, leeway, leeway - 1, leeway + 1, 3 * leeway])
        ops.append(op)
    return dict(max=rng.choice([0, 0, 1, 2, 3, 5]), leeway=leeway, mode=rng.choice(["agg", "async"]),
                auto=rng.choice([0.0, 0.0, 0.4, 1.0]), burst=rng.choice([0.0, 0.3, 0.7, 0.95]),
                via=rng.choice(["class", "deco"]), seed=rng.randrange(1 << 30), ops=ops)


def trace_cfg(s):
    return dict(max=s["max"], leeway=s["leeway"], mode=s["mode"], stat=s["via"] != "deco")


class Err(Exception):
    pass


class Same:
    """An argument which equals any other."""

    def __init__(self, c):
        self.c = c

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 1


def num(v):
    return v.c if isinstance(v, Same) else v


_n = [0]


def run_script(s):
    from aiomisc import aggregate as agg   # noqa: F401
    import aiomisc
    import sys
    A = sys.modules["aiomisc.aggregate"]
    rng = random.Random(s["seed"])
    rec = Recorder()
    _n[0] += 1
    sname = "agg%d" % _n[0]
    tasks, owner = {}, {}
    nexec = [0]
    running = {}
    asyncm = s["mode"] == "async"

    async def func(*args):
        nexec[0] += 1
        x = nexec[0]
        vals = [num(a.value) for a in args] if asyncm else [num(a) for a in args]
        rec("start", x=x, args=vals, ex=owner.get(asyncio.current_task(), 0))
        st = dict(vals=vals, args=args, done=asyncio.get_running_loop().create_future())
        running[x] = st
        try:
            if rng.random() < s["auto"]:
                if rng.random() < 0.5:
                    await asyncio.sleep(rng.choice([0, 0, s["leeway"] / 2000, s["leeway"] / 500]))
                k, n = rng.choice([("ok", 0)] * 4 + [("exc", 0), ("short", 1)])
                if asyncm:
                    for a in args:
                        if rng.random() < 0.9:
                            setone(x, a, rng.choice(["ok", "ok", "exc"]))
            else:
                k, n = await st["done"]
        except asyncio.CancelledError:
            running.pop(x, None)
            rec("fcancel", x=x)
            raise
        running.pop(x, None)
        if k == "exc":
            rec("finish", x=x, k="exc", n=0)
            raise Err(x)
        if asyncm:
            rec("finish", x=x, k="ok", n=0)
            return
        n = len(vals) if k in ("ok", "long") else min(n, len(vals))
        rec("finish", x=x, k="ok", n=n)
        res = [x * 1000 + v for v in vals][:n]
        if k == "long":
            res += [-1, -2]
        return iter(res) if rng.random() < 0.3 else res

    def setone(x, a, k):
        if a.future.done():
            return
        v = num(a.value)
        rec("set", x=x, c=v, k=k)
        if k == "ok":
            a.future.set_result(x * 1000 + v)
        else:
            a.future.set_exception(Err(x * 1000 + v))

    async def caller(c, f):
        rec("call", c=c)
        try:
            r = await f(Same(c) if s["seed"] % 3 == 0 else c)
        except asyncio.CancelledError:
            rec("ret", c=c, k="cancelled", v=0)
        except A.ResultNotSetError:
            rec("ret", c=c, k="notset", v=0)
        except Err as e:
            rec("ret", c=c, k="exc", v=e.args[0])
        except Exception as e:
            rec("ret", c=c, k=type(e).__name__, v=0)
        else:
            rec("ret", c=c, k="ok", v=r if isinstance(r, int) else -1)

    async def main(loop):
        mx = s["max"] or None
        if s["via"] == "deco":
            deco = agg.aggregate_async if hasattr(agg, "aggregate_async") else None
            f = (A.aggregate_async if asyncm else A.aggregate)(s["leeway"], mx)(func)
        else:
            f = (A.AggregatorAsync if asyncm else A.Aggregator)(
                func, leeway_ms=s["leeway"], max_count=mx, statistic_name=sname).aggregate

        def pick(n):
            ks = [x for x in sorted(running) if not running[x]["done"].done()]
            return ks[n % len(ks)] if ks else None

        cancelled = set()
        for op in s["ops"]:
            k = op["e"]
            if k == "call":
                c = op["c"]
                if c in tasks:
                    continue
                t = tasks[c] = loop.create_task(caller(c, f))
                owner[t] = c
                # the call happens when its task runs for the first time
                await asyncio.sleep(0)
            elif k == "cancel":
                t = tasks.get(op["c"])
                if t is None or t.done() or op["c"] in cancelled:
                    continue
                cancelled.add(op["c"])
                rec("cancel", c=op["c"])
                t.cancel()
            elif k == "set" and asyncm:
                x = pick(op["x"])
                if x is None:
                    continue
                args = running[x]["args"]
                setone(x, args[op["c"] % len(args)], op["k"])
            elif k == "finish":
                x = pick(op["x"])
                if x is None:
                    continue
                kk = op["k"]
                if kk == "ok" and not asyncm and op["n"] == 0 and rng.random() < 0.2:
                    kk = "short"
                running[x]["done"].set_result((kk, op["n"]))
            elif k == "adv":
                await loop.settle()
                await asyncio.sleep(op["dt"] / 1000)
            if rng.random() >= s["burst"]:
                await loop.settle()
        await loop.settle()
        for _ in range(60):
            x = pick(0)
            if x is not None:
                if asyncm:
                    for a in running[x]["args"]:
                        setone(x, a, "ok")
                running[x]["done"].set_result(("ok", 0))
                await loop.settle()
            elif all(t.done() for t in tasks.values()):
                break
            else:
                await asyncio.sleep(s["leeway"] / 1000)
                await loop.settle()
        else:
            rec("never_ends")

    def idle_fields():
        r = {"success": 0, "error": 0, "done": 0, "leeway_ms": 0, "max_count": 0}
        for x in aiomisc.get_statistics(A.AggregateStatistic):
            if x.name == sname:
                r[x.metric] = int(round(x.value))
        return {"s": r}

    st = run_virtual(main, rec, idle_fields=idle_fields)
    return rec.finish(st, trace_cfg(s))
