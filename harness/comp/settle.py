"""aiomisc.select, cancel_tasks, shield."""
import asyncio
import random

from harness.vloop import Recorder, run_virtual

SPEC = "Settle"
PROPS = ("S01", "S02")
N_QUICK = 2500
N_THOROUGH = 12000


def design(tier):
    q = tier == "quick"
    base = dict(Enforce='{"S01", "S02"}', Diagnose="FALSE", Depth=5, Rexcs="{FALSE}" if q else "<- Both")
    inv = ["Obligations", "Settled"]
    return [
        dict(module="MCSettle", spec="MCSpec", invariants=inv,
             constants=dict(base, NJobs=1, MaxAw=2 if q else 3, MaxT=1, Kinds="<- KindsFew" if not q else "<- KindsAll", JobTypes="<- SelType")),
        dict(module="MCSettle", spec="MCSpec", invariants=inv,
             constants=dict(base, NJobs=2, MaxAw=1 if q else 2, MaxT=0, Kinds="<- KindsAll", JobTypes="<- GroupShield")),
    ]


def generated(tier):
    n = 60 if tier == "quick" else 500
    return [dict(module="MCSettle", num=n, depth=26, init="MCInit", next_="GenNext", constraint="GenPrint",
                 constants=dict(Enforce='{"S01", "S02"}', Diagnose="FALSE", NJobs=3, MaxAw=3, MaxT=3,
                                Kinds="<- KindsAll", JobTypes=j, Depth=26, Rexcs="<- Both"))
            for j in ("<- SelType", "<- AllTypes")]


def trace_cfg(s):
    return {"x": 0}


def from_generated(g, rng):
    return dict(seed=rng.randrange(1 << 30), auto=0, burst=rng.choice([0, 0, 0.4]), ops=g["ops"],
                stub=rng.choice([0, 0.3, 1]))


def random_script(rng, tier):
    ops, n, t = [], 0, 0
    kinds = rng.choice([["coro"], ["task"], ["coro", "task", "future"]])
    auto = rng.choice([0, 0.5, 1])
    sizes = {}
    for _ in range(rng.randrange(3, 30)):
        k = rng.choices(["select", "group", "shield", "ct", "fin", "cancel", "adv"],
                        [3, 2, 1, 2, 7, 1.5, 2])[0]
        s = rng.randrange(1, n + 1) if n else 1
        if k == "select":
            n += 1
            sizes[n] = rng.randrange(1, 5)
            ops.append(dict(e=k, s=n, kinds=[rng.choice(kinds) for _ in range(sizes[n])],
                            rexc=rng.random() < 0.4, cancel=rng.random() < 0.75, wait=rng.random() < 0.7,
                            tmo=rng.choice([0, 0, 1, 2, 3])))
        elif k == "group":
            n += 1
            sizes[n] = rng.randrange(0, 6)
            ops.append(dict(e=k, s=n, kinds=[rng.choice(["task", "task", "future"]) for _ in range(sizes[n])]))
        elif k == "shield":
            n += 1
            sizes[n] = 1
            ops.append(dict(e=k, s=n))
        elif k == "ct" or k == "cancel":
            ops.append(dict(e=k, s=s))
        elif k == "fin":
            ops.append(dict(e=k, s=s, i=rng.randrange(1, max(2, sizes.get(s, 1) + 1)),
                            k=rng.choice(["ok", "ok", "raise", "cancelled"])))
        else:
            t += rng.choice([1, 1, 2])
            ops.append(dict(e=k, t=t))
    return dict(seed=rng.randrange(1 << 30), auto=auto, burst=rng.choice([0, 0, 0.4, 0.8]), ops=ops,
                stub=rng.choice([0, 0.3, 1]))


class Boom(Exception):
    pass


class BoomBase(Exception):
    pass


def run_script(s):
    import aiomisc
    rng = random.Random(s["seed"])
    rec = Recorder()
    jobs, tasks, gates, values, finished = {}, {}, {}, {}, set()

    def mk_value(j, i, k):
        v = ("v", j, i) if k == "ok" else rng.choice([Boom, BoomBase, asyncio.TimeoutError])(j, i)
        if k == "ok" and rng.random() < 0.15:
            v = rng.choice([None, False, 0])
        values[j, i] = v
        return v

    def finish(j, i, k):
        v = mk_value(j, i, k) if k != "cancelled" else None
        finished.add((j, i))
        rec("fin", s=j, i=i, k=k)
        if k == "ok":
            return v
        if k == "raise":
            raise v
        raise asyncio.CancelledError

    async def body(j, i, *a):
        rec("begin", s=j, i=i)
        loop = asyncio.get_running_loop()
        if a and a != ("arg",):
            rec("arguments_changed")
        first = True
        while True:
            gates[j, i] = g = loop.create_future()
            try:
                if rng.random() < s["auto"]:
                    d = rng.choice([0, 0, 1, 1, 2, 3, 5])
                    if d:
                        await asyncio.wait([g], timeout=d / 1000)
                    else:
                        for _ in range(rng.randrange(3)):
                            await asyncio.sleep(0)
                    k = g.result() if g.done() else rng.choice(["ok", "ok", "raise"])
                else:
                    k = await g
                if k == "cancelled" and jobs[j] == "group":
                    k = "ok"
                return finish(j, i, k)
            except asyncio.CancelledError:
                if (j, i) in finished:
                    raise
                rec("creq", s=j, i=i)
                if first and rng.random() < s["stub"]:
                    first = rng.random() < 0.7
                    r = rng.random()
                    if r < 0.2:
                        return finish(j, i, "ok")
                    if r < 0.4:
                        return finish(j, i, "raise")
                    continue      # stubborn: runs on
                return finish(j, i, "cancelled")

    def future(j, i, loop):
        f = loop.create_future()
        gates[j, i] = f

        def done(f):
            if (j, i) not in finished:
                finished.add((j, i))
                k = "cancelled" if f.cancelled() or isinstance(f.exception(), asyncio.CancelledError) else "other"
                rec("fin", s=j, i=i, k=k)
        f.add_done_callback(done)
        return f

    def make(j, kinds, loop):
        res = []
        for i, k in enumerate(kinds, 1):
            if k == "coro":
                res.append(body(j, i))
            elif k == "task":
                res.append(loop.create_task(body(j, i)))
            else:
                res.append(future(j, i, loop))
        return res

    async def select(op, aws):
        j = op["s"]
        d = dict(op)
        d.pop("e")
        try:
            kw = dict(return_exceptions=op["rexc"], cancel=op["cancel"], wait=op["wait"])
            if op["tmo"]:
                kw["timeout"] = op["tmo"] / 1000
            rec("select", **d)
            r = await aiomisc.select(*aws, **kw)
        except asyncio.CancelledError:
            rec("ret", s=j, k="cancelled", w=0, same=True)
        except Exception as e:
            w = [i for (jj, i), v in values.items() if jj == j and v is e]
            rec("ret", s=j, k="raise" if w else type(e).__name__, w=w[0] if w else 0, same=True)
        else:
            same = len(r) == len(aws)
            if not r.done():
                rec("ret", s=j, k="none", w=0, same=same and list(r) == [None] * len(aws))
            else:
                w = r.result_idx + 1
                v = values.get((j, w), "?")
                same = same and r.value is v and v in r
                same = same and [x is v for i, x in enumerate(r) if i == w - 1] == [True]
                same = same and all(x is None for i, x in enumerate(r) if i != w - 1)
                if r.is_exception:
                    try:
                        r.result()
                        same = False
                    except Exception as e:
                        same = same and e is v
                else:
                    same = same and r.result() is v
                rec("ret", s=j, k="exc" if r.is_exception else "ok", w=w, same=same)

    async def cancel_tasks(j, aws):
        how = rng.choice([list, set, tuple, iter, lambda x: dict.fromkeys(x).keys(), lambda x: (y for y in x)])
        rec("ct", s=j)
        try:
            f = aiomisc.cancel_tasks(how(aws))
            for i, x in enumerate(aws, 1):
                if not isinstance(x, asyncio.Task) and x.done() and (j, i) not in finished:
                    finished.add((j, i))
                    k = "cancelled" if x.cancelled() or isinstance(x.exception(), asyncio.CancelledError) else "other"
                    rec("fin", s=j, i=i, k=k)
            rec("ctdone", s=j)
            await f
        except asyncio.CancelledError:
            rec("ret", s=j, k="cancelled", w=0, same=True)
        except Exception as e:
            rec("ret", s=j, k=type(e).__name__, w=0, same=True)
        else:
            rec("ret", s=j, k="ok", w=0, same=True)

    async def shield(j):
        @aiomisc.shield
        async def func(*a, **kw):
            if kw != {"x": j}:
                rec("arguments_changed")
            return await body(j, 1, *a)
        if func.__name__ != "func":
            rec("name_lost")
        rec("shield", s=j)
        try:
            r = await func("arg", x=j)
        except asyncio.CancelledError:
            rec("ret", s=j, k="cancelled", w=0, same=True)
        except Exception as e:
            rec("ret", s=j, k="raise", w=1, same=e is values.get((j, 1)))
        else:
            rec("ret", s=j, k="ok", w=1, same=r is values.get((j, 1), "?"))

    groups, cancels = {}, {}

    async def main(loop):
        now = 0
        for op in s["ops"]:
            k = op["e"]
            j = op.get("s")
            if k == "select" and j not in jobs:
                jobs[j] = "select"

                async def run(op=op):
                    aws = make(op["s"], op["kinds"], loop)
                    await select(op, aws)
                tasks[j] = loop.create_task(run())
                await asyncio.sleep(0)
            elif k == "group" and j not in jobs:
                jobs[j] = "group"
                rec("group", s=j, kinds=op["kinds"])
                groups[j] = make(j, op["kinds"], loop)
            elif k == "shield" and j not in jobs:
                jobs[j] = "shield"
                tasks[j] = loop.create_task(shield(j))
                await asyncio.sleep(0)
            elif k == "ct" and j in groups and j not in tasks:
                tasks[j] = loop.create_task(cancel_tasks(j, groups[j]))
                await asyncio.sleep(0)
            elif k == "cancel" and jobs.get(j) in ("select", "shield") and not tasks[j].done() and cancels.get(j, 0) < 2:
                cancels[j] = cancels.get(j, 0) + 1
                rec("cancel", s=j)
                tasks[j].cancel()
            elif k == "fin":
                i = op["i"]
                g = gates.get((j, i))
                if g is not None and not g.done() and (j, i) not in finished:
                    fut = isinstance(g, asyncio.Future) and g.get_loop() is loop and (j, i) in futs(j)
                    if fut:
                        if op["k"] == "cancelled":
                            continue
                        v = mk_value(j, i, op["k"])
                        finished.add((j, i))
                        rec("fin", s=j, i=i, k=op["k"])
                        if op["k"] == "ok":
                            g.set_result(v)
                        else:
                            g.set_exception(v)
                    else:
                        g.set_result(op["k"])
            elif k == "adv":
                t = op["t"] / 1000
                if t > loop.time():
                    await asyncio.sleep(t - loop.time())
            if rng.random() >= s["burst"]:
                await loop.settle()
        for _ in range(200):
            await loop.settle()
            open_ = [x for x in gates if x not in finished]
            if not open_ and all(t.done() for t in tasks.values()):
                break
            for x in open_:
                if gates[x].done():
                    continue
                if x in futs(x[0]):
                    finished.add(x)
                    rec("fin", s=x[0], i=x[1], k="ok")
                    gates[x].set_result(mk_value(*x, "ok"))
                else:
                    gates[x].set_result("ok")
            await asyncio.sleep(0.001)
        else:
            rec("never_ends")
        await loop.settle()

    kinds_of = {o["s"]: o["kinds"] for o in s["ops"] if o["e"] in ("select", "group")}

    def futs(j):
        return {(j, i) for i, k in enumerate(kinds_of.get(j, []), 1) if k == "future"}

    st = run_virtual(main, rec)
    return rec.finish(st, trace_cfg(s))
