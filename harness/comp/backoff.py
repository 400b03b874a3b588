"""asyncbackoff / asyncretry / timeout on the virtual loop."""
import asyncio
import random

from harness.vloop import Recorder, run_virtual

SPEC = "Backoff"
ALL = '{"B01","B02","T01"}'
PROPS = ("B01", "B02", "T01")
N_QUICK = 1200


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ALL, Diagnose="FALSE", Calls="{1}", MaxTime=4 if q else 7, MaxTries=3 if q else 4,
             Attempts="<- AttemptsVal", Deadlines="<- DeadlinesSmall" if q else "<- DeadlinesLarge", Pauses="{0,1}" if q else "{0,1,2}",
             Tries="{0,1,2}" if q else "{0,1,2,3}", Excs="<- ExcsSmall" if q else "<- ExcsLarge",
             Giveups="<- GiveupsSmall" if q else "<- GiveupsLarge", Depth=20)
    return [dict(module="MCBackoff", spec="MCSpec", constants=c, view="StatView",
                 invariants=["TriesBounded", "InTime", "AttemptInTime", "Obligations"])]


def generated(tier):
    d = 16 if tier == "quick" else 24
    return [dict(module="MCBackoff", num=300 if tier == "quick" else 3000, depth=d,
                 init="MCInit", next_="GenNext", constraint="GenPrint",
                 constants=dict(Enforce=ALL, Diagnose="FALSE", Calls="{1,2}", MaxTime=12, MaxTries=9,
                                Attempts="<- AttemptsVal", Deadlines="<- DeadlinesLarge", Pauses="{0,1,2}", Tries="{0,1,2,3}",
                                Excs="<- ExcsLarge",
                                Giveups="<- GiveupsLarge", Depth=d))]


UNIT = 100


def from_generated(g, rng):
    c = g["cfg"]
    ops = [dict(o, dt=UNIT) if o["e"] == "adv" else dict(o) for o in g["ops"]]
    sc = lambda v: v * UNIT if v > 0 else v     # noqa: E731
    return dict(kind="backoff", attempt=sc(c["attempt"]), deadline=sc(c["deadline"]), pause=sc(c["pause"]),
                tries=c["tries"], exc=list(c["exc"]), giveup=list(c["giveup"]), auto=0.0, how=rng.randrange(2),
                burst=rng.choice([0.0, 0.3, 0.8]), seed=rng.randrange(1 << 30), ops=ops)


def random_script(rng, tier):
    kind = rng.choice(["backoff"] * 4 + ["retry", "retry", "timeout"])
    ops, c = [], 0
    w = dict(call=3, cancel=rng.choice([0, 0, 1, 2]), attEnd=6, adv=rng.choice([2, 5]))
    kinds, weights = zip(*w.items())
    pok = rng.choice([0.05, 0.2, 0.5])
    for _ in range(rng.randrange(6, 45)):
        k = rng.choices(kinds, weights)[0]
        op = {"e": k}
        if k == "call":
            c += 1
            op["c"] = c
            if c > 4:
                continue
        elif k == "cancel":
            op["c"] = rng.randrange(1, max(1, c) + 1)
        elif k == "attEnd":
            op["c"] = rng.randrange(1, max(1, c) + 1)
            if rng.random() < pok:
                op.update(k="ok", n="")
            else:
                op.update(k="raise", n=rng.choice("AABBCT"))
        elif k == "adv":
            op["dt"] = rng.choice([10, 50, 100, 100, 99, 200, 300])
        ops.append(op)
    s = dict(kind=kind, attempt=-1, deadline=-1, pause=rng.choice([0, 0, 10, 100, 150]), tries=rng.choice([0, 1, 2, 3, 5]),
             exc=rng.choice([[], ["A"], ["B"], ["C"], ["A", "C"], ["Exception"]]),
             giveup=rng.choice([[], [], ["B"], ["A"], ["T"], ["A", "C"]]), how=rng.randrange(2),
             auto=rng.choice([0.0, 0.3, 0.8]), burst=rng.choice([0.0, 0.4, 0.9]),
             seed=rng.randrange(1 << 30), ops=ops)
    if kind == "backoff":
        s["attempt"] = rng.choice([-1, -1, 50, 100, 200])
        s["deadline"] = rng.choice([-1, -1, 100, 150, 300, 1000])
    elif kind == "timeout":
        s.update(attempt=rng.choice([50, 100, 200]), tries=1, pause=0, exc=[], giveup=[])
    elif not s["exc"]:
        s["exc"] = ["Exception"]
    return s


def trace_cfg(s):
    c = {k: s[k] for k in ("attempt", "deadline", "pause", "tries", "exc", "giveup")}
    return dict(c, stat=s["kind"] != "timeout")


class A(Exception):
    pass


class B(A):
    pass


class Cx(Exception):
    pass


CLS = {"A": A, "B": B, "C": Cx, "T": asyncio.TimeoutError, "Exception": Exception}
_n = [0]


def name_of(e):
    return {A: "A", B: "B", Cx: "C", asyncio.TimeoutError: "T"}.get(type(e), type(e).__name__)


def run_script(s):
    import aiomisc
    from aiomisc.backoff import BackoffStatistic, RetryStatistic
    rng = random.Random(s["seed"])
    rec = Recorder()
    _n[0] += 1
    sname = "bk%d" % _n[0]
    gates, tasks, cancelled = {}, {}, set()
    serial = [0]
    current = {}

    async def func(c, *args, **kw):
        serial[0] += 1
        me = serial[0]
        rec("att", c=c, same=(args == ("p", c) and kw == {"key": c}))
        fut = asyncio.get_running_loop().create_future()
        gates[c] = fut
        try:
            if rng.random() < s["auto"]:
                d = rng.choice([None, 0, 0.01, 0.05, 0.1, 0.1, 0.2])
                if d is not None:
                    await asyncio.sleep(d)
                k, n = rng.choice([("ok", "")] + [("raise", x) for x in "AABCT"])
            else:
                k, n = await fut
        except asyncio.CancelledError:
            rec("attCancelled", c=c)
            raise
        finally:
            if gates.get(c) is fut:
                del gates[c]
        rec("attEnd", c=c, k=k, n=n, id=me)
        if k == "ok":
            return me
        raise CLS[n](me)

    giveup = None
    if s["giveup"]:
        def giveup(e):
            return name_of(e) in s["giveup"] and rng.choice([True, 1])

    def ms(v):
        return None if v < 0 else v / 1000

    excs = tuple(CLS[n] for n in s["exc"])
    if s["kind"] == "backoff":
        if s["how"]:
            deco = aiomisc.asyncbackoff(ms(s["attempt"]), ms(s["deadline"]), s["pause"] / 1000, *excs,
                                        max_tries=s["tries"] or None, giveup=giveup, statistic_name=sname)
        else:
            deco = aiomisc.asyncbackoff(ms(s["attempt"]), ms(s["deadline"]), s["pause"] / 1000, exceptions=excs,
                                        max_tries=s["tries"] or None, giveup=giveup, statistic_name=sname)
    elif s["kind"] == "retry":
        deco = aiomisc.asyncretry(s["tries"] or None, exceptions=excs, pause=s["pause"] / 1000,
                                  giveup=giveup, statistic_name=sname)
    else:
        deco = aiomisc.timeout(s["attempt"] / 1000)
    f = deco(func)

    async def caller(c):
        rec("call", c=c)
        try:
            r = await f(c, "p", c, key=c)
        except asyncio.CancelledError:
            rec("ret", c=c, k="cancelled", n="", id=0)
        except Exception as e:
            rec("ret", c=c, k="raise", n=name_of(e), id=e.args[0] if e.args else 0)
        else:
            rec("ret", c=c, k="ok", n="", id=r if isinstance(r, int) else -1)

    async def main(loop):
        for op in s["ops"]:
            k = op["e"]
            if k == "call":
                c = op["c"]
                if c in tasks:
                    continue
                tasks[c] = loop.create_task(caller(c))
                await asyncio.sleep(0)
            elif k == "cancel":
                t = tasks.get(op["c"])
                if t is None or t.done() or op["c"] in cancelled:
                    continue
                cancelled.add(op["c"])
                rec("cancel", c=op["c"])
                t.cancel()
            elif k == "attEnd":
                g = gates.get(op["c"])
                if g is None or g.done():
                    continue
                g.set_result((op["k"], op["n"]))
            elif k == "adv":
                await loop.settle()
                await asyncio.sleep(op["dt"] / 1000)
            if rng.random() >= s["burst"]:
                await loop.settle()
        await loop.settle()
        for _ in range(400):
            pend = [c for c, t in tasks.items() if not t.done()]
            if not pend:
                break
            g = next((g for c, g in sorted(gates.items()) if not g.done()), None)
            if g is not None:
                g.set_result(("ok", ""))
            else:
                await asyncio.sleep(0.01)
            await loop.settle()
        else:
            rec("never_ends")

    def idle_fields():
        r = {"attempts": 0, "done": 0, "errors": 0, "cancels": 0, "sum": 0}
        if s["kind"] != "timeout":
            kind = RetryStatistic if s["kind"] == "retry" else BackoffStatistic
            for st in aiomisc.get_statistics(kind):
                if st.name == sname:
                    r[st.metric] = st.value
        r["sum"] = int(round(r.pop("sum_time", 0) * 1000))
        return {"s": {k: int(v) for k, v in r.items()}}

    st = run_virtual(main, rec, idle_fields=idle_fields)
    return rec.finish(st, trace_cfg(s))
