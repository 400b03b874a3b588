"""CircuitBreaker and cutout on the virtual loop, with controlled random draws."""
import asyncio
import random

_draw = [0.5]
_real_random = random.Random(1)


def fake_random():
    return _draw[0]


random.random = fake_random         # before aiomisc is imported

from harness.vloop import Recorder, run_virtual    # noqa: E402

SPEC = "CircuitBreaker"
PROPS = ("K01", "K02", "T01")
ALL = '{"K01","K02","T01"}'
N_QUICK = 400
N_THOROUGH = 5000


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ALL, Diagnose="FALSE", Calls=3 if q else 4, MaxTime=1000 if q else 1500,
             Ratios="{50,100}" if q else "{30,50,100}", Depth=20, Overlap=0 if q else 1)
    return [dict(module="MCCircuitBreaker", spec="MCSpec", constants=c, properties=["Changes"],
                 invariants=["SlotsBounded", "Obligations", "LastIsFailure"])]


def generated(tier):
    d = 120
    return [dict(module="MCCircuitBreaker", num=80 if tier == "quick" else 1500, depth=d,
                 init="GenInit", next_="GenNext", constraint="GenPrint",
                 constants=dict(Enforce=ALL, Diagnose="FALSE", Calls=1, MaxTime=100000,
                                Ratios="{30,50,100}", Depth=d, Overlap=1))]


def from_generated(g, rng):
    c = g["cfg"]
    t, ops = 0, []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "adv":
            o["dt"] = o["t"] - t
            t = o["t"]
        ops.append(o)
    return dict(resp=c["resp"], broken=c["broken"], passing=c["passing"], recovery=c["recovery"], ratio=c["ratio"],
                exc=list(c["exc"]), ignored=list(c["ignored"]), inspect=1, how=rng.randrange(4), ops=ops)


TABLE = [int(1e6 * (2 ** (k / 32) - 1)) for k in range(32)]


def draw(rng):
    x = rng.random()
    if x < 0.4:
        r = rng.choice(TABLE) + rng.choice([-3, -1, 2, 4])
    elif x < 0.5:
        r = 0
    else:
        r = rng.randrange(0, 1000000)
    r = min(max(r, 0), 999999)
    return r + 1 if r in TABLE else r


def random_script(rng, tier):
    ops = []
    c = 0
    n = rng.randrange(14, 60)
    style = rng.choice(["steady", "steady", "overlap", "mixed"])
    pfail = rng.choice([0.5, 0.9, 1.0])
    phase = 0
    running = []
    for i in range(n):
        if rng.random() < 0.07:
            pfail = rng.choice([0.0, 0.1, 0.5, 1.0, 1.0])
            phase += 1
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5])):
            c += 1
            ops.append(dict(e="call", c=c, r=draw(rng)))
            running.append(c)
            while running and (style == "steady" or rng.random() < 0.5):
                x = running.pop(rng.randrange(len(running)))
                if rng.random() < pfail:
                    ops.append(dict(e="end", c=x, k="raise", n=rng.choice("AAAAABBC")))
                elif rng.random() < 0.05:
                    ops.append(dict(e="end", c=x, k="cancelled", n=""))
                else:
                    ops.append(dict(e="end", c=x, k="ok", n=""))
        ops.append(dict(e="adv", dt=rng.choice([125, 125, 125, 250, 375] + ([1000, 500, 2000] if rng.random() < .3 else []))))
    return dict(resp=rng.choice([1000, 1000, 2000, 4000]), broken=rng.choice([0, 500, 1000, 2000]),
                passing=rng.choice([0, 500, 1000]), recovery=rng.choice([0, 500, 1000, 2000, 4000]),
                ratio=rng.choice([10, 20, 30, 50, 70, 100]), exc=rng.choice([["A"], ["A"], ["A", "C"], ["B"], ["Exception"]]),
                ignored=rng.choice([[], [], ["B"], ["A"]]), inspect=rng.choice([0, 1, 2]), how=rng.randrange(4), ops=ops)


def trace_cfg(s):
    d = {k: s[k] or s["resp"] for k in ("broken", "passing", "recovery")}
    return dict(d, resp=s["resp"], ratio=s["ratio"], n=10, exc=s["exc"],
                ignored=s["ignored"] if s["inspect"] else [])


class A(Exception):
    pass


class B(A):
    pass


class Cx(Exception):
    pass


CLS = {"A": A, "B": B, "C": Cx, "Exception": Exception}
NAME = {A: "A", B: "B", Cx: "C"}
_n = [0]


def run_script(s):
    import aiomisc
    from aiomisc.circuit_breaker import CircuitBreakerStatistic
    from aiomisc import circuit_breaker as cbm
    rec = Recorder()
    _n[0] += 1
    name = "cb%d" % _n[0]
    sec = lambda k: (s[k] / 1000 if s[k] % 1000 else s[k] // 1000) or None     # noqa: E731
    inspector = None
    if s["inspect"]:
        def inspector(e):
            if NAME.get(type(e)) in s["ignored"]:
                return False
            if s["inspect"] == 2:
                raise RuntimeError("inspector")
            return True
    kw = dict(broken_time=sec("broken"), passing_time=sec("passing"), recovery_time=sec("recovery"),
              exception_inspector=inspector, statistic_name=name)
    excs = [CLS[n] for n in s["exc"]]
    how = s["how"]             # 0 sync call, 1 async call, 2 cutout async, 3 context manager / cutout sync
    tasks, gates = {}, {}
    script_end = {}
    for o in s["ops"]:
        if o["e"] == "end":
            script_end[o["c"]] = o

    async def main(loop):
        if how in (0, 1):
            cb = aiomisc.CircuitBreaker(s["ratio"] / 100, sec("resp"), excs, **kw)
        else:
            made = []
            real = cbm.CircuitBreaker

            class Spy(real):
                def __init__(self, *a, **k):
                    super().__init__(*a, **k)
                    made.append(self)
            cbm.CircuitBreaker = Spy

        def st():
            return cb.state.name

        def finish(c, k, n):
            rec("end", c=c, k=k, n=n, id=c)
            if k == "ok":
                return c
            if k == "cancelled":
                raise asyncio.CancelledError
            raise CLS[n](c)

        def sync_func(c, *a, **kws):
            rec("run", c=c, same=(a == ("p",) and kws == {"q": c}), st=st())
            o = script_end.get(c, dict(k="ok", n=""))
            return finish(c, o["k"], o["n"])

        async def async_func(c, *a, **kws):
            rec("run", c=c, same=(a == ("p",) and kws == {"q": c}), st=st())
            gates[c] = loop.create_future()
            k, n = await gates[c]
            return finish(c, k, n)

        if how == 1:
            def start(c):
                return cb.call_async(async_func, c, "p", q=c)
        elif how == 0:
            def start(c):
                return cb.call(sync_func, c, "p", q=c)
        elif how == 2:
            f = aiomisc.cutout(s["ratio"] / 100, sec("resp"), *excs, **kw)(async_func)
            start = lambda c: f(c, "p", q=c)      # noqa: E731
        else:
            f = aiomisc.cutout(s["ratio"] / 100, sec("resp"), *excs, **kw)(sync_func)
            start = lambda c: f(c, "p", q=c)      # noqa: E731
        if how >= 2:
            cbm.CircuitBreaker = real
            cb = made[0]

        def outcome(c, e, r=None):
            if e is None:
                rec("ret", c=c, k="ok", n="", id=r, st=st())
            elif isinstance(e, asyncio.CancelledError):
                rec("ret", c=c, k="cancelled", n="", id=c, st=st())
            elif isinstance(e, aiomisc.CircuitBroken):
                le = e.last_exception
                rec("ret", c=c, k="broken", n="", id=le.args[0] if le is not None else 0, st=st())
            else:
                rec("ret", c=c, k="raise", n=NAME.get(type(e), type(e).__name__),
                    id=e.args[0] if e.args and isinstance(e.args[0], int) else -1, st=st())

        async def acall(c, r):
            rec("call", c=c, r=r)
            _draw[0] = r / 1e6
            try:
                x = await start(c)
            except BaseException as e:
                outcome(c, e)
            else:
                outcome(c, None, x)

        for o in s["ops"]:
            if o["e"] == "call":
                c, r = o["c"], o["r"]
                if how in (1, 2):
                    tasks[c] = loop.create_task(acall(c, r))
                    await loop.settle()
                else:
                    rec("call", c=c, r=r)
                    _draw[0] = r / 1e6
                    try:
                        x = start(c)
                    except BaseException as e:
                        outcome(c, e)
                    else:
                        outcome(c, None, x)
            elif o["e"] == "end":
                g = gates.get(o["c"])
                if g is not None and not g.done():
                    g.set_result((o["k"], o["n"]))
                    await loop.settle()
            else:
                await loop.settle()
                await asyncio.sleep(o["dt"] / 1000)
        await loop.settle()
        await asyncio.sleep(0.125)
        await loop.settle()
        return cb

    def idle_fields():
        r = {}
        for x in aiomisc.get_statistics(CircuitBreakerStatistic):
            if x.name == name:
                r[x.metric] = int(round(x.value * 100)) if x.metric.startswith("error") else x.value
        return {"s": r}

    status = run_virtual(main, rec, idle_fields=idle_fields)
    return rec.finish(status, trace_cfg(s))
