"""RecurringCallback, PeriodicCallback/Service, CronCallback/Service on the virtual loop
with a fake wall clock."""
import asyncio
import datetime
import random
import time

from croniter import croniter as _croniter     # noqa: F401  (before patching datetime)

_clock = [None]
_real_datetime = datetime.datetime
_real_time = time.time
BASE = int(_real_datetime(2023, 3, 8, tzinfo=datetime.timezone.utc).timestamp())    # a Wednesday


def fake_time():
    loop = _clock[0]
    return _real_time() if loop is None else BASE + loop.time()


class FakeDatetime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(fake_time(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.utcfromtimestamp(fake_time())


datetime.datetime = FakeDatetime
time.time = fake_time

from harness.vloop import Recorder, run_virtual    # noqa: E402

SPEC = "Recurring"
PROPS = ("R01", "R02", "T01")
ALL = '{"R01","R02","T01"}'
N_QUICK = 1200
N_THOROUGH = 6000
ENV = {"TZ": "America/New_York"}


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ALL, Diagnose="FALSE", NRuns=2, MaxTime=2000 if q else 4000, MaxCalls=2 if q else 4,
             Unit=1000 if q else 500, Modes='{"recurring","periodic","service","cron","cronservice"}',
             Intervals="{1,2}", Delays="{0,1}", Depth=10)
    return [dict(module="MCRecurring", spec="MCSpec", constants=c, properties=["NoCallAfterStop"],
                 invariants=["OneActive", "Counted", "Obligations"])]


def generated(tier):
    d = 30
    return [dict(module="MCRecurring", num=300 if tier == "quick" else 3000, depth=d,
                 init="Init0", next_="GenNext", constraint="GenPrint",
                 constants=dict(Enforce=ALL, Diagnose="FALSE", NRuns=4, MaxTime=10 ** 6, MaxCalls=99,
                                Unit=500, Modes='{"recurring","periodic","service","cron","cronservice"}',
                                Intervals="{1,3}", Delays="{0,1,4}", Depth=d))]


def relevant(s, pid):
    return (pid == "R01") != ("cron" in s["mode"]) if pid in ("R01", "R02") else True


def from_generated(g, rng):
    c = g["cfg"]
    t, ops, ans = 0, [], {}
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "adv":
            o["dt"] = o["t"] - t
            t = o["t"]
        if o["e"] == "answer":
            ans.setdefault(str(o["i"]), []).append([o["k"], o["d"], 0])
            continue
        ops.append(o)
    c = dict(c, shield=c["shield"] and c["mode"] != "service")
    return dict(c, answers=ans, auto=0.0, burst=rng.choice([0.0, 0.5]), sync=False, seed=rng.randrange(1 << 30),
                t0=0, ops=ops)


def fields(rng):
    """cron fields as (text, sequence)"""
    def pick(lo, hi, n, star):
        r = rng.random()
        if r < star:
            return "*", list(range(lo, hi + 1))
        if r < star + 0.2:
            st = rng.choice([2, 5, 15, 20, 30] if hi > 30 else [2, 3, 6])
            return "*/%d" % st, list(range(lo, hi + 1, st))
        if r < star + 0.4:
            a = rng.randrange(lo, hi)
            b = rng.randrange(a, min(hi, a + 20) + 1)
            return "%d-%d" % (a, b), list(range(a, b + 1))
        v = sorted(rng.sample(range(lo, hi + 1), n))
        return ",".join(map(str, v)), v
    six = rng.random() < 0.6
    sec = pick(0, 59, rng.choice([1, 2, 4]), 0.1) if six else (None, [0])
    mi = pick(0, 59, rng.choice([1, 2, 4]), 0.6 if six else 0.4)
    h = pick(0, 23, 2, 0.8)
    dw = ("*", list(range(7))) if rng.random() < 0.8 else pick(0, 6, 3, 0)
    text = " ".join([mi[0], h[0], "*", "*", dw[0]] + ([sec[0]] if six else []))
    return text, dict(sec=sec[1], min=mi[1], hour=h[1], dow=dw[1])


def random_script(rng, tier):
    mode = rng.choice(["recurring", "recurring", "periodic", "periodic", "service", "cron", "cron", "cronservice"])
    cron = "cron" in mode
    ops, i = [], 0
    unit = 125
    dts = [125, 250, 500, 1000, 125, 375]
    text = ""
    f = dict(sec=[0], min=[0], hour=[0], dow=[0])
    if cron:
        text, f = fields(rng)
        if len(f["sec"]) > 1:
            dts = [1000, 3000, 10000, 500] + ([60000] if len(f["sec"]) < 10 else [])
        else:
            dts = [60000, 30000, 90000, 1000, 3600000, 59000]
        if len(f["hour"]) < 5:
            dts += [3600000] * 4
        if len(f["dow"]) < 7:
            dts += [86400000]
    w = dict(start=3, stop=rng.choice([0.5, 2]), end=5, adv=rng.choice([4, 8]))
    kinds, weights = zip(*w.items())
    ops.append({"e": "start", "i": 1})
    i = 1
    total = 0
    for _ in range(rng.randrange(6, 40)):
        k = rng.choices(kinds, weights)[0]
        if k == "start":
            if i < 5:
                i += 1
                ops.append({"e": "start", "i": i})
        elif k == "stop":
            ops.append({"e": "stop", "i": rng.randrange(1, i + 1), "wait": rng.random() < 0.4})
        elif k == "end":
            ops.append({"e": "end", "i": rng.randrange(1, i + 1), "k": rng.choice(["ok", "ok", "raise", "selfcancel"])})
        else:
            dt = rng.choice(dts)
            total += dt
            if total > 12 * 86400000:
                break
            ops.append({"e": "adv", "dt": dt})
    ans = {}
    for j in range(1, i + 1):
        ans[str(j)] = [[rng.choice(["delay"] * 6 + ["skip"] * 2 + ["negative"] + (["stop", "bad"] if rng.random() < 0.15 else [])),
                        rng.choice([0, 125, 125, 250, 1000]), rng.choice([0, 0, 0, 1, 125])] for _ in range(rng.randrange(1, 14))]
    return dict(mode=mode, text=text, delay=rng.choice([0, 0, 125, 500, 1000]), interval=rng.choice([125, 250, 500, 1000]),
                shield=rng.random() < 0.3 and mode != "service", dow0=3, answers=ans, auto=rng.choice([0.0, 0.6, 0.9, 1.0]),
                burst=rng.choice([0.0, 0.3, 0.8]), sync=rng.random() < 0.15, suppress=rng.random() < 0.3,
                seed=rng.randrange(1 << 30), t0=rng.choice([0, 125, 1000, 43199875, 86399000, 3599000]) if cron else 0, ops=ops, **f)


def trace_cfg(s):
    return {k: s[k] for k in ("mode", "delay", "interval", "shield", "sec", "min", "hour", "dow", "dow0")}


_n = [0]


def run_script(s):
    import aiomisc
    from aiomisc.recurring import RecurringCallbackStatistic, StrategySkip, StrategyStop
    from aiomisc.cron import CronCallback
    from aiomisc.service.cron import CronService
    from aiomisc.service.periodic import PeriodicService
    rng = random.Random(s["seed"])
    rec = Recorder()
    _n[0] += 1
    name = "rc%d" % _n[0]
    mode = s["mode"]
    gates, stops = {}, []
    started = set()
    answers = {k: list(v) for k, v in s["answers"].items()}
    if "text" not in s:
        s = dict(s, text="0,1 0 * * 1 0,2", dow0=1)
    # dow0: weekday (cron numbering, Sunday = 0) of day 0
    base_day = {1: -2, 3: 0}[s["dow0"]]
    current = [None]
    _cv = __import__("contextvars").ContextVar("run")

    class Boom(Exception):
        pass

    async def cb(*a, **kw):
        i = _cv.get(0)
        rec("run", i=i, same=(mode in ("service", "cron", "cronservice") or (a == ("p",) and kw == {"q": 1})))
        fut = asyncio.get_running_loop().create_future()
        gates[i] = fut
        try:
            if rng.random() < s["auto"]:
                d = rng.choice([None, 0, 0.125, 0.125, 0.25, 0.5, 1, 2] if "cron" not in mode else
                               [None, None, 0, 0.125, 0.5, 1, 3, 59.875, 60, 61])
                if d is not None:
                    await asyncio.sleep(d)
                k = rng.choice(["ok", "ok", "raise", "selfcancel"])
            else:
                k = await fut
        except asyncio.CancelledError:
            rec("cancelled", i=i)
            c = rng.choice([None, None, 0, 0.125, 1])
            if c is not None:
                try:
                    await asyncio.sleep(c)
                except asyncio.CancelledError:
                    rec("cancelled_again")
            rec("end", i=i, k="cleanup")
            raise
        finally:
            if gates.get(i) is fut:
                del gates[i]
        return finish(i, k)

    def finish(i, k):
        rec("end", i=i, k=k)
        if k == "raise":
            raise Boom()
        if k == "selfcancel":
            raise asyncio.CancelledError()

    def scb(*a, **kw):
        i = _cv.get(0)
        rec("run", i=i, same=(mode in ("service", "cron", "cronservice") or (a == ("p",) and kw == {"q": 1})))
        finish(i, rng.choice(["ok", "raise"]))

    func = scb if s["sync"] and mode != "cronservice" else cb
    supp = (Boom,) if s.get("suppress") else ()

    def strategy_for(i):
        seq = answers.get(str(i), [])

        def pre():
            rec("strat", i=i)
            return seq.pop(0) if seq else ["delay", 10 ** 6, 0]

        def post(k, d):
            if k == "negative":
                rec("answer", i=i, k="delay", d=-5)
                return -0.005
            rec("answer", i=i, k=k, d=d)
            if k == "delay":
                return d / 1000
            if k == "skip":
                raise StrategySkip(d / 1000)
            if k == "stop":
                raise StrategyStop()
            if k == "bad":
                return rng.choice([None, "1", [0]])
            raise KeyError("strategy")

        if rng.random() < 0.4:
            def f(r):
                k, d, w = pre()
                return post(k, d)
        else:
            async def f(r):
                k, d, w = pre()
                if w:
                    await asyncio.sleep(0 if w == 1 else w / 1000)
                return post(k, d)
        return f

    async def main(loop):
        loop._vnow = s["t0"] / 1000
        rec("adv", t=s["t0"])
        loop_clock.loop = loop
        extra = {} if mode in ("cronservice", "service") else dict(p=("p",), q=1)
        active = {}            # run -> task (recurring) or True
        last_run = [0]
        if mode == "recurring":
            obj = aiomisc.RecurringCallback(func, "p", q=1, name=name)
        elif mode == "periodic":
            obj = aiomisc.PeriodicCallback(func, "p", q=1, name=name)
        elif mode == "cron":
            obj = CronCallback(func, name=name)
        elif mode == "service":
            class S(PeriodicService):
                async def callback(self):
                    r = func()
                    if asyncio.iscoroutine(r):
                        await r
            obj = S(interval=s["interval"] / 1000, delay=s["delay"] / 1000, name=name)
        else:
            obj = CronService()
            obj.register(func, s["text"], shield=s["shield"], suppress_exceptions=supp)
            stat_of[0] = next(iter(obj._callbacks_storage)).callback._recurring_cb.name
        if mode in ("service", "cronservice"):
            obj.loop = loop

        async def waiter(i, f):
            try:
                await f
            except asyncio.CancelledError:
                rec("stopped", i=i, k="cancelled")
            except RuntimeError:
                rec("stopped", i=i, k="notstarted")
            except Exception as e:
                rec("stopped", i=i, k=type(e).__name__)
            else:
                rec("stopped", i=i, k="ok")

        for op in s["ops"]:
            k = op["e"]
            if k == "start":
                i = op["i"]
                if i in started:
                    continue
                _cv.set(i)
                r = True
                pos = len(rec.ev)
                try:
                    if mode == "recurring":
                        active[i] = obj.start(strategy_for(i), loop, shield=s["shield"], suppress_exceptions=supp)
                    elif mode == "periodic":
                        obj.start(s["interval"] / 1000, loop, delay=s["delay"] / 1000, shield=s["shield"],
                                  suppress_exceptions=supp)
                    elif mode == "cron":
                        obj.start(s["text"], loop, shield=s["shield"], suppress_exceptions=supp)
                    else:
                        await obj.start()
                except asyncio.InvalidStateError:
                    r = False
                else:
                    last_run[0] = i
                if r:
                    started.add(i)
                rec.ev.insert(pos, dict(e="start", i=i, r=r))
                rec._dirty = True
                if not r:
                    gates.pop(i, None)
            elif k == "stop":
                if mode == "recurring":
                    i = op["i"]
                    t = active.pop(i, None)
                    if t is None or t.done():
                        continue
                    rec("stop", i=i)
                    t.cancel()
                    f = t
                else:
                    i = last_run[0]
                    if i == 0 and mode == "cron":
                        pass
                    if mode in ("cron", "cronservice"):
                        last = i
                        last_run[0] = 0 if False else i
                        if i in stopped_runs:
                            continue
                        stopped_runs.add(i)
                    else:
                        last_run[0] = 0
                    rec("stop", i=i)
                    f = obj.stop()
                w = loop.create_task(waiter(i, f))
                stops.append(w)
                if mode in ("service", "cronservice"):
                    await asyncio.sleep(0)
                if op.get("wait"):
                    await loop.settle()
            elif k == "end":
                g = gates.get(op["i"])
                if g is None or g.done() or op["k"] == "cleanup":
                    continue
                g.set_result(op["k"])
            elif k == "adv":
                await loop.settle()
                await asyncio.sleep(op["dt"] / 1000)
            if rng.random() >= s["burst"]:
                await loop.settle()
        await loop.settle()
        i = last_run[0]
        for f in list(gates.values()):
            if not f.done():
                f.set_result("ok")
        await loop.settle()
        if mode == "recurring":
            for i, t in active.items():
                if not t.done():
                    rec("stop", i=i)
                    t.cancel()
                    stops.append(loop.create_task(waiter(i, t)))
        elif i not in stopped_runs and i:
            rec("stop", i=i)
            stops.append(loop.create_task(waiter(i, obj.stop())))
        await loop.settle()
        await asyncio.sleep(3)
        await loop.settle()
        for _ in range(20):
            if not gates and all(t.done() for t in stops):
                break
            for f in list(gates.values()):
                if not f.done():
                    f.set_result("ok")
            await asyncio.sleep(61)
        if any(not t.done() for t in stops):
            rec("stop_never_ends")

    stopped_runs = {0}
    if mode not in ("cron", "cronservice"):
        stopped_runs = set()
    stat_of = [name]

    def idle_fields():
        r = {"call_count": 0, "done": 0, "fail": 0, "sum_time": 0}
        for x in aiomisc.get_statistics(RecurringCallbackStatistic):
            if x.name == stat_of[0]:
                r[x.metric] = int(round(x.value * 1000)) if x.metric == "sum_time" else x.value
        return {"s": r}

    class loop_clock:
        loop = None

    from harness.vloop import VirtualLoop
    loop = VirtualLoop()
    off = {1: -2 * 86400, 3: 0}[s["dow0"]]

    class Shifted:
        def time(self):
            return loop.time() + off
    _clock[0] = Shifted()
    try:
        st = run_virtual(main, rec, idle_fields=idle_fields, loop=loop)
    finally:
        _clock[0] = None
    return rec.finish(st, trace_cfg(s))
