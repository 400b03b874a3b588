"""aiomisc.threaded_iterable and friends under a deterministic thread scheduler."""
import asyncio
import random

SPEC = "Channel"
PROPS = ("I01", "I02", "T01")
ENF = '{"I01", "I02", "T01"}'
N_QUICK = 1500
N_THOROUGH = 10000
SCRIPT_LIMIT = 40


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ENF, Diagnose="FALSE", Depth=5)
    inv = ["Obligations", "InOrder", "Bounded", "ErrLast"]
    return [dict(module="MCChannel", spec="MCSpec", invariants=inv, timeout=900,
                 constants=dict(c, Sizes="{0, 1, 2}", NItems=3 if q else 5, NNexts=4 if q else 6, NCloses=1 if q else 2,
                                MaxT=4000 if q else 8000, Gens="<- Both"))]


def generated(tier):
    return [dict(module="MCChannel", num=150 if tier == "quick" else 1000, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", Sizes="{0, 1, 2, 3}", NItems=8, NNexts=9,
                                                       NCloses=2, MaxT=20000, Gens="<- Both", Depth=30))]


def trace_cfg(s):
    return {"m": s["m"], "gen": s["gen"], "stat": s["mode"] == "direct"}


def _common(rng):
    return dict(seed=rng.randrange(1 << 30), p=rng.choice([0, 0.02, 0.1, 0.3, 0.6]), mode=rng.choice(["pool", "separate", "plain", "direct"]))


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        if o["e"] == "gyield":
            o = dict(e="item", k="ok")
        elif o["e"] == "gfin":
            o = dict(e="item", k=o["k"])
        elif o["e"] == "adv":
            o = dict(e="adv", t=2000)
        elif o["e"] in ("gwait", "ggo"):
            continue
        else:
            o = dict(o)
        if rng.random() < 0.4:
            o["b"] = 1
        ops.append(o)
    return dict(_common(rng), m=g["cfg"]["m"], gen=g["cfg"]["gen"], auto=0, fin="end", ops=ops)


def random_script(rng, tier):
    auto = rng.choice([0, 0, 1, 3, 10])
    w = dict(next=6, item=0 if auto > 8 else 5, close=rng.choice([0, 0.2, 0.6]), drop=rng.choice([0, 0, 0.2, 0.6]),
             adv=rng.choice([0.5, 2]))
    kinds, weights = zip(*w.items())
    burst = rng.choice([0, 0.3, 0.7])
    ops = []
    if rng.random() < 0.95:
        ops.append(dict(e="iter"))
    c = 0
    for _ in range(rng.randrange(4, 40)):
        k = rng.choices(kinds, weights)[0]
        o = dict(e=k)
        if k == "next":
            c += 1
            o.update(c=c)
        elif k == "item":
            o.update(k=rng.choices(["ok", "end", "raise"], [12, 1, 1])[0])
        elif k == "close":
            c += 1
            o.update(w=c)
        elif k == "adv":
            o.update(t=rng.choice([1, 10, 100, 2000, 3000]))
        if rng.random() < burst:
            o["b"] = 1
        ops.append(o)
    if rng.random() < 0.1:
        ops.insert(0, dict(e="close", w=c + 1))
    return dict(_common(rng), m=rng.choice([0, 1, 1, 2, 3, 5]), gen=rng.random() < 0.8, auto=auto,
                fin=rng.choice(["end", "end", "raise"]), ops=ops)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def run_script(s):
    from harness import threads
    threads.install()
    import threading

    import aiomisc
    from aiomisc.iterator_wrapper import IteratorWrapper, IteratorWrapperStatistic
    from aiomisc.thread_pool import ThreadPoolExecutor
    rng = random.Random(s["seed"])
    boom = (BaseBoom if rng.random() < 0.3 else Boom)("generator")

    class Pool(ThreadPoolExecutor):
        def submit(self, fn, *a, **kw):
            def job(*a, **kw):
                r.producing += 1
                try:
                    return fn(*a, **kw)
                finally:
                    r.producing -= 1
            return super().submit(job, *a, **kw)

    class R(threads.Run):
        ANY = ("item",)

        def setup(self):
            self.loop_thread = threading.get_ident()
            self.pool = Pool(1)
            self.loop.set_default_executor(self.pool)
            self.idle_threads = len(self.sched.threads)
            self.items = [[("item", i), ValueError(i), BaseBoom(i), None if i == 3 else [], StopIteration(i)][i % 5 if s["seed"] % 2 else 0]
                          for i in range(1000)]
            self.name = "it%d" % s["seed"]
            if s["mode"] == "direct":
                self.it = IteratorWrapper(self.genfunc(), max_size=s["m"], executor=self.pool, statistic_name=self.name)
            elif s["mode"] == "separate":
                self.it = aiomisc.threaded_iterable_separate(max_size=s["m"])(self.genfunc())()
            elif s["mode"] == "plain" and s["m"] == 0:
                self.it = aiomisc.threaded_iterable(self.genfunc())()
            else:
                self.it = aiomisc.threaded_iterable(max_size=s["m"])(self.genfunc())()
            self.proxy = None
            self.tasks = []
            self.wait = False
            self.fed = []
            self.asked = self.stopped = False
            self.main_end = self.loop.create_future()

        def idle_fields(self):
            if s["mode"] == "separate":
                n = len([t for t in self.sched.threads[self.idle_threads:] if not t.done])
            else:
                n = self.producing
            import sys
            trace = sys.gettrace()
            sys.settrace(None)
            try:
                return {"n": n, "s": {x.metric: x.value for x in aiomisc.get_statistics(IteratorWrapperStatistic) if x.name == self.name}}
            finally:
                sys.settrace(trace)

        def genfunc(self):
            run = self
            rec = self.rec
            left = [s["auto"]]

            def ask():
                if left[0] > 0:
                    left[0] -= 1
                    return "ok"
                if s["auto"]:
                    return s["fin"]
                if run.fed:
                    return run.fed.pop(0)
                rec("gwait")
                k = run.gate("g")
                rec("ggo")
                return k

            def here():
                return threading.get_ident() != run.loop_thread

            if s["gen"]:
                def gen():
                    rec("gstart", t=here())
                    k = "closed"
                    try:
                        i = 0
                        while True:
                            x = ask()
                            if x != "ok":
                                k = x
                                if x == "raise":
                                    raise boom
                                return
                            i += 1
                            rec("gyield", i=i)
                            yield run.items[i]
                            rec("gres", i=i)
                    finally:
                        rec("gfin", k=k, t=here())
                return gen

            class Iterator:
                def __init__(self):
                    self.i = 0

                def __iter__(self):
                    return self

                def __next__(self):
                    if self.i:
                        rec("gres", i=self.i)
                    else:
                        rec("gstart", t=here())
                    x = ask()
                    if x != "ok":
                        rec("gfin", k=x, t=here())
                        if x == "raise":
                            raise boom
                        raise StopIteration
                    self.i += 1
                    rec("gyield", i=self.i)
                    return run.items[self.i]

            return Iterator

        async def next(self, c):
            try:
                # does not keep the proxy alive
                v = await (self.it if self.proxy is None else self.proxy).__anext__()
                self.rec("got", c=c, i=next((i for i, x in enumerate(self.items) if x is v), -1))
            except StopAsyncIteration:
                self.rec("stopped", c=c)
            except (Boom, BaseBoom) as e:
                self.rec("raised", c=c, ok=e is boom)

        async def close(self, w):
            await self.it.close()
            self.rec("closedone", w=w)

        async def aexit(self, w):
            closed = self.it.closed
            await self.it.__aexit__(None, None, None)
            if closed:
                # nothing is promised when it was closed already
                await self.it.wait_closed()
            self.rec("closedone", w=w)

        def perform(self, op):
            k = op["e"]
            if k == "iter":
                if self.proxy is None and not self.asked:
                    self.asked = True
                    self.rec("iter")
                    self.proxy = self.it.__aiter__()
            elif k == "next":
                if self.asked:
                    self.rec("next", c=op["c"])
                    self.tasks.append(self.loop.create_task(self.next(op["c"])))
            elif k == "item":
                if self.finished_gen():
                    return
                if not self.open("g", op["k"]):
                    if s["auto"]:
                        return
                    self.fed.append(op["k"])
                return True
            elif k == "close":
                self.rec("close", w=op["w"])
                self.tasks.append(self.loop.create_task((self.close if rng.random() < 0.6 else self.aexit)(op["w"])))
            elif k == "drop":
                if self.proxy is not None and not self.stopped:
                    self.stopped = True
                    self.rec("drop")
                    self.proxy = None
            elif k == "end":
                if not self.main_end.done():
                    self.main_end.set_result(None)

        def finished_gen(self):
            return any(e["e"] == "gfin" for e in self.rec.ev[-60:])

    r = R(s)
    r.producing = 0
    last = max([o.get("w", 0) for o in s["ops"]] + [o.get("c", 0) for o in s["ops"]] + [0])
    r.ops += [dict(e="adv", t=3000), dict(e="close", w=last + 1), dict(e="adv", t=3000)]
    r.ops += [dict(e="item", k="ok"), dict(e="item", k="ok"), dict(e="adv", t=3000), dict(e="item", k="end"),
              dict(e="adv", t=3000), dict(e="end")]

    async def main():
        r.setup()
        await r.main_end

    import weakref
    try:
        return r.execute(main, trace_cfg(s))
    finally:
        weakref.finalize._registry.clear()
