"""aiomisc.ThreadPoolExecutor under a deterministic thread scheduler."""
import asyncio
import random

SPEC = "ThreadPool"
PROPS = ("H01", "H02", "T01")
ENF = '{"H01", "H02", "T01"}'
N_QUICK = 1500
N_THOROUGH = 10000
SCRIPT_LIMIT = 40


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ENF, Diagnose="FALSE", Depth=5)
    inv = ["Obligations", "WithinSize", "OwnOutcome", "CancelledNeverStarts", "EachEndsOnce"]
    return [dict(module="MCThreadPool", spec="MCSpec", invariants=inv, timeout=900,
                 constants=dict(c, Sizes="{1, 2}", NJobs=2 if q else 3, Loops="{1, 2}", MaxT=10100)),
            dict(module="MCThreadPool", spec="MCSpec", invariants=inv, timeout=900,
                 constants=dict(c, Sizes="{2}" if q else "{1, 2, 3}", NJobs=3 if q else 4, Loops="{1}", MaxT=0))]


def generated(tier):
    return [dict(module="MCThreadPool", num=150 if tier == "quick" else 1000, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", Sizes="{1, 2, 3, 4, 5}", NJobs=9,
                                                       Loops="{1, 2}", MaxT=20000, Depth=30))]


def trace_cfg(s):
    return {"max": s["max"], "stat": True}


def _common(rng):
    return dict(seed=rng.randrange(1 << 30), p=rng.choice([0, 0.02, 0.1, 0.3, 0.6]), via=rng.choice([0, 0.5, 1]))


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "jend":
            o["x"] = rng.randrange(6)
        if o["e"] == "adv":
            o["t"] = 5000
        if rng.random() < 0.4:
            o["b"] = 1
        ops.append(o)
    return dict(_common(rng), max=g["cfg"]["max"], ops=ops)


def random_script(rng, tier):
    ops, n = [], 0
    w = dict(submit=6, jend=rng.choice([3, 6]), cancel=rng.choice([0, 2, 4]), lclose=rng.choice([0, 0, 0.7]),
             shutdown=rng.choice([0, 0.3, 0.6]), adv=0.5)
    kinds, weights = zip(*w.items())
    burst = rng.choice([0, 0.3, 0.7])
    two = w["lclose"] > 0
    for _ in range(rng.randrange(4, 45)):
        k = rng.choices(kinds, weights)[0]
        o = dict(e=k)
        if k == "submit":
            n += 1
            o.update(j=n, l=rng.choice([1, 1, 2]) if two else 1)
        elif k == "jend":
            o.update(j=rng.randrange(1, n + 2), k=rng.choice(["ok", "ok", "exc"]), x=rng.randrange(7), any=rng.random() < 0.6)
        elif k == "cancel":
            o.update(j=max(1, n - rng.choice([0, 0, 1, 2, 5])))
        elif k == "lclose":
            o.update(l=2)
        elif k == "shutdown":
            o.update(w=rng.random() < 0.6, loop=rng.random() < 0.4)
        else:
            o.update(t=rng.choice([10, 1000, 11000]))
        if rng.random() < burst:
            o["b"] = 1
        ops.append(o)
    return dict(_common(rng), max=rng.choice([1, 2, 3, 3, 4, 5, 8]), ops=ops)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class EmptyBoom(Exception):
    """An exception which is false."""

    def __len__(self):
        return 0


def run_script(s):
    from harness import threads
    threads.install()
    import threading

    import aiomisc
    from aiomisc.thread_pool import ThreadPoolException, ThreadPoolExecutor, ThreadPoolStatistic
    rng = random.Random(s["seed"])

    class R(threads.Run):
        ANY = ("jend",)

        def setup(self):
            self.before = set(id(t) for t in self.sched.threads)
            name = self.name = "tp%d" % s["seed"]
            self.pool = ThreadPoolExecutor(s["max"], statistic_name=name)
            self.loop_thread = threading.get_ident()
            self.loop2 = asyncio.SelectorEventLoop()
            self.closed2 = False
            self.futs = {}
            self.excs = {}
            self.running = {}
            self.down = False
            self.clients = set()
            self.main_end = self.loop.create_future()

        def live(self):
            return len([t for t in self.sched.threads[1:] if not t.done and t not in self.clients])

        def idle_fields(self):
            import sys
            trace = sys.gettrace()
            sys.settrace(None)
            try:
                d = {x.metric: x.value for x in aiomisc.get_statistics(ThreadPoolStatistic) if x.name == self.name}
            finally:
                sys.settrace(trace)
            d["sum_time"] = int(round(d.get("sum_time", -1) * 1000))
            return {"n": self.live(), "s": d}

        def job(self, j):
            self.rec("jbegin", j=j, t=threading.get_ident() != self.loop_thread)
            self.running[j] = 1
            op = self.gate(("j", j))
            self.running.pop(j)
            k = op["k"]
            self.rec("jend", j=j, k=k)
            if k == "ok":
                v = self.excs[j] = [None, ("v", j), 0, j, (), ("w", j), False][op["x"]]
                return v
            e = self.excs[j] = [Boom(j), BaseBoom(j), EmptyBoom(j), ValueError(j), KeyError(j), asyncio.TimeoutError(j),
                                   StopIteration(j)][op["x"]]
            raise e

        def on_done(self, j):
            def cb(f):
                t = threading.get_ident() == self.loop_thread
                if f.cancelled():
                    k = "cancelled"
                elif f.exception() is not None:
                    e = f.exception()
                    k = "exc" if e is self.excs.get(j) or (isinstance(self.excs.get(j), StopIteration) and isinstance(e, RuntimeError)) \
                        else "closed" if isinstance(e, ThreadPoolException) else "wrong_exception"
                else:
                    k = "ok" if f.result() is self.excs.get(j) else "wrong_result"
                self.rec("res", j=j, k=k, t=t)
            return cb

        def perform(self, op):
            k = op["e"]
            if k == "submit":
                j, l = op["j"], op["l"]
                if l == 2 and self.closed2:
                    return
                self.rec("submit", j=j, l=l)
                try:
                    if l == 2:
                        asyncio._set_running_loop(self.loop2)
                        try:
                            f = self.pool.submit(self.job, j)
                        finally:
                            asyncio._set_running_loop(self.loop)
                    elif rng.random() < s["via"]:
                        f = self.loop.run_in_executor(self.pool, self.job, j)
                    else:
                        f = self.pool.submit(self.job, j)
                except RuntimeError:
                    self.rec("refused", j=j)
                    return
                self.rec("accepted", j=j)
                self.futs[j] = f
                if l == 1:
                    f.add_done_callback(self.on_done(j))
            elif k == "jend":
                j = op["j"]
                if j not in self.running:
                    if not self.running or not op.get("any"):
                        return
                    j = min(self.running)
                self.open(("j", j), op)
                # the thread goes on
                self.rec._dirty = True
                return True
            elif k == "cancel":
                f = self.futs.get(op["j"])
                if f is not None and f.get_loop() is self.loop and not f.done():
                    self.rec("cancel", j=op["j"])
                    f.cancel()
            elif k == "lclose":
                if not self.closed2:
                    self.closed2 = True
                    self.rec("lclose", l=2)
                    self.loop2.close()
            elif k == "shutdown":
                if self.down:
                    return
                self.down = True
                self.rec("shutdown", w=op["w"], loop=op["loop"])
                if op["loop"]:
                    self.shutdown(op["w"])
                else:
                    t = threading.Thread(target=self.shutdown, args=(op["w"],), daemon=True)
                    n = len(self.sched.threads)
                    t.start()
                    self.clients.add(self.sched.by_thread[id(t)])
                    self.keep = t
            elif k == "end":
                if not self.main_end.done():
                    self.main_end.set_result(None)

        def shutdown(self, w):
            self.pool.shutdown(wait=w)
            self.rec("shutdowned", n=self.live())

    # every job ends and the pool is shut down
    r = R(s)
    n = max([o["j"] for o in s["ops"] if o["e"] == "submit"] + [0])
    down = dict(e="shutdown", w=True, loop=bool(rng.random() < 0.3))
    ends = [dict(e="jend", j=0, any=True, k="ok", x=1) for j in range(n)]
    if rng.random() < 0.5:
        r.ops += [down] + ends
    else:
        r.ops += ends + [down]
    r.ops += [dict(e="adv", t=200), dict(e="adv", t=11000), dict(e="end")]

    async def main():
        r.setup()
        await r.main_end

    t = r.execute(main, trace_cfg(s))
    r.loop2.close()
    return t
