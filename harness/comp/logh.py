"""aiomisc.log.ThreadedHandler under a deterministic thread scheduler."""
import random

SPEC = "LogHandler"
PROPS = ("L01", "T01")
ENF = '{"L01", "T01"}'
N_QUICK = 1500
N_THOROUGH = 12000
SCRIPT_LIMIT = 40


def design(tier):
    q = tier == "quick"
    return [dict(module="MCLogHandler", spec="MCSpec", invariants=["Obligations", "OneAtATime", "NothingLost"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", Depth=5, Sizes="{0, 1, 2}", NRecs=4 if q else 5, NClose=1 if q else 2,
                                MaxT=2000 if q else 3000, Buffered="<- Both"))]


def generated(tier):
    return [dict(module="MCLogHandler", num=200 if tier == "quick" else 1500, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", Sizes="{0, 1, 2, 3}", NRecs=9, NClose=2,
                                                       MaxT=20000, Depth=30, Buffered="<- Both"))]


def trace_cfg(s):
    return {"m": s["m"], "b": s["b"]}


def _common(rng):
    return dict(seed=rng.randrange(1 << 30), p=rng.choice([0, 0.02, 0.1, 0.3, 0.6]), fi=rng.choice([10, 100, 200]))


def from_generated(g, rng):
    ops = []
    for i, o in enumerate(g["ops"]):
        o = dict(o)
        if o["e"] == "emit":
            o.update(th=rng.randrange(3), k="ok")
        elif o["e"] == "tbusy":
            # which record is seen by the thread is not known
            continue
        elif o["e"] == "tend":
            o.update(k=rng.choice(["ok", "ok", "raise"]))
        elif o["e"] == "close":
            o.update(how=rng.randrange(3))
        elif o["e"] == "adv":
            o = dict(e="adv", t=1000)
        if rng.random() < 0.4:
            o["b"] = 1
        ops.append(o)
    return dict(_common(rng), m=g["cfg"]["m"], b=g["cfg"]["b"], gates=rng.choice([0, 0.3, 1]), ops=ops)


def random_script(rng, tier):
    ops = []
    r = c = 0
    burst = rng.choice([0, 0.3, 0.8])
    wc = rng.choice([0, 0.3, 1])
    for _ in range(rng.randrange(3, 40)):
        k = rng.choices(["emit", "tend", "close", "flush", "adv"], [8, 3, wc, 0.5, 1.5])[0]
        o = dict(e=k)
        if k == "emit":
            r += 1
            o.update(r=r, th=rng.choice([0, 1, 2]))
        elif k == "tend":
            o.update(k=rng.choice(["ok", "ok", "raise"]))
        elif k == "close":
            c += 1
            o.update(c=c, how=rng.randrange(3))
        elif k == "adv":
            o.update(t=rng.choice([1, 10, 100, 500, 1000, 2000]))
        if rng.random() < burst:
            o["b"] = 1
        ops.append(o)
    return dict(_common(rng), m=rng.choice([0, 0, 1, 1, 2, 3]), b=rng.random() < 0.5, gates=rng.choice([0, 0, 0.1, 0.3, 1]), ops=ops)


class Boom(Exception):
    pass


def run_script(s):
    from harness import threads
    threads.install()
    import logging
    import threading

    from aiomisc import get_statistics
    from aiomisc.log import ThreadedHandler, ThreadedHandlerStatistic
    logging.raiseExceptions = False
    rng = random.Random(s["seed"])

    class Target(logging.Handler):
        def __init__(self, run):
            super().__init__()
            self.run = run

        def emit(self, record):
            run, r = self.run, record.msg
            me = threading.get_ident()
            run.rec("deliver", r=r, t=me not in run.emitters)
            k = "ok"
            if rng.random() < s["gates"]:
                run.rec("tbusy", r=r)
                k = run.gate("t")
            run.rec("tend", r=r)
            if k == "raise":
                raise Boom

    class R(threads.Run):
        ANY = ("tend", "emit", "close")

        def setup(self):
            self.emitters = set()
            self.cmds = [[], [], [], []]
            n = len(self.sched.threads)
            self.keep = [threading.Thread(target=self.client, args=(i,), daemon=True) for i in range(4)]
            for t in self.keep:
                t.start()
            self.helpers = set(self.sched.threads[n:])
            self.target = Target(self)
            self.base = self.threads_metric()
            n = len(self.sched.threads)
            self.handler = ThreadedHandler(self.target, flush_interval=s["fi"] / 1000, buffered=s["b"], queue_size=s["m"])
            self.handler.start()
            self.thread = self.sched.threads[n]
            self.main_end = self.loop.create_future()

        def threads_metric(self):
            return sum(m.value for m in get_statistics(ThreadedHandlerStatistic) if m.metric == "threads")

        def idle_fields(self):
            n = len([t for t in self.sched.threads[1:] if not t.done and t not in self.helpers])
            return {"n": n, "st": self.threads_metric() - self.base}

        def emit(self, r):
            me = threading.get_ident()
            self.emitters.add(me)
            record = logging.LogRecord("x", logging.INFO, "f.py", 1, r, (), None)
            self.rec("emit", r=r)
            try:
                self.handler.handle(record)
            except threads.Kill:
                raise
            except BaseException:
                self.rec("emit_raised", r=r)
                return
            finally:
                self.emitters.discard(me)
            self.rec("emitted", r=r)

        def close(self, c, how):
            self.rec("close", c=c)
            try:
                if how == 1:
                    # as logging.shutdown()
                    h = self.handler
                    h.acquire()
                    try:
                        h.flush()
                        h.close()
                    finally:
                        h.release()
                else:
                    self.handler.close()
            except threads.Kill:
                raise
            except BaseException:
                self.rec("close_raised", c=c)
                return
            self.rec("closedone", c=c)

        def client(self, i):
            cmds = self.cmds[i]
            while True:
                cmd = cmds.pop(0) if cmds else self.gate(("c", i))
                if cmd["e"] == "emit":
                    self.emit(cmd["r"])
                else:
                    self.close(cmd["c"], cmd["how"])

        def tell(self, i, op):
            if not self.open(("c", i), op):
                self.cmds[i].append(op)
            self.rec._dirty = True
            return True

        def perform(self, op):
            k = op["e"]
            free = self.driving
            if k == "emit":
                if op["th"] or not free:
                    return self.tell(op["th"], op)
                self.emit(op["r"])
            elif k == "close":
                if op["how"] == 2 or not free:
                    return self.tell(3, op)
                self.close(op["c"], op["how"])
            elif k == "flush":
                self.rec("flush")
                self.handler.flush()
            elif k == "tend":
                if self.open("t", op["k"]):
                    self.rec._dirty = True
                    return True
            elif k == "end":
                if not self.main_end.done():
                    self.main_end.set_result(None)

        driving = True

        def on_idle(self):
            # not in the loop's thread
            self.driving = False
            try:
                return super().on_idle()
            finally:
                self.driving = True

    r = R(s)
    n = len([o for o in s["ops"] if o["e"] == "emit"])
    r.ops += [dict(e="adv", t=2000), dict(e="close", c=1000, how=2)] + [dict(e="tend", k="ok") for _ in range(n)]
    r.ops += [dict(e="adv", t=2000), dict(e="adv", t=8000), dict(e="end")]

    async def main():
        r.setup()
        await r.main_end

    return r.execute(main, trace_cfg(s))
