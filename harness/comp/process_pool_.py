"""Process pools: real processes whose jobs wait for the script on pipes."""
import asyncio
import random

SPEC = "ProcessPool"
PROPS = ("Q01", "T01")
ENF = '{"Q01", "T01"}'
N_QUICK = 420
N_THOROUGH = 4000
SCRIPT_LIMIT = 60
KINDS = ["ok", "exc", "unpick", "badarg", "die"]


def tset(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def design(tier):
    q = tier == "quick"
    return [dict(module="MCProcessPool", spec="MCSpec", invariants=["Obligations", "OwnOutcome", "Causes"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", Depth=5, NJobs=3 if q else 4, Kinds=tset(KINDS if q else ["ok", "exc", "badarg", "die"])))]


def generated(tier):
    return [dict(module="MCProcessPool", num=100 if tier == "quick" else 800, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NJobs=7, Depth=30, Kinds=tset(KINDS)))]


def trace_cfg(s):
    return {"n": s["n"]}


def _fix(s):
    """CPython 3.12 deadlocks by itself when a process dies, or the pool is shut down, while an argument of another
    job cannot be pickled."""
    if any(o.get("k") == "die" or o["e"] == "shutdown" for o in s["ops"]):
        for o in s["ops"]:
            if o.get("k") == "badarg":
                o["k"] = "unpick"
    return s


def _common(rng):
    return dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 2, 3]), end=rng.choice(["shutdown", "shutdown", "with", "drop", "nowait"]),
                init=rng.random() < 0.3)


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "submit":
            o["m"] = rng.randrange(3)
        ops.append(o)
        if rng.random() < 0.4:
            ops.append(dict(e="wait"))
    return _fix(dict(_common(rng), ops=ops))


def random_script(rng, tier):
    ops = []
    n = 0
    p = rng.random() < 0.3
    for _ in range(rng.randrange(3, 22)):
        k = rng.choices(["submit", "release", "cancel", "wait", "shutdown", "stats"], [5, 4, 1.5, 3, 0.25, 0.5])[0]
        o = dict(e=k)
        if k == "submit":
            if n >= 9:
                continue
            n += 1
            o.update(j=n, k=rng.choices(KINDS, [8, 4, 1, 1, 1 if p else 0])[0], m=rng.randrange(3))
        elif k in ("release", "cancel"):
            o.update(j=rng.randrange(max(1, n - 4), n + 2))
        elif k == "shutdown":
            o.update(w=rng.random() < 0.6, c=rng.random() < 0.3)
        ops.append(o)
    return _fix(dict(_common(rng), ops=ops))


class Boom(Exception):
    pass


class Unsendable:
    def __reduce__(self):
        raise TypeError("can not be sent")


READY = None


def initializer(x):
    global READY
    READY = x


def job(j, kind, fds, init, *, kw):
    """Runs in a process of the pool."""
    import os
    import select
    started, gate = fds
    os.write(started, b"x")
    if not select.select([gate], [], [], 30)[0]:
        os._exit(3)
    os.read(gate, 1)
    if kw != j or READY != init:
        raise ValueError("wrong arguments")
    if kind == "exc":
        raise Boom(j, "args")
    if kind == "unpick":
        return Unsendable()
    if kind == "die":
        os._exit(1)
    return ("result", j)


def run_script(s):
    return run_apart(_run, s, trace_cfg(s))


def run_apart(_run, s, cfg):
    """In a process of its own: what a script leaves behind does not meet the next one."""
    import json
    import os
    import signal
    import tempfile
    with tempfile.TemporaryFile("w+") as f:
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.setpgid(0, 0)
                json.dump(_run(s), f)
                f.flush()
                os._exit(0)
            except BaseException:
                import traceback
                f.seek(0)
                f.truncate()
                json.dump(dict(cfg=cfg, ev=[{"e": "raised"}], error=traceback.format_exc()), f)
                f.flush()
            finally:
                os._exit(1)
        try:
            os.waitpid(pid, 0)
        finally:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        f.seek(0)
        return json.load(f)


def _run(s):
    import gc
    import multiprocessing
    import os
    import threading
    import time
    from concurrent.futures import Future
    from concurrent.futures.process import BrokenProcessPool
    from functools import partial

    import aiomisc
    from aiomisc.process_pool import ProcessPoolExecutor, ProcessPoolStatistic
    rng = random.Random(s["seed"])
    ev = []

    def rec(e, **kw):
        ev.append(dict(kw, e=e))
    PIPES = {o["j"]: (os.pipe(), os.pipe()) for o in s["ops"] if o["e"] == "submit"}
    before = set(multiprocessing.active_children())
    gc.collect()

    def stats():
        d = {}
        for x in aiomisc.get_statistics(ProcessPoolStatistic):
            d[x.metric] = d.get(x.metric, 0) + x.value
        return d
    base = stats()

    async def main():
        loop = asyncio.get_running_loop()
        kw = dict(initializer=initializer, initargs=(7,)) if s["init"] else {}
        init = 7 if s["init"] else None
        pool = ProcessPoolExecutor(s["n"], mp_context=multiprocessing.get_context("fork"), **kw)
        futs, tasks, kinds, released, low, high = {}, {}, {}, set(), {}, {}
        closed = False
        shut = None

        def outcome(j, f):
            high[j] = loop.time()
            try:
                r = f.result()
                k = "ok" if r == ("result", j) else "wrong_value"
            except (asyncio.CancelledError, __import__("concurrent.futures").futures.CancelledError):
                k = "cancelled"
            except BrokenProcessPool:
                k = "broken"
            except Boom as e:
                k = "exc" if e.args == (j, "args") else "wrong_exception"
            except BaseException as e:
                k = "err" if kinds[j] in ("unpick", "badarg") else "wrong_" + type(e).__name__
            rec("res", j=j, k=k)

        async def await_(j, fn):
            return await loop.run_in_executor(pool, fn)

        def submit(j, k, m):
            kinds[j] = k
            rec("submit", j=j, k=k)
            a = (j, k, (PIPES[j][0][1], PIPES[j][1][0]), init)
            if k == "badarg":
                a = (Unsendable(),) + a[1:]
            t = loop.time()
            try:
                if m == 0:
                    f = pool.submit(job, *a, kw=j)
                else:
                    f = loop.run_in_executor(pool, partial(job, *a, kw=j))
            except RuntimeError:
                rec("refused", j=j)
                return
            rec("accepted", j=j)
            low[j] = (t, loop.time())
            if m == 0:
                futs[j] = f
                f = asyncio.wrap_future(f)
            tasks[j] = f
            f.add_done_callback(partial(outcome, j))

        def release(j):
            if j not in tasks or j in released:
                return
            released.add(j)
            rec("release", j=j)
            released_at[j] = loop.time()
            os.write(PIPES[j][1][1], b"x")

        released_at = {}

        async def over(js, limit=10):
            js = [tasks[j] for j in js if not tasks[j].done()]
            if js:
                await asyncio.wait(js, timeout=limit)
            await asyncio.sleep(0)

        async def quiet():
            """Everything is over."""
            for j in list(tasks):
                release(j)
            await over(tasks)
            n = len(tasks)
            end = loop.time() + 8
            while stats().get("done", 0) - base.get("done", 0) < n and loop.time() < end:
                await asyncio.sleep(0.002)
            d = stats()
            d = {k: d.get(k, 0) - base.get(k, 0) for k in ("submitted", "done", "success", "error", "processes", "sum_time")}
            # the job cannot have been over before it was released
            lo = sum(released_at[j] - low[j][1] for j in tasks if kinds[j] in ("ok", "exc") and j in okexc())
            hi = sum((high.get(j) if not cancelled.get(j) else loop.time()) - low[j][0] for j in tasks) if len(high) == len(tasks) else 1e9
            rec("stats", sub=d["submitted"], done=d["done"], ok=d["success"], err=d["error"], n=d["processes"],
                tm=bool(lo - 1e-6 <= d["sum_time"] <= hi + 1e-6))

        def okexc():
            return {e["j"] for e in ev if e["e"] == "res" and e["k"] in ("ok", "exc")}
        cancelled = {}

        def shutdown(w, c):
            nonlocal closed, shut
            if closed:
                return
            closed = True
            rec("shutdown", w=w, c=c)
            done = loop.create_future()

            def run():
                pool.shutdown(wait=w, cancel_futures=c)
                loop.call_soon_threadsafe(lambda: (rec("shut"), done.set_result(None)))
            shut = done
            threading.Thread(target=run, daemon=True).start()

        for o in s["ops"]:
            k = o["e"]
            if k == "submit":
                submit(o["j"], o["k"], o["m"])
            elif k == "release":
                release(o["j"])
            elif k == "cancel":
                t = tasks.get(o["j"])
                if t is not None and not t.done() and o["j"] not in cancelled:
                    cancelled[o["j"]] = True
                    rec("cancel", j=o["j"])
                    if o["j"] in futs and rng.random() < 0.5:
                        futs[o["j"]].cancel()
                    else:
                        t.cancel()
            elif k == "wait":
                r = rng.random()
                if r < 0.5:
                    await over([j for j in released if j in tasks], 0.03)
                else:
                    await asyncio.sleep(rng.choice([0, 0, 0.001, 0.01]))
            elif k == "stats":
                await quiet()
            elif k == "shutdown":
                shutdown(o["w"], o["c"])
                await asyncio.sleep(rng.choice([0, 0.001, 0.01]))
        end = s["end"]
        if end == "shutdown" and rng.random() < 0.5 and "badarg" not in kinds.values():
            # while jobs are running
            shutdown(True, rng.random() < 0.3)
        await quiet()
        if not closed:
            if end == "drop":
                rec("drop")
                tasks.clear()
                futs.clear()
                pool = None
                gc.collect()
            elif end == "with":
                rec("shutdown", w=True, c=False)
                with pool:
                    pass
                rec("shut")
            else:
                shutdown(end == "shutdown", False)
        if shut is not None:
            await asyncio.wait([shut], timeout=10)
        if closed and PIPES and rng.random() < 0.5:
            j = max(PIPES) + 1
            rec("submit", j=j, k="ok")
            try:
                pool.submit(len, [])
                rec("accepted", j=j)
            except RuntimeError:
                rec("refused", j=j)
        until = loop.time() + 10
        left = set(multiprocessing.active_children()) - before
        wait = end in ("nowait", "drop") or any(e["e"] == "shutdown" and not e["w"] for e in ev)
        while wait and left and loop.time() < until:
            await asyncio.sleep(0.01)
            left = set(multiprocessing.active_children()) - before
        ran = []
        for j, (a, b) in PIPES.items():
            os.set_blocking(a[0], False)
            try:
                ran.append([j, len(os.read(a[0], 100))])
            except BlockingIOError:
                ran.append([j, 0])
        rec("gone", n=len(left), r=ran)
        for p in left:
            p.kill()

    try:
        asyncio.run(main())
    finally:
        for x in PIPES.values():
            for a in x:
                os.close(a[0])
                os.close(a[1])
    return dict(cfg=trace_cfg(s), ev=ev)
