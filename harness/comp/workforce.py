"""Worker pools with real processes, whose jobs wait for the script."""
import asyncio
import os
import random

from harness.comp.process_pool_ import run_apart, tset

SPEC = "Workforce"
PROPS = ("W01", "W02")
ENF = '{"W01", "W02"}'
N_QUICK = 64
N_THOROUGH = 900
SCRIPT_LIMIT = 150
KINDS = ["ok", "exc", "err", "die"]
PATIENCE = 30


def design(tier):
    q = tier == "quick"
    return [dict(module="MCWorkforce", spec="MCSpec", invariants=["Obligations", "Own", "OnePerWorker", "NoMoreThan"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", Depth=5, NCalls=2 if q else 3, NKills=1, N="{1, 2}",
                                Inits=tset(["no"] if q else ["no", "bad"]), Kinds=tset(["ok", "die"] if q else ["ok", "exc", "die"])))]


def generated(tier):
    return [dict(module="MCWorkforce", num=24 if tier == "quick" else 300, depth=24, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NCalls=6, NKills=2, Depth=24, N="{1, 2, 3}",
                                                       Inits=tset(["no", "ok"]), Kinds=tset(KINDS)))]


def trace_cfg(s):
    return {"n": s["n"], "init": s["init"]}


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "call":
            o["size"] = rng.choice([0, 1, 2, 3, 100, 300000])
        elif o["e"] == "release":
            o["how"] = rng.randrange(6)
        elif o["e"] == "kill":
            o["w"] = rng.randrange(3)
        elif o["e"] == "close":
            if rng.random() < 0.8:
                continue
        ops.append(o)
        if rng.random() < 0.5:
            ops.append(dict(e="wait"))
    return dict(seed=rng.randrange(1 << 30), n=g["cfg"]["n"], init=g["cfg"]["init"], mo=rng.choice([0, 0, 1]), ops=ops)


def random_script(rng, tier):
    ops, n = [], 0
    d = rng.choice([0, 1, 4])
    for _ in range(rng.randrange(6, 26)):
        k = rng.choices(["call", "release", "cancel", "kill", "wait", "close"], [6, 5, 1.5, 0.7, 3, 0.1])[0]
        o = dict(e=k)
        if k == "call":
            if n >= 12:
                continue
            n += 1
            o.update(c=n, k=rng.choices(KINDS, [6, 2, 1, d])[0], size=rng.choice([0, 1, 2, 3, 100, 300000]))
        elif k in ("release", "cancel"):
            o.update(c=rng.randrange(max(1, n - 5), n + 1) if n else 1, how=rng.randrange(6))
        elif k == "kill":
            o.update(w=rng.randrange(3))
        ops.append(o)
    return dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 2, 2, 3]), init=rng.choice(["no", "no", "ok", "ok", "bad"]),
                mo=rng.choice([0, 0, 1]), ops=ops)


def run_script(s):
    return run_apart(_run, s, trace_cfg(s))


def _run(s):
    import contextlib
    import signal
    import socket
    import sys
    import tempfile

    import aiomisc
    from aiomisc.worker_pool import WorkerPool

    from harness import jobs
    try:
        from aiomisc.worker_pool import ProcessError
    except ImportError:
        from aiomisc_worker.exceptions import ProcessError
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    repo = os.path.dirname(os.path.dirname(os.path.abspath(aiomisc.__file__)))
    os.environ["PYTHONPATH"] = os.pathsep.join([repo, here] + [p for p in [os.environ.get("PYTHONPATH")] if p])
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    rng = random.Random(s["seed"])
    ev = []

    def rec(e, **kw):
        ev.append(dict(kw, e=e))
    out, tasks, kinds, sizes = {}, {}, {}, {}
    began, released, cancelled, killed, seen, numbers = {}, set(), set(), set(), set(), {}
    calls = [o["c"] for o in s["ops"] if o["e"] == "call"]

    async def main(where):
        loop = asyncio.get_running_loop()
        gates = {}
        for c in calls:
            os.mkfifo(os.path.join(where, "gate%d" % c))
            gates[c] = os.open(os.path.join(where, "gate%d" % c), os.O_RDWR)
        sock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        sock.bind(os.path.join(where, "sock"))
        sock.setblocking(False)

        def told():
            with contextlib.suppress(BlockingIOError):
                while True:
                    c, pid = map(int, sock.recv(100).split())
                    seen.add(pid)
                    began[c] = pid
                    rec("began", c=c, p=number(pid))
        loop.add_reader(sock, told)

        def number(pid):
            return numbers.setdefault(pid, len(numbers) + 1)

        kw = {}
        if s["init"] != "no":
            kw = dict(initializer=jobs.initializer, initializer_args=(7,), initializer_kwargs={"fail": s["init"] == "bad"})
        pool = WorkerPool(s["n"], max_overflow=s["mo"], **kw)
        init = 7 if s["init"] == "ok" else None
        closing = None

        async def caller(c):
            try:
                r = await pool.create_task(jobs.job, c, kinds[c], where, init, sizes[c], kw=c)
                k = "ok" if r == ("result", c, b"x" * sizes[c]) else "wrong_value"
            except asyncio.CancelledError:
                k = "cancelled"
            except ProcessError:
                k = "lost"
            except jobs.BadInit as e:
                k = "init" if e.args == (7,) else "wrong_exception"
            except (jobs.Boom, ConnectionResetError, LookupError, StopIteration) as e:
                k = "exc" if e.args == (c, "args") else "wrong_exception"
            except BaseException as e:
                k = ("exc" if kinds[c] == "exc" and "StopIteration" in str(e) else
                     "closed" if isinstance(e, RuntimeError) and "closed" in str(e) else
                     "err" if kinds[c] == "err" else "wrong_" + type(e).__name__)
            told()
            out[c] = k
            rec("ret", c=c, k=k)

        async def close():
            await pool.close()
            rec("closed")

        def quiet():
            told()
            for c in tasks:
                if c not in out and (c in released and c in began or c in killed or c in cancelled):
                    return False
            if closing is not None or s["init"] == "bad":
                return all(c in out for c in tasks) and (closing is None or closing.done())
            running = [c for c in began if c not in released and c not in cancelled and c not in killed]
            waiting = [c for c in tasks if c not in began and c not in out and c not in cancelled]
            return len(running) >= min(s["n"], len(running) + len(waiting))

        async def idle():
            end = loop.time() + PATIENCE
            while not quiet() and loop.time() < end:
                await asyncio.sleep(0.003)
            await asyncio.sleep(0.02)
            told()
            while not quiet() and loop.time() < end:
                await asyncio.sleep(0.003)
            rec("idle")
            return quiet()

        await pool.start()
        for op in s["ops"]:
            e, c = op["e"], op.get("c")
            told()
            if e == "call":
                kinds[c], sizes[c] = op["k"], op["size"]
                rec("call", c=c, k=op["k"])
                tasks[c] = loop.create_task(caller(c))
                await asyncio.sleep(0)
            elif e == "release":
                if c in began and c not in released and c not in killed and c not in cancelled:
                    released.add(c)
                    rec("release", c=c)
                    os.write(gates[c], b"%d" % op["how"])
            elif e == "cancel":
                if c in tasks and c not in out and c not in cancelled:
                    cancelled.add(c)
                    rec("cancel", c=c)
                    tasks[c].cancel()
            elif e == "kill":
                if closing is not None or s["init"] == "bad" or not await idle():
                    continue
                pids = sorted(pool.pids)
                if pids:
                    pid = pids[op["w"] % len(pids)]
                    seen.add(pid)
                    killed.update(c for c in began if began[c] == pid and c not in released and c not in cancelled)
                    rec("kill", p=number(pid))
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(pid, signal.SIGKILL)
            elif e == "close":
                if closing is None:
                    seen.update(pool.pids)
                    rec("close")
                    closing = loop.create_task(close())
                    await asyncio.sleep(0)
            elif e == "wait":
                if not await idle():
                    break
        if ev and await idle():
            for c in sorted(calls):
                # whatever is left, in turn
                if c in tasks and c not in out and rng.random() < 0.7 and closing is None:
                    if not await idle():
                        break
                    if c in began and c not in released and c not in cancelled and c not in killed:
                        released.add(c)
                        rec("release", c=c)
                        os.write(gates[c], b"%d" % rng.randrange(6))
            await idle()
        seen.update(pool.pids)
        if closing is None:
            rec("close")
            closing = loop.create_task(close())
        await asyncio.wait([closing], timeout=PATIENCE)
        await idle()
        sup = pool._supervisor

        def alive():
            n = sup.poll() is None
            for pid in seen:
                try:
                    with open("/proc/%d/stat" % pid) as f:
                        n += f.read().rsplit(")", 1)[1].split()[0] != "Z"
                except OSError:
                    pass
            return int(n)
        end = loop.time() + PATIENCE
        while alive() and loop.time() < end:
            await asyncio.sleep(0.01)
        rec("gone", n=alive())
        for t in tasks.values():
            t.cancel()
        loop.remove_reader(sock)
        sock.close()
        for g in gates.values():
            os.close(g)

    with tempfile.TemporaryDirectory() as where:
        asyncio.run(main(where))
    sys.stdout.flush()
    return dict(cfg=trace_cfg(s), ev=ev)
