"""aiomisc.PoolBase driven by environment scripts on the virtual loop."""
import asyncio
import random

from harness.vloop import Recorder, VirtualLoop, run_virtual

SPEC = "Pool"
PROPS = ("P01", "P02")


def design(tier):
    base = dict(Enforce='{"P01","P02"}', Diagnose="FALSE", Clients="{1,2}", MaxInst=3, MaxFail=1,
                MaxTime=3, Sizes="{1,2}", Recycles="{0,1}", Depth=30,
                MaxOps=7 if tier == "quick" else 11)
    return [dict(module="MCPool", spec="MCSpec", constants=base,
                 invariants=["TypeOK", "Capacity", "Exclusive", "HeldUsable", "ClosedEmpty",
                             "Obligations"],
                 properties=["NoResurrection"])]


def generated(tier):
    return [dict(module="MCPool", num=150 if tier == "quick" else 1500,
                 depth=40 if tier == "quick" else 60,
                 init="MCInit", next_="GenNext", constraint="GenPrint",
                 constants=dict(Enforce='{"P01","P02"}', Diagnose="FALSE", Clients="{1,2,3,4}",
                                MaxInst=6, MaxFail=2, MaxTime=4, Sizes="{1,2}",
                                Recycles="{0,1}", Depth=40 if tier == "quick" else 60, MaxOps=100))]


def from_generated(ops, rng):
    out = []
    for op in ops:
        op = dict(op)
        if op["e"] == "adv":
            op["dt"] = 1000
        out.append(op)
    return dict(maxsize=rng.choice([1, 2, 3]), recycle=rng.choice([0, 0, 1000]),
                auto=rng.choice([0.0, 0.0, 0.3]), burst=rng.choice([0.0, 0.3, 0.7]),
                seed=rng.randrange(1 << 30), ops=out)


def random_script(rng, tier):
    n = rng.randrange(10, 60)
    nclients = rng.randrange(1, 7)
    ops = []
    w = dict(acq=6, cancel=rng.choice([0, 1, 3]), rel=5, createEnd=5, checkEnd=5, destroyEnd=3,
             adv=rng.choice([0, 1, 2]))
    kinds, weights = zip(*w.items())
    pfail = rng.choice([0, 0.1, 0.4])
    for _ in range(n):
        k = rng.choices(kinds, weights)[0]
        op = {"e": k}
        if k in ("acq", "cancel", "rel"):
            op["c"] = rng.randrange(1, nclients + 1)
        elif k == "createEnd":
            op["ok"] = rng.random() >= pfail
            op["k"] = rng.randrange(4)
        elif k == "checkEnd":
            op["r"] = "ok" if rng.random() >= pfail else rng.choice(["bad", "exc"])
            op["i"] = rng.randrange(4)
        elif k == "destroyEnd":
            op["r"] = rng.choice(["ok", "ok", "exc"])
            op["i"] = rng.randrange(3)
        elif k == "adv":
            op["dt"] = rng.choice([250, 500, 999, 1000, 1500, 2001])
        ops.append(op)
    if rng.random() < 0.6:
        ops.append({"e": "close", "timeout": rng.choice([-1, -1, -1, 1500])})
        ops += [{"e": "destroyEnd", "r": "ok", "i": 0} for _ in range(rng.randrange(0, 4))]
        ops.append({"e": "adv", "dt": 2000})
    return dict(maxsize=rng.randrange(1, 5), recycle=rng.choice([0, 0, 1000, 2000]),
                auto=rng.choice([0.0, 0.3, 0.7, 1.0]), pfail=pfail,
                burst=rng.choice([0.0, 0.2, 0.5, 0.8]),
                seed=rng.randrange(1 << 30), ops=ops)


class Err(Exception):
    pass


class Inst:
    def __init__(self, n):
        self.n = n


def trace_cfg(s):
    return dict(maxsize=s["maxsize"], recycle=s["recycle"])


def run_script(s):
    import aiomisc
    rng = random.Random(s["seed"])
    random.seed(s["seed"])
    rec = Recorder()
    pfail = s.get("pfail", 0.1)
    creates, checks, destroys = {}, {}, {}
    insts = [0]
    ncreate = [0]
    pools = []

    async def gate(table, key, choices):
        """Wait for the environment's verdict (or decide at once)."""
        if rng.random() < s["auto"]:
            r = choices[0] if rng.random() >= pfail else rng.choice(choices[1:])
            if rng.random() < 0.5:
                await asyncio.sleep(0)
            return r
        fut = asyncio.get_running_loop().create_future()
        table[key] = fut
        try:
            return await fut
        finally:
            if table.get(key) is fut:
                del table[key]

    class P(aiomisc.PoolBase):
        async def _create_instance(self):
            ncreate[0] += 1
            k = ncreate[0]
            rec("createStart", k=k)
            try:
                r = await gate(creates, k, ["ok", "fail"])
            except asyncio.CancelledError:
                rec("createCancelled", k=k)
                raise
            if r == "ok":
                insts[0] += 1
                i = Inst(insts[0])
                rec("createEnd", k=k, i=i.n, ok=True)
                return i
            rec("createEnd", k=k, i=insts[0] + 1, ok=False)
            raise Err("create")

        async def _check_instance(self, inst):
            rec("checkStart", i=inst.n)
            try:
                r = await gate(checks, inst.n, ["ok", "bad", "exc"])
            except asyncio.CancelledError:
                rec("checkCancelled", i=inst.n)
                raise
            rec("checkEnd", i=inst.n, r=r)
            if r == "exc":
                raise Err("check")
            return r == "ok"

        async def _destroy_instance(self, inst):
            rec("destroyStart", i=inst.n)
            try:
                r = await gate(destroys, inst.n, ["ok", "exc"])
            except asyncio.CancelledError:
                rec("destroyCancelled", i=inst.n)
                raise
            rec("destroyEnd", i=inst.n)
            if r == "exc":
                raise Err("destroy")

    def pick(table, n):
        if not table:
            return None
        ks = sorted(table)
        return table.pop(ks[n % len(ks)])

    async def main(loop):
        pool = P(maxsize=s["maxsize"], recycle=(s["recycle"] / 1000) or None)
        pools.append(pool)
        clients = {}       # c -> dict(task, cm, st, cxl)

        async def acquirer(c):
            cl = clients[c]
            cm = pool.acquire()
            try:
                inst = await cm.__aenter__()
            except asyncio.CancelledError:
                rec("acqCancelled", c=c)
                del clients[c]
                return
            except Err as e:
                rec("acqFail", c=c) if str(e) == "create" else rec("acqFailOdd", c=c)
                del clients[c]
                return
            except BaseException as e:
                rec("acqRaised", c=c, x=repr(e))
                del clients[c]
                return
            if not isinstance(inst, Inst):
                rec("acqOk", c=c, i=0)
            else:
                rec("acqOk", c=c, i=inst.n)
            cl["st"] = "held"
            cl["cm"] = cm

        async def releaser(c):
            cl = clients[c]
            rec("rel", c=c)
            cm = cl["cm"]
            del clients[c]
            try:
                await cm.__aexit__(None, None, None)
            except BaseException as e:
                rec("relRaised", c=c, x=repr(e))

        closer = None

        async def do_close(timeout):
            by = -1 if timeout < 0 else rec.now() + timeout
            rec("close", by=by)
            try:
                await pool.close(None if timeout < 0 else timeout / 1000)
            except asyncio.TimeoutError:
                rec("closeDone", r="timeout")
            except BaseException as e:
                rec("closeDone", r=repr(e)[:40])
            else:
                rec("closeDone", r="ok")

        async def settle():
            await loop.settle()

        for op in s["ops"]:
            k = op["e"]
            if k == "acq":
                c = op["c"]
                if c in clients or closer:
                    continue
                rec("acq", c=c)
                clients[c] = {"st": "wait", "cxl": False}
                clients[c]["task"] = loop.create_task(acquirer(c))
            elif k == "cancel":
                cl = clients.get(op["c"])
                if not cl or cl["st"] != "wait" or cl["cxl"] or cl["task"].done():
                    continue
                cl["cxl"] = True
                rec("cancel", c=op["c"])
                # a task cancelled before its first step never runs our wrapper
                task = cl["task"]
                c = op["c"]

                def fin(t, c=c, cl=cl):
                    if clients.get(c) is cl and t.cancelled():
                        rec("acqCancelled", c=c)
                        del clients[c]
                task.add_done_callback(fin)
                task.cancel()
            elif k == "rel":
                cl = clients.get(op["c"])
                if not cl or cl["st"] != "held":
                    continue
                await releaser(op["c"])
            elif k == "createEnd":
                f = pick(creates, op["k"])
                if f is None or f.done():
                    continue
                f.set_result("ok" if op["ok"] else "fail")
            elif k == "checkEnd":
                f = pick(checks, op["i"])
                if f is None or f.done():
                    continue
                f.set_result(op["r"])
            elif k == "destroyEnd":
                f = pick(destroys, op.get("i", 0))
                if f is None or f.done():
                    continue
                f.set_result(op.get("r", "ok"))
            elif k == "adv":
                await settle()
                await asyncio.sleep(op["dt"] / 1000)
            elif k == "close":
                await settle()
                if closer or any(cl["st"] == "wait" for cl in clients.values()) or creates:
                    continue
                closer = loop.create_task(do_close(op.get("timeout", -1)))
            if rng.random() >= s["burst"]:
                await settle()
        await settle()
        # epilogue: let everything finish, then the pool must serve maxsize clients at once
        if closer is None:
            for _ in range(200):
                await settle()
                for c in [c for c, cl in clients.items() if cl["st"] == "held"]:
                    await releaser(c)
                f = pick(creates, 0) or pick(checks, 0) or pick(destroys, 0)
                if f is not None and not f.done():
                    f.set_result("ok")
                elif not any(cl["st"] == "held" for cl in clients.values()):
                    await settle()
                    if not (creates or checks or destroys) and not any(
                            cl["st"] == "held" for cl in clients.values()):
                        break
            if not clients:
                s["auto"], pfail_ = 1.0, None
                nonlocal_pfail(0.0)
                for j in range(s["maxsize"]):
                    c = 50 + j
                    rec("acq", c=c)
                    clients[c] = {"st": "wait", "cxl": False}
                    clients[c]["task"] = loop.create_task(acquirer(c))
                await settle()
                for c in [c for c, cl in clients.items() if cl["st"] == "held"]:
                    await releaser(c)
                await settle()
                closer = loop.create_task(do_close(-1))
                await settle()

    def nonlocal_pfail(v):
        nonlocal pfail
        pfail = v

    s = dict(s)
    def length():
        try:
            return len(pools[0]) if pools else 0
        except ValueError:      # negative
            return -1

    st = run_virtual(main, rec, idle_fields=lambda: {"n": length()})
    return rec.finish(st, trace_cfg(s))
