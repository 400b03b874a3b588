"""Asynchronous files: sequences compared with an ordinary file, and concurrent operations in threads."""
import asyncio
import random

SPEC = "File"
PROPS = ("F01",)
ENF = '{"F01"}'
N_QUICK = 1600
N_THOROUGH = 16000
SCRIPT_LIMIT = 40
NAMES = ["open", "close", "enter", "leave", "read", "readline", "readlines", "next", "readinto", "write", "writelines", "seek",
         "tell", "truncate", "flush"]


def tset(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def design(tier):
    q = tier == "quick"
    inv = ["Obligations", "ReadOnlyKept", "Appended", "LeftClosed", "Explained", "ReadOnce"]
    base = dict(Enforce=ENF, Diagnose="FALSE", Depth=5, Encs=tset(["utf-8"]))
    ds = [dict(module="MCFile", spec="MCSpec", invariants=inv, timeout=900, constants=dict(
            base, NOps=4, NPar=1, Kinds=tset(["plain"]), Names=tset(["open", "read", "readline", "write", "seek", "truncate", "tell"]))),
          dict(module="MCFile", spec="MCSpec", invariants=inv, timeout=900, constants=dict(
            base, NOps=3 if q else 4, NPar=3, Kinds=tset(["plain"]), Names=tset(["enter", "leave", "next", "write", "close"])))]
    if not q:
        ds += [dict(module="MCFile", spec="MCSpec", invariants=inv, timeout=3000, constants=dict(
                base, NOps=5, NPar=1, Kinds=tset(["plain"]), Names=tset(["open", "read", "readlines", "next", "write", "seek", "truncate"]))),
               dict(module="MCFile", spec="MCSpec", invariants=inv, timeout=3000, constants=dict(
                base, NOps=4, NPar=2, Kinds=tset(["plain", "bz2"]), Encs=tset(["utf-8", "latin-1"]), Names=tset(NAMES)))]
    return ds


def generated(tier):
    return [dict(module="MCFile", num=250 if tier == "quick" else 2000, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NOps=14, NPar=1, Depth=30, Names=tset(NAMES),
                                                       Encs=tset(["utf-8", "latin-1"]), Kinds=tset(["plain", "gzip", "bz2", "lzma"]))),
            dict(module="MCFile", num=150 if tier == "quick" else 1200, depth=24, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NOps=10, NPar=4, Depth=24, Names=tset(NAMES),
                                                       Encs=tset(["utf-8", "latin-1"]), Kinds=tset(["plain", "bz2", "lzma"])))]


def trace_cfg(s):
    return s["cfg"]


def _common(rng):
    return dict(seed=rng.randrange(1 << 30), p=rng.choice([0, 0.05, 0.2, 0.5, 0.8]), pool=rng.choice([1, 2, 4, 8]),
                own=rng.random() < 0.5, path=rng.random() < 0.3, way=rng.choice(["await", "open", "fp", "base"]), spell=rng.randrange(4))


def from_generated(g, rng):
    ops = [_args(o) for o in g["ops"]]
    # one after another, unless the specification cancels or overlaps them
    seq = rng.random() < 0.6 and not any(o["e"] == "cancel" for o in ops)
    if not seq:
        for o in ops:
            if rng.random() < 0.6:
                o["b"] = 1
    return dict(_common(rng), ops=limited(ops), cfg=g["cfg"], seq=seq, impl=_impl(ops, seq, rng))


def _args(o):
    o = dict(o)
    if o["e"] == "call":
        o["y"] = o.pop("b") if isinstance(o.get("b"), list) else []
    return o


def random_script(rng, tier):
    kind = rng.choice(["plain", "plain", "plain", "gzip", "bz2", "lzma"])
    text = rng.random() < 0.5
    enc = rng.choice(["utf-8", "utf-8", "latin-1"]) if text else "utf-8"
    mode = rng.choice("rrrwwaax")
    plus = kind == "plain" and rng.random() < 0.6
    ex = rng.random() < (0.15 if mode == "x" else 0.93)
    seq = rng.random() < 0.5
    chars = "AB\n\né"
    tocode = "latin-1" if not text else enc
    extra = "\r" if seq else ""

    def data(k):
        return list("".join(rng.choice(chars + extra) for _ in range(rng.randrange(k))).encode(tocode))
    init = data(12) if ex else []
    if seq and ex and rng.random() < 0.1:
        init = init + [195]
    cfg = dict(kind=kind, text=text, enc=enc, mode=mode, rd=mode == "r" or plus, wr=mode != "r" or plus, init=init, ex=ex)
    ops = []
    n = 0
    ctx = rng.random() < 0.5
    rw = ["read", "readline", "readlines", "next", "readinto", "tell", "seek"] if cfg["rd"] else []
    rw += ["write", "write", "writelines", "truncate", "tell", "flush"] if cfg["wr"] else []
    rw += rng.sample(["read", "write", "seek", "truncate", "badwrite", "readable", "writable", "seekable", "attrs", "closed", "tell", "flush"], 4)
    if not seq and rng.random() < 0.6:
        # a few operations which meet
        rw = rng.choice([["next"], ["read", "next"], ["readline", "read"]] if not cfg["wr"] else [["write"], ["write", "writelines", "write", "flush"], rw])
    burst = 0 if seq else rng.choice([0.5, 0.8, 0.95])

    def add(op, **kw):
        nonlocal n
        n += 1
        o = dict(e="call", o=n, op=op, n=0, m=0, y=[], l=[])
        o.update(kw)
        if rng.random() < burst:
            o["b"] = 1
        ops.append(o)
    add("enter" if ctx else "open")
    if rng.random() < 0.9:
        ops[-1].pop("b", None)
    left = False
    for _ in range(rng.randrange(2, 14)):
        if rng.random() < 0.04:
            add(rng.choice(["open", "close"]))
        op = rng.choice(rw)
        if op == "read":
            add(op, n=rng.choice([-1, -1, 0, 1, 1, 2, 3, 5, 100, -2]))
        elif op == "readline":
            add(op, n=rng.choice([-1, -1, -1, 0, 1, 2, 5]))
        elif op == "readlines":
            add(op, n=rng.choice([-1, -1, 0, 1, 3, 5]))
        elif op == "readinto":
            add(op, n=rng.choice([1, 2, 4, 20]))
        elif op == "write":
            add(op, y=data(6))
        elif op == "writelines":
            add(op, l=[data(4) for _ in range(rng.randrange(4))])
        elif op == "seek":
            m = rng.choice([0, 0, 0, 1, 2, 7])
            add(op, n=rng.choice([0, 0, 1, 2, 4, 9, 14, -1, -3]), m=m)
        elif op == "truncate":
            add(op, n=rng.choice([-1, -1, 0, 1, 3, 8, 15, -2]))
        else:
            add(op)
        if not seq and rng.random() < 0.08:
            ops.append(dict(e="cancel", o=rng.randrange(max(1, n - 2), n + 1)))
        if ctx and not left and rng.random() < 0.08:
            left = True
            add("leave", m=rng.randrange(3))
            if not seq and rng.random() < 0.2:
                ops.append(dict(e="cancel", o=n))
    if ctx and not left and rng.random() < 0.8:
        add("leave", m=rng.randrange(3))
        if not seq and rng.random() < 0.25:
            ops.append(dict(e="cancel", o=n))
    return dict(_common(rng), ops=limited(ops), cfg=cfg, seq=seq, impl=_impl(ops, seq, rng))


def _impl(ops, seq, rng):
    # the Python implementation of io reads from its buffer what was truncated
    if seq or any(o.get("op") == "truncate" for o in ops):
        return "c"
    return rng.choice(["c", "py", "py"])


def limited(ops):
    """At most four operations at once and two which were cancelled; not too many orders in all."""
    out, run, canc, orders = [], 0, 0, 1
    for o in ops:
        o = dict(o)
        if o["e"] == "cancel":
            canc += 1
            if canc > 2:
                continue
        if o.get("b"):
            run += 1
            if run > 3 or orders * (run + 1) > 60:
                del o["b"]
            else:
                orders *= run + 1
        if not o.get("b"):
            run = 0
        out.append(o)
    return out


class Boom(Exception):
    pass


def run_script(s):
    from harness import threads
    threads.install()
    import _pyio
    import bz2
    import builtins
    import gzip
    import lzma
    import os
    import shutil
    import tempfile
    from pathlib import Path

    import aiomisc.io
    from aiomisc.thread_pool import ThreadPoolExecutor
    cfg = s["cfg"]
    if s["way"] == "fp" and cfg["kind"] != "plain":
        s = dict(s, way="open")
    kind, text, enc = cfg["kind"], cfg["text"], cfg["enc"]
    MODS = dict(plain=None, gzip=gzip, bz2=bz2, lzma=lzma)
    mod = MODS[kind]
    _pyio.Lock = threads.VLock
    plain_open = _pyio.open if s["impl"] == "py" else builtins.open
    opener = plain_open if mod is None else mod.open
    tmp = tempfile.mkdtemp(prefix="f01-")
    name, refname = os.path.join(tmp, "file"), os.path.join(tmp, "ref")
    plus = "+" if cfg["rd"] and cfg["wr"] else ""
    m = cfg["mode"]
    if text:
        mode = [m + plus, m + "t" + plus, "t" + m + plus, m + plus][s["spell"]]
    else:
        mode = [m + "b" + plus, m + plus + "b", "b" + m + plus, m + "b" + plus][s["spell"]]
    if mod is not None and mode[0] in "tb":
        mode = mode[1] + mode[0]
    fullmode = mode if not text or "t" in mode else mode + "t"
    NONE = dict(t="none", n=0, b=[], l=[], x="")

    def data(b):
        return bytes(b).decode(enc) if text else bytes(b)

    def put(path, b):
        z = bytes(b)
        if mod is not None:
            z = mod.compress(z)
        fd = os.open(path, os.O_WRONLY | os.O_CREAT)
        os.write(fd, z)
        os.close(fd)

    def get(path):
        try:
            fd = os.open(path, os.O_RDONLY)
        except FileNotFoundError:
            return [], True
        z = os.read(fd, 1 << 20)
        os.close(fd)
        if mod is None:
            return list(z), True
        try:
            return list(mod.decompress(z)), True
        except Exception:
            return [], z == b""

    def raw(v):
        if isinstance(v, str):
            try:
                return list(v.encode(enc))
            except UnicodeEncodeError:
                return list(v.encode("utf-8", "surrogateescape"))
        return list(bytes(v))

    def norm(v):
        if v is None:
            return NONE
        if isinstance(v, (bool, int)):
            return dict(NONE, t="n", n=int(v))
        if isinstance(v, (bytes, str, bytearray)):
            if isinstance(v, str) != text:
                return dict(NONE, t="wrong_type")
            return dict(NONE, t="b", b=raw(v))
        if isinstance(v, list):
            return dict(NONE, t="l", l=[raw(x) for x in v])
        return dict(NONE, t="other", x=type(v).__name__)

    def err(e):
        if isinstance(e, asyncio.CancelledError):
            return dict(NONE, t="cancelled")
        return dict(NONE, t="err", x=type(e).__name__)

    def describe(fp, call):
        out = []
        for a in (["mode", "name"] if mod is None else []) + ["isatty"] + (["encoding", "errors", "newlines", "line_buffering"] if text and s["way"] != "base" else []):
            try:
                v = getattr(fp, a)
                if a == "isatty":
                    v = v()
                v = str(v).replace(refname, name)
                if a == "mode":
                    v = "".join(sorted(v))
            except Exception as e:
                v = type(e).__name__
            out.append("%s=%s" % (a, v))
        return dict(NONE, t="attrs", x=" ".join(out))

    if cfg["ex"]:
        put(name, cfg["init"])
        put(refname, cfg["init"])
    if s["way"] == "fp":
        cls = aiomisc.io.AsyncTextIO if text else aiomisc.io.AsyncBinaryIO

    class Ref:
        """The same operations on an ordinary file."""

        def __init__(self):
            self.fp = None

        def perform(self, o):
            k = o["op"]
            if k in ("open", "enter"):
                if self.fp is None:
                    self.fp = opener(refname, fullmode, **({"encoding": enc} if text else {}))
                return NONE
            fp = self.fp
            if fp is None:
                return None
            if k == "leave":
                fp.close()
                return dict([NONE, dict(NONE, t="err", x="Boom"), dict(NONE, t="cancelled")][o["m"]], n=int(fp.closed))
            if k == "close":
                return norm(fp.close())
            if k == "closed":
                return norm(fp.closed)
            if k == "attrs":
                return describe(fp, False)
            if k == "next":
                line = fp.readline()
                return norm(line) if line else dict(NONE, t="err", x="StopAsyncIteration")
            if k == "readinto":
                buf = bytearray(o["n"])
                return dict(NONE, t="b", b=list(buf[:fp.readinto(buf)]))
            return norm(getattr(fp, "write" if k == "badwrite" else k)(*arguments(o)))

        def __call__(self, o):
            try:
                return self.perform(o)
            except Exception as e:
                return err(e)

    def arguments(o):
        k, n = o["op"], o["n"]
        if k == "write":
            return [data(o["y"])]
        if k == "writelines":
            return [[data(x) for x in o["l"]]]
        if k == "badwrite":
            return [b"x" if text else "x"]
        if k == "seek":
            return [n, o["m"]] if o["m"] or n % 2 else [n]
        if k == "truncate":
            return [] if n == -1 else [n]
        if k in ("read", "readline", "readlines"):
            return [] if n == -1 else [n]
        return []

    class R(threads.Run):
        def setup(self):
            self.pool = ThreadPoolExecutor(s["pool"])
            self.pool2 = ThreadPoolExecutor(s["pool"])
            self.loop.set_default_executor(self.pool)
            self.main_end = self.loop.create_future()
            self.tasks, self.body = {}, None
            self.leaving = None
            self.called = set()
            self.ref = Ref() if s["seq"] else None
            self.noref = False
            comp = aiomisc.io.Compression[dict(plain="NONE").get(kind, kind.upper())]
            kw = dict(executor=self.pool2) if s["own"] else {}
            p = Path(name) if s["path"] else name
            self.f = None
            if s["way"] == "fp":
                self.make = lambda: cls.open_fp(opener(name, fullmode, **({"encoding": enc} if text else {})), **kw)
            else:
                if text:
                    kw["encoding"] = enc
                args = (p, mode) if kind == "plain" and s["spell"] == 0 else (p, mode, comp)
                if s["way"] == "base" and kind == "plain":
                    self.f = aiomisc.io.AsyncFileIO(p, fullmode, **kw)
                else:
                    self.f = aiomisc.io.async_open(*args, **kw)

        def idle_fields(self):
            try:
                return dict(cl=self.f is None or bool(self.f.closed()))
            except Exception:
                return dict(cl=True)

        def ret(self, o, r):
            ref = None
            if r["t"] == "cancelled" and o["op"] != "leave":
                self.noref = True
            if self.ref is not None and not self.noref:
                ref = self.ref(o)
            if o["op"] in ("open", "enter") and r["t"] == "err" and s["way"] == "fp" and self.f is None:
                pass
            self.rec("ret", o=o["o"], r=r, ref=ref or dict(NONE, t="na"))

        def done(self, o):
            def cb(t):
                # cancelled before it began
                if o["o"] not in self.begun:
                    self.ret(o, dict(NONE, t="cancelled"))
            return cb

        def file(self):
            if self.f is None:
                self.f = self.make()
            return self.f

        async def context(self, o):
            self.begun.add(o["o"])
            st = "enter"
            try:
                async with self.file():
                    self.ret(o, NONE)
                    self.body = self.loop.create_future()
                    st = "body"
                    cmd = await self.body
                    st = "leave"
                    if cmd["m"] == 1:
                        raise Boom()
                r = NONE
            except BaseException as e:
                if isinstance(e, threads.Kill):
                    raise
                r = err(e)
            if st == "enter":
                return self.ret(o, r)
            if self.leaving is not None:
                self.ret(self.leaving, dict(r, n=int(self.f.closed())))

        async def perform_op(self, o):
            self.begun.add(o["o"])
            try:
                r = await self.operation(o)
            except BaseException as e:
                if isinstance(e, threads.Kill):
                    raise
                r = err(e)
            self.ret(o, r)

        async def operation(self, o):
            k = o["op"]
            if k == "open":
                f = self.file()
                if s["way"] == "await":
                    return NONE if (await f) is f else dict(NONE, t="other")
                return norm(await f.open())
            f = self.f
            if f is None:
                raise RuntimeError
            if k == "close":
                return norm(await f.close())
            if k == "closed":
                return norm(f.closed())
            if k == "attrs":
                f.fp.closed
                return describe(f, True)
            if k == "next":
                return norm(await f.__anext__())
            if k == "readinto":
                buf = bytearray(o["n"])
                n = await f.readinto(buf)
                return dict(NONE, t="b", b=list(buf[:n]))
            return norm(await getattr(f, "write" if k == "badwrite" else k)(*arguments(o)))

        def perform(self, op):
            k = op["e"]
            if k == "call":
                o, what = op["o"], op["op"]
                if o in self.called:
                    return
                if what == "leave" and (self.body is None or self.leaving is not None):
                    return
                if what == "enter" and self.ctx is not None:
                    return
                self.called.add(o)
                self.rec("call", o=o, op=what, n=op["n"], m=op["m"], b=op["y"], l=op["l"])
                if what == "leave":
                    self.leaving = op
                    self.tasks[o] = self.ctx
                    self.begun.add(o)
                    if op["m"] == 2:
                        self.ctx.cancel()
                    else:
                        self.body.set_result(op)
                    return
                if what == "enter":
                    t = self.ctx = self.loop.create_task(self.context(op))
                else:
                    t = self.loop.create_task(self.perform_op(op))
                self.tasks[o] = t
                t.add_done_callback(self.done(op))
            elif k == "cancel":
                t = self.tasks.get(op["o"])
                if t is None or t.done() or op["o"] in self.cancelled:
                    return
                if t is self.ctx and (self.leaving is None) != (self.body is None):
                    return
                if t is self.ctx and op["o"] != (self.leaving or {"o": op["o"]})["o"]:
                    return
                self.cancelled.add(op["o"])
                self.rec("cancel", o=op["o"])
                t.cancel()
            elif k == "fin":
                if self.f is not None:
                    self.perform(dict(e="call", o=9999, op="close", n=0, m=0, y=[], l=[]))
            elif k == "final":
                if self.ref is not None and self.ref.fp is not None:
                    self.ref.fp.close()
                b, ok = get(name)
                ref = dict(NONE, t="na")
                if self.ref is not None and not self.noref:
                    ref = dict(NONE, t="b", b=get(refname)[0])
                self.rec("final", b=b, ok=ok, ref=ref)
            elif k == "end":
                if not self.main_end.done():
                    self.main_end.set_result(None)

    r = R(s)
    if s["impl"] == "py" and mod is None:
        r.sched.traced += (_pyio.__file__,)
        aiomisc.io.open = _pyio.open
    if mod in (bz2, lzma):
        r.sched.traced += (mod.__file__,)
    r.begun, r.cancelled, r.ctx = set(), set(), None
    r.ops += [dict(e="adv", t=10), dict(e="fin"), dict(e="adv", t=10), dict(e="final"), dict(e="end")]

    async def main():
        r.setup()
        await r.main_end
    try:
        return r.execute(main, trace_cfg(s))
    finally:
        aiomisc.io.__dict__.pop("open", None)
        r.f = None
        shutil.rmtree(tmp)
