"""The packets of aiomisc_worker.protocol over streams split anywhere."""
import asyncio
import io
import random

SPEC = "Framing"
PROPS = ("W03",)
ENF = '{"W03"}'
N_QUICK = 3000
N_THOROUGH = 20000
KINDS = ["async", "socket", "file"]


def design(tier):
    q = tier == "quick"
    return [dict(module="MCFraming", spec="MCSpec", invariants=["Obligations", "Prefix"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", Depth=5, NPackets=3 if q else 4, Lens="{2, 3}" if q else "{1, 2, 5}"))]


def generated(tier):
    return [dict(module="MCFraming", num=150 if tier == "quick" else 1000, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", NPackets=5, Lens="{5, 9}", Depth=30))]


def trace_cfg(s):
    return {"w": s["w"], "r": s["r"]}


def _size(rng):
    return rng.choice([0, 1, 2, 5, 100, 230, 255, 256, 257, 1000, 4096, 65500, 65536, 70000, 140000])


def from_generated(g, rng):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] == "send":
            o["n"] = rng.choice([0, 1, 3, 40])
        elif o["e"] == "chunk":
            o["n"] = rng.choice([o["n"], o["n"], 4, 5, 20])
        ops.append(o)
    return _with(rng, ops)


def _with(rng, ops):
    return dict(w=rng.choice(KINDS), r=rng.choice(KINDS), seed=rng.randrange(1 << 30), part=rng.choice([0, 0, 0.5, 1]),
                ops=ops)


def random_script(rng, tier):
    big = rng.random() < 0.3
    ops, i = [], 0
    kinds, weights = zip(*dict(send=3, chunk=rng.choice([2, 5]), recv=3, flush=rng.choice([0, 1]),
                               eof=rng.choice([0, 0, 0.1])).items())
    for _ in range(rng.randrange(4, 40)):
        k = rng.choices(kinds, weights)[0]
        o = dict(e=k)
        if k == "send":
            i += 1
            o.update(i=i, n=_size(rng) if big else rng.choice([0, 1, 2, 5, 30, 240, 300]))
        elif k == "chunk":
            o.update(n=rng.choice([1, 1, 2, 3, 4, 5, 10, 50, 300] + [5000, 65535, 65536, 100000] * big))
        ops.append(o)
    return _with(rng, ops)


def fixed_scripts(tier):
    out = []
    for w in KINDS:
        for r in KINDS:
            out.append(dict(w=w, r=r, seed=1, part=0, ops=[dict(e="send", i=1, n=(1 << 24) + 5), dict(e="recv"), dict(e="flush")]))
    return out


class Block(BaseException):
    pass


class Packet:
    """What is sent; its pickle has about n bytes."""

    def __init__(self, i, data):
        self.i, self.data = i, data


def run_script(s):
    from harness.fakenet import Transport
    from harness.vloop import Recorder, VirtualLoop, run_virtual

    from aiomisc_worker.protocol import AsyncProtocol, FileIOProtocol, SocketIOProtocol
    rng = random.Random(s["seed"])
    rec = Recorder()
    wire = bytearray()        # written, not yet delivered
    inbox = bytearray()       # delivered, not yet read (synchronous readers)
    state = dict(eof=False, asking=False, sent=0)
    packets = {}

    def put(data):
        data = bytes(data)
        if data:
            rec("wire", n=len(data))
            wire.extend(data)

    def part(n):
        if s["part"] and rng.random() < s["part"] and n > 1:
            return rng.randrange(1, n)
        return n

    class Sock:
        def send(self, data, flags=0):
            n = part(len(data))
            put(bytes(data)[:n])
            return n

        def sendall(self, data, flags=0):
            put(data)

        def recv(self, n, flags=0):
            if not inbox:
                if state["eof"]:
                    return b""
                raise Block
            n = min(part(n), len(inbox))
            d = bytes(inbox[:n])
            del inbox[:n]
            return d

        def recv_into(self, buf, n=0, flags=0):
            d = self.recv(n or len(buf))
            buf[:len(d)] = d
            return len(d)

    class RawOut(io.RawIOBase):
        def writable(self):
            return True

        def write(self, b):
            n = part(len(b))
            put(bytes(b[:n]))
            return n

    class In(io.BufferedIOBase):
        def readable(self):
            return True

        def read(self, n=-1):
            out = b""
            while n < 0 or len(out) < n:
                if not inbox:
                    if state["eof"]:
                        break
                    raise Block
                k = len(inbox) if n < 0 else min(n - len(out), len(inbox))
                out += bytes(inbox[:k])
                del inbox[:k]
            return out

        def read1(self, n=-1):
            return self.read(part(min(max(n, 0) or 1, max(1, len(inbox)))))

    async def main(loop):
        reader = asyncio.StreamReader(limit=rng.choice([16, 1000, 2 ** 16]), loop=loop)
        t = Transport(loop)
        t.on_write = put
        rproto = asyncio.StreamReaderProtocol(reader, loop=loop)
        t.protocol = rproto
        rproto.connection_made(t)
        writer = asyncio.StreamWriter(t, rproto, reader, loop)
        ap = AsyncProtocol(reader, writer)
        sp = SocketIOProtocol(Sock())
        out = io.BufferedWriter(RawOut())
        fp_out = FileIOProtocol(out)
        fp_in = FileIOProtocol(In())
        tasks = []

        def arrived(p):
            state["asking"] = False
            i = getattr(p, "i", None)
            rec("got", i=i if i in packets else -1, ok=i in packets and packets[i] == p.data)

        async def send(i, n):
            data = bytes(rng.randrange(256) for _ in range(16)) * (n // 16 + 1)
            data = data[:n]
            packets[i] = data
            p = Packet(i, data)
            size = len(ap._pack(p))
            rec("send", i=i, n=size)
            if s["w"] == "async":
                await ap.send(p)
            elif s["w"] == "socket":
                sp.send(p)
            else:
                fp_out.send(p)
                out.flush()
            rec("sent", i=i)

        async def receive():
            try:
                p = await ap.receive()
            except Exception:
                state["asking"] = False
                rec("err")
            else:
                arrived(p)

        def sync_receive():
            if not state["asking"]:
                return
            need_restart = bytes(inbox)
            try:
                p = (sp if s["r"] == "socket" else fp_in).receive()
            except Block:
                # a blocking call: it is made anew with all that has come so far
                inbox[:] = need_restart
            except Exception:
                state["asking"] = False
                rec("err")
            else:
                arrived(p)

        def deliver(n):
            n = min(n, len(wire))
            if not n or state["eof"]:
                return
            d = bytes(wire[:n])
            del wire[:n]
            rec("chunk", n=n)
            if s["r"] == "async":
                t.feed(d)
            else:
                inbox.extend(d)
                sync_receive()

        for op in s["ops"] + [dict(e="flush"), dict(e="recv"), dict(e="recv"), dict(e="eof"), dict(e="recv"), dict(e="recv")]:
            e = op["e"]
            if e == "send":
                if state["eof"]:
                    continue
                state["sent"] += 1
                await send(state["sent"], op["n"])
            elif e == "chunk":
                deliver(op["n"])
            elif e == "flush":
                deliver(len(wire))
            elif e == "eof":
                if state["eof"]:
                    continue
                state["eof"] = True
                rec("eof")
                if s["r"] == "async":
                    if rng.random() < 0.5 or not t.reading or t.pending:
                        t.feed_eof()
                    else:
                        t.force(None)
                else:
                    sync_receive()
            elif e == "recv":
                if state["asking"]:
                    continue
                state["asking"] = True
                rec("recv")
                if s["r"] == "async":
                    tasks.append(loop.create_task(receive()))
                else:
                    sync_receive()
            await loop.settle()
        rec.frozen = True

    status = run_virtual(main, rec, loop=VirtualLoop())
    return rec.finish(status, trace_cfg(s))
