"""aiomisc.service: TCPServer, TLSServer and UDPServer over in-memory transports."""
import asyncio
import random
import socket
import struct

SPEC = "Server"
PROPS = ("N01",)
ENF = '{"N01"}'
N_QUICK = 3000
N_THOROUGH = 30000


def design(tier):
    q = tier == "quick"
    return [dict(module="MCServer", spec="MCSpec", invariants=["Obligations", "DownIsDown"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", NClients=2 if q else 3, NData=1, NStops=2, Depth=5,
                                Modes='{"stream", "dgram"}')),
            dict(module="MCServer", spec="MCSpec", invariants=["Obligations", "DownIsDown"], timeout=900,
                 constants=dict(Enforce=ENF, Diagnose="FALSE", NClients=2, NData=2 if q else 3, NStops=1, Depth=5,
                                Modes='{"stream"}'))]


def generated(tier):
    c = dict(Enforce=ENF, Diagnose="FALSE", Modes='{"stream", "dgram"}')
    k = 1 if tier == "quick" else 8
    g = dict(module="MCServer", init="MCInit", next_="GenNext", constraint="GenPrint")
    return [dict(g, num=150 * k, depth=40, constants=dict(c, NClients=6, NData=3, NStops=0, Depth=40)),
            dict(g, num=400 * k, depth=14, constants=dict(c, NClients=4, NData=1, NStops=2, Depth=14))]


def trace_cfg(s):
    return {"m": "dgram" if s["m"] == "udp" else "stream"}


def relevant(s, pid):
    return True


def client(rng, m):
    return dict(slow=rng.random() < 0.4, close=rng.random() < 0.4, sync=rng.random() < 0.15, frag=rng.random() < 0.3,
                delay=rng.choice([0, 0, 1, 2, 3]), how=rng.choice(["ok", "fail"]), err=rng.choice([0, 0, 1, 2, 3]))


def from_generated(g, rng):
    m = "udp" if g["cfg"]["m"] == "dgram" else rng.choice(["tcp", "tls"])
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if o["e"] in ("come", "dgram"):
            o.update(client(rng, m), sync=False, e="come")
        o.pop("x", None)
        ops.append(o)
    return dict(m=m, seed=rng.randrange(1 << 30), burst=rng.choice([0.0, 0.5, 1.0]), ops=ops)


def random_script(rng, tier):
    m = rng.choice(["tcp", "tcp", "tls", "udp"])
    ops, n, s = [], 0, 0
    length = rng.randrange(4, 40)
    pstop = rng.choice([0.02, 0.1])
    for j in range(length):
        k = rng.choices(["come", "data", "hup", "end", "released", "stop"], [4, 6, 1, 3, 1, 100 * pstop / 6])[0]
        if k == "come":
            n += 1
            ops.append(dict(client(rng, m), e="come", c=n))
        elif k == "stop":
            s += 1
            ops.append(dict(e="stop", s=s))
        elif n:
            o = dict(e=k, c=rng.randrange(max(1, n - 3), n + 1))
            if k == "end":
                o["k"] = rng.choice(["ok", "ok", "fail"])
            if k == "hup":
                o["how"] = rng.choice(["eof", "reset", "closed"])
            ops.append(o)
    return dict(m=m, seed=rng.randrange(1 << 30), burst=rng.choice([0.0, 0.3, 0.7, 1.0]), ops=ops)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def run_script(s):
    from harness.fakenet import NetLoop
    from harness.vloop import Recorder, run_virtual

    from aiomisc.service import TCPServer, TLSServer, UDPServer
    rec = Recorder()
    rng = random.Random(s["seed"])
    udp = s["m"] == "udp"

    async def main(loop):
        info, gates, exits, conns, count, ended = {}, {}, {}, {}, {}, set()

        def begin(c, x):
            rec("call", c=c, x=x)
            if info[c]["sync"]:
                return
            gates[c] = loop.create_future()

        def sync_end(c):
            rec("end", c=c, k=info[c]["how"])
            rec("fin", c=c)
            if info[c]["how"] == "fail":
                raise Boom()

        async def body(c, reader, writer):
            try:
                await inner(c, reader, writer)
            except Boom:
                # what it waited for may have been cancelled by others
                raise [Boom, asyncio.CancelledError, BaseBoom, ConnectionResetError][info[c].get("err", 0)]()

        async def inner(c, reader, writer):
            rd = None
            try:
                while True:
                    if rd is None and reader is not None:
                        rd = asyncio.ensure_future(reader.readexactly(4))
                    await asyncio.wait({gates[c], rd} - {None}, return_when=asyncio.FIRST_COMPLETED)
                    if rd is not None and rd.done():
                        try:
                            x = struct.unpack("!L", rd.result())[0]
                        except Exception:
                            reader = None
                        else:
                            rec("got", c=c, x=x)
                            writer.write(struct.pack("!L", x))
                        rd = None
                        continue
                    if gates[c].done():
                        if gates[c].result() == "fail":
                            raise Boom()
                        if info[c]["close"] and writer is not None:
                            writer.close()
                        return
            except asyncio.CancelledError:
                rec("cancel", c=c)
                ended.add(c)
                if info[c]["slow"]:
                    exits[c] = loop.create_future()
                    try:
                        await exits[c]
                    except asyncio.CancelledError:
                        if not exits[c].done() or exits[c].cancelled():
                            rec("released", c=c)
                else:
                    rec("released", c=c)
                raise
            finally:
                ended.add(c)
                rec("fin", c=c)
                if rd is not None:
                    rd.cancel()

        class Stream:
            def handle_client(self, reader, writer):
                c = writer.get_extra_info("peername")[1]
                begin(c, 0)
                if info[c]["sync"]:
                    return sync_end(c)
                return body(c, reader, writer)

        class T(Stream, TCPServer):
            pass

        class L(Stream, TLSServer):
            pass

        class U(UDPServer):
            def handle_datagram(self, data, addr):
                c, x = addr[1], struct.unpack("!L", data)[0]

                def start():
                    begin(c, x)
                    rec("got", c=c, x=x)
                    self.sendto(data, addr)

                async def run():
                    start()
                    await body(c, None, None)
                if info[c]["sync"]:
                    start()
                    return sync_end(c)
                return run()

        sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM if udp else socket.SOCK_STREAM)
        if udp:
            svc = U(sock=sock)
        elif s["m"] == "tcp":
            svc = T(sock=sock)
        else:
            svc = L(sock=sock, cert="", key="")
        svc.set_loop(loop)
        await svc.start()
        stops = []

        async def stop(i):
            await svc.stop()
            rec("stopped", s=i)

        def come(op):
            c = op["c"]
            if c in info:
                return
            info[c] = op
            if udp:
                t = loop.datagrams[0]
                if t.closing:
                    return
                x = rng.randrange(1 << 20)
                rec("dgram", c=c, x=x)
                rec.ev[-1]["e"] = "dgram"

                def send(data, addr):
                    rec("sent", c=addr[1], x=struct.unpack("!L", data)[0])
                t.on_send = send
                try:
                    t.feed(struct.pack("!L", x), ("10.0.0.1", c))
                except Boom:
                    pass
                return
            server = loop.servers[0]
            if server.closed:
                rec("refused", c=c)
                return
            rec("come", c=c)
            out = bytearray()

            def written(data):
                out.extend(data)
                while len(out) >= 4:
                    rec("sent", c=c, x=struct.unpack("!L", bytes(out[:4]))[0])
                    del out[:4]
            t = conns[c] = server.connect(op["delay"], peername=("10.0.0.1", c))
            t.on_write = written
            t.on_closed = lambda: rec("closed", c=c)

        for op in s["ops"]:
            e = op["e"]
            if e == "come":
                come(op)
            elif e == "data":
                t = conns.get(op["c"])
                if t is None or t.closing or t.peer_gone:
                    continue
                count[op["c"]] = x = count.get(op["c"], op["c"] << 8) + 1
                d = struct.pack("!L", x)
                if info[op["c"]]["frag"]:
                    k = rng.randrange(1, 4)
                    t.feed(d[:k])
                    await loop.settle()
                    if t.closing:
                        continue
                    d = d[k:]
                rec("data", c=op["c"], x=x)
                t.feed(d)
            elif e == "hup":
                t = conns.get(op["c"])
                if t is None or t.closing or t.peer_gone:
                    continue
                rec("hup", c=op["c"])
                t.peer_gone = True
                if op.get("how", "eof") == "eof":
                    t.peer_gone = True
                    t.feed_eof()
                else:
                    t.force(ConnectionResetError() if op["how"] == "reset" else None)
            elif e == "end":
                g = gates.get(op["c"])
                if g is None or g.done() or op["c"] in ended:
                    continue
                rec("end", c=op["c"], k=op["k"])
                g.set_result(op["k"])
            elif e == "released":
                g = exits.get(op["c"])
                if g is None or g.done():
                    continue
                rec("released", c=op["c"])
                g.set_result(None)
            elif e == "stop":
                rec("stop", s=op["s"])
                stops.append(loop.create_task(stop(op["s"])))
            if rng.random() >= s["burst"]:
                await loop.settle()
        await loop.settle()
        if not stops:
            rec("stop", s=99)
            stops.append(loop.create_task(stop(99)))
            await loop.settle()
        for c, g in list(exits.items()):
            if not g.done():
                rec("released", c=c)
                g.set_result(None)
        await loop.settle()
        for c, g in list(exits.items()):
            if not g.done():
                rec("released", c=c)
                g.set_result(None)
        await loop.settle()
        come(dict(client(rng, s["m"]), e="come", c=1000))
        await loop.settle()
        rec.frozen = True

    status = run_virtual(main, rec, loop=NetLoop())
    return rec.finish(status, trace_cfg(s))
