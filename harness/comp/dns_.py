"""aiomisc.service.dns: the store, and the UDP and TCP servers over in-memory transports."""
import asyncio
import random
import struct

SPEC = "Dns"
PROPS = ("D01", "D02")
ENF = '{"D01", "D02"}'
N_QUICK = 2000
N_THOROUGH = 12000
TYPES = ["A", "AAAA", "CNAME", "NS", "PTR", "DNAME", "MX", "TXT", "SOA", "SRV", "CAA", "NAPTR", "DS", "DNSKEY", "NSEC", "HTTPS",
         "RP", "TLSA", "SSHFP", "RRSIG", "LOC"]


def design(tier):
    q = tier == "quick"
    c = dict(Enforce=ENF, Diagnose="FALSE", Depth=5)
    inv = ["Obligations", "OwnNames", "InsideZone"]
    return [dict(module="MCDns", spec="MCSpec", invariants=inv, constraint="Short", timeout=900,
                 constants=dict(c, Labels='{"a"}' if q else '{"a", "b"}', Deep=2, NZones=2, Types='{"A"}', NReqs=1 if q else 0)),
            dict(module="MCDns", spec="MCSpec", invariants=inv, constraint="Short", timeout=900,
                 constants=dict(c, Labels='{"a", "b"}', Deep=1, NZones=2, Types='{"A"}' if q else '{"A", "B"}', NReqs=1))]


def generated(tier):
    return [dict(module="MCDns", num=100 if tier == "quick" else 600, depth=30, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce=ENF, Diagnose="FALSE", Labels='{"a", "b"}', Deep=2, NZones=5,
                                                       Types='{"A"}', NReqs=0, Depth=30))]


def trace_cfg(s):
    return {"m": s["m"]}


def relevant(s, pid):
    return pid == "D01" or s["m"] != "store"


# a name is a list of labels, the most significant first; a record is [name, type, value]
def from_generated(g, rng):
    ops = []

    def rec(r):
        return [r["n"], r["t"], 1]
    for o in g["ops"]:
        e = o["e"]
        o = {k: v for k, v in o.items() if k != "ok"}
        if "r" in o:
            o["r"] = rec(o["r"])
        if "rs" in o:
            o["rs"] = [rec(r) for r in o["rs"]]
        if e == "restore":
            o["zs"] = [dict(z=z["z"], n=z["n"], rs=[rec(r) for r in z["rs"]]) for z in o["zs"]]
        ops.append(o)
        n = [rng.choice("ab") for _ in range(rng.randrange(0, 4))]
        ops.append(dict(e="query", n=n, t="A"))
        if rng.random() < 0.3:
            ops.append(dict(e="getzone", n=n[:2]))
    return dict(m="store", seed=rng.randrange(1 << 30), ops=ops)


def random_script(rng, tier):
    labels = rng.choice([["a", "b"], ["a", "b", "ab", "xa"], ["x", "ax", "example", "com", "xn--e1afmkfd", "_dmarc", "*"]])
    types = rng.choice([["A"], ["A", "TXT"], ["A", "AAAA", "CNAME", "MX", "TXT", "CAA", "SRV"], rng.sample(TYPES, 4)])
    mode = rng.choice(["store", "net", "net"])
    zpool = [[rng.choice(labels) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))] for _ in range(rng.randrange(1, 6))]
    for _ in range(2):
        z = rng.choice(zpool)
        zpool.append(z + [rng.choice(labels) for _ in range(rng.randrange(1, 3))])
    nv = rng.choice([2, 3, 60])

    def name():
        r = rng.random()
        if r < 0.3:
            return list(rng.choice(zpool))
        n = list(rng.choice(zpool)) + [rng.choice(labels) for _ in range(rng.choice([1, 1, 2, 3]))]
        if r > 0.93 and n:
            n[0] = rng.choice(labels)
        return n

    def rec():
        n = name()
        while not n:
            n = name()
        return [n, rng.choice(types), rng.randrange(1, nv + 1)]
    names = [name() for _ in range(5)]
    ops, nz = [], 0
    for _ in range(rng.randrange(6, 40)):
        k = rng.choices(["mkzone", "addzone", "rmzone", "addrec", "many", "rmrec", "rezone", "restore", "getzone", "query"],
                        [2, 3, 1, 6, 2 if nv > 9 else 0.5, 1, 0.5, 0.3, 0.5, 5])[0]
        if k == "mkzone" or not nz:
            nz += 1
            n = rng.choice(zpool)
            ops.append(dict(e="mkzone", z=nz, n=n))
            if rng.random() < 0.8:
                ops.append(dict(e="addzone", z=nz))
            continue
        z = rng.randrange(1, nz + 1)
        if k == "addzone":
            ops.append(dict(e=k, z=z))
        elif k == "rmzone":
            ops.append(dict(e=k, n=rng.choice(zpool)))
        elif k in ("addrec", "rmrec"):
            r = rec()
            ops.append(dict(e=k, z=z, r=r))
            names.append(r[0])
        elif k == "many":
            r = rec()
            names += [r[0]] * 3
            for v in range(rng.choice([3, 20, 60])):
                ops.append(dict(e="addrec", z=z, r=[r[0], r[1], v + 1]))
        elif k == "rezone":
            ops.append(dict(e=k, z=z, rs=[rec() for _ in range(rng.randrange(0, 4))]))
        elif k == "restore":
            zs = []
            seen = []
            for _ in range(rng.randrange(0, 4)):
                n = rng.choice(zpool)
                if n not in seen:
                    seen.append(n)
                    nz += 1
                    zs.append(dict(z=nz, n=n, rs=[[n + [rng.choice(labels)], rng.choice(types), 1]
                                                  for _ in range(rng.randrange(0, 3))]))
            if zs and rng.random() < 0.2:
                zs[-1]["rs"].append(rec())
            ops.append(dict(e=k, zs=zs))
        elif k == "getzone":
            ops.append(dict(e=k, n=rng.choice(zpool)))
        else:
            ops.append(dict(e=k, n=rng.choice(names) if rng.random() < 0.8 else name(), t=rng.choice(types)))
        if mode == "net" and rng.random() < 0.5:
            net(rng, ops, names, name, types)
    if mode == "net":
        for _ in range(3):
            net(rng, ops, names, name, types)
    return dict(m=mode, seed=rng.randrange(1 << 30), ops=ops)


def net(rng, ops, names, name, types):
    for _ in range(rng.randrange(1, 4)):
        n = rng.choice(names) if rng.random() < 0.9 else name()
        o = dict(e=rng.choice(["udp", "udp", "tcp", "tcp", "tcp"]), c=rng.randrange(1, 4), n=n, t=rng.choice(types + types + ["?"]),
                 edns=rng.choice([None, None, 0, 100, 512, 513, 700, 1232, 4096, 65535]), frag=rng.choice([0, 0, 0.3, 1]))
        if rng.random() < 0.07:
            o["bad"] = rng.choice(["cut", "junk", "empty", "eof", "zero"])
        ops.append(o)
    if rng.random() < 0.5:
        ops.append(dict(e="flush"))


def make(R, r):
    n, t, v = r
    name = ".".join(reversed(n)) + "."
    ttl = 100 + v
    b = "%02x" % v
    return dict(
        A=lambda: R.A.create(name, "10.0.0.%d" % v, ttl), AAAA=lambda: R.AAAA.create(name, "::%d" % v, ttl),
        CNAME=lambda: R.CNAME.create(name, "c%d.q." % v, ttl), NS=lambda: R.NS.create(name, "c%d.q." % v, ttl),
        PTR=lambda: R.PTR.create(name, "c%d.q." % v, ttl), DNAME=lambda: R.DNAME.create(name, "c%d.q." % v, ttl),
        MX=lambda: R.MX.create(name, "m.q.", v, ttl), TXT=lambda: R.TXT.create(name, "text %d" % v, ttl),
        SOA=lambda: R.SOA.create(name, "m.q.", "r.q.", v, 2, 3, 4, 5, ttl), SRV=lambda: R.SRV.create(name, v, 1, 80, "t.q.", ttl),
        CAA=lambda: R.CAA.create(name, v, "issue", "q", ttl),
        NAPTR=lambda: R.NAPTR.create(name, v, 1, "U", "E2U+sip", "!^.*$!sip:i@e.c!", ".", ttl),
        DS=lambda: R.DS.create(name, v, 1, 2, "aabb", ttl), DNSKEY=lambda: R.DNSKEY.create(name, 256, 3, v, "aabb", ttl),
        NSEC=lambda: R.NSEC.create(name, "n%d.q." % v, [1, 2], ttl), HTTPS=lambda: R.HTTPS.create(name, v, "t.q.", ["alpn=h2,h3", "port=443"], ttl),
        RP=lambda: R.RP.create(name, "m%d.q." % v, "t.q.", ttl), TLSA=lambda: R.TLSA.create(name, 1, 1, 1, "aa" + b, ttl),
        SSHFP=lambda: R.SSHFP.create(name, 1, 1, "aa" + b, ttl),
        RRSIG=lambda: R.RRSIG.create(name, 1, 5, 2, v, 1700000000, 1600000000, 5, "s.q.", "aabb", ttl),
        LOC=lambda: R.LOC.create(name, float(v), 3.0, 10.0, 1.0, 10000.0, 10.0, ttl),
    )[t]()


def run_script(s):
    import dnslib
    from harness.fakenet import NetLoop
    from harness.vloop import Recorder, run_virtual

    from aiomisc.service import dns
    from aiomisc.service.dns import records as R
    from aiomisc.service.dns.store import DNSStore
    from aiomisc.service.dns.zone import DNSZone
    rng = random.Random(s["seed"])
    rec = Recorder()
    ids = {}

    def rid(r):
        return "%s/%s/%d" % (".".join(r[0]), r[1], r[2])

    def ev(r):
        # two objects are equal when what they were made of is
        return dict(id=rid(r), n=r[0], t=r[1])

    def learn(r):
        x = make(R, r)
        rr = dnslib.RR(rname=x.name, rtype=int(x.type), rclass=1, ttl=x.ttl, rdata=x.data)
        ids[str(rr.rname), rr.rtype, rr.ttl, packed(rr)] = rid(r)
        return x

    def packed(rr):
        b = dnslib.DNSBuffer()
        rr.rdata.pack(b)
        return bytes(b.data)

    def name(n, dot=None):
        x = ".".join(reversed(n))
        if not n or (dot if dot is not None else rng.random() < 0.5):
            x += "."
        return x

    reals = {}

    def real(r):
        k = rid(r)
        if k not in reals:
            reals[k] = learn(r)
            by[str(reals[k].name), int(reals[k].type), repr(reals[k].data), reals[k].ttl] = k
        return learn(r)
    by = {}

    def idof(x):
        return by.get((x.name, int(x.type), repr(x.data), x.ttl), "?")

    store = DNSStore()
    zones = {}

    def tried(f, *a):
        try:
            f(*a)
            return True
        except ValueError:
            return False

    def storeop(op):
        e = op["e"]
        if e == "mkzone":
            zones[op["z"]] = DNSZone(name(op["n"]))
            rec(e, z=op["z"], n=op["n"])
        elif e == "addrec":
            z = zones.get(op["z"])
            if z is not None:
                rec(e, z=op["z"], r=ev(op["r"]), ok=tried(z.add_record, real(op["r"])))
        elif e == "rmrec":
            z = zones.get(op["z"])
            if z is not None:
                z.remove_record(real(op["r"]))
                rec(e, z=op["z"], r=ev(op["r"]))
        elif e == "rezone":
            z = zones.get(op["z"])
            if z is not None:
                rs = [real(r) for r in op["rs"]]
                rec(e, z=op["z"], rs=[ev(r) for r in op["rs"]], ok=tried(z.replace, rng.choice([rs, tuple(rs), iter(rs)])))
        elif e == "addzone":
            z = zones.get(op["z"])
            if z is not None:
                rec(e, z=op["z"], ok=tried(store.add_zone, z))
        elif e == "rmzone":
            rec(e, n=op["n"], ok=tried(store.remove_zone, name(op["n"])))
        elif e == "restore":
            names = {z["z"]: name(z["n"]) for z in op["zs"]}
            ok = tried(store.replace, {names[z["z"]]: [real(r) for r in z["rs"]] for z in op["zs"]})
            rec(e, zs=[dict(z=z["z"], n=z["n"], rs=[ev(r) for r in z["rs"]]) for z in op["zs"]], ok=ok)
            for z in op["zs"]:
                if ok:
                    zones[z["z"]] = store.get_zone(name(z["n"]))
        elif e == "getzone":
            x = store.get_zone(name(op["n"]))
            rec(e, n=op["n"], z=0 if x is None else next((k for k, z in zones.items() if z is x), -1))
        elif e == "query":
            got = store.query(name(op["n"]), R.RecordType[op["t"]])
            rec(e, n=op["n"], t=op["t"], ids=[idof(x) for x in got], len=len(got))
        else:
            return False
        return True

    async def main(loop):
        if s["m"] == "store":
            for op in s["ops"]:
                storeop(op)
            rec.frozen = True
            return
        udp = dns.UDPDNSServer(store=store, address="127.0.0.1", port=0)
        tcp = dns.TCPDNSServer(store=store, address="127.0.0.1", port=0)
        udp.set_loop(loop)
        tcp.set_loop(loop)
        await udp.start()
        await tcp.start()
        await loop.settle()
        dg, server = loop.datagrams[0], loop.servers[0]
        conns = {}
        num = [0]
        sentq = {}

        def answered(c, data, kind):
            f = dict(i=-1, q=False, aa=False, rc=-1, ids=[], len=0, tc=False, size=len(data))
            try:
                p = dnslib.DNSRecord.parse(data)
            except Exception:
                rec("junk", c=c)
                return
            f["i"] = p.header.id
            q = sentq.get(p.header.id)
            f["q"] = bool(q is not None and p.header.qr == 1 and len(p.questions) == 1 and p.questions[0] == q.questions[0] and
                          str(p.questions[0].qname) == str(q.questions[0].qname))
            f["aa"], f["rc"], f["tc"] = bool(p.header.aa), p.header.rcode, bool(p.header.tc)
            f["ids"] = [ids.get((str(r.rname), r.rtype, r.ttl, packed(r)), "?") if r.rclass == 1 else "?" for r in p.rr]
            f["len"] = len(p.rr)
            rec("reply", c=c, **f)

        def on_send(data, addr):
            answered(addr[1], data, "udp")
        dg.on_send = on_send

        def connect(c):
            t = server.connect(peername=("10.0.0.1", c))
            buf = bytearray()

            def written(data):
                buf.extend(data)
                while len(buf) >= 2:
                    n = struct.unpack("!H", bytes(buf[:2]))[0]
                    if len(buf) < n + 2:
                        break
                    d = bytes(buf[2:n + 2])
                    del buf[:n + 2]
                    answered(c, d, "tcp")
            t.on_write = written
            t.out_left = bytearray()
            return t

        def question(op):
            num[0] += 1
            i = num[0] + 1000
            t = R.RecordType[op["t"]] if op["t"] != "?" else 65399
            q = dnslib.DNSRecord(dnslib.DNSHeader(id=i, rd=rng.randrange(2)),
                                 q=dnslib.DNSQuestion(name(op["n"], True), int(t)))
            ars = [dnslib.EDNS0(udp_len=op["edns"], flags=rng.choice(["", "do"]))] if op["edns"] is not None else []
            while rng.random() < 0.25:
                # something else in the additional section
                ars.insert(rng.randrange(len(ars) + 1), dnslib.RR("x.test.", dnslib.QTYPE.TXT, rdata=dnslib.TXT("x")))
            q.add_ar(*ars)
            sentq[i] = q
            # what the whole answer takes
            full = q.reply()
            if op["edns"] is not None:
                full.add_ar(dnslib.EDNS0(udp_len=op["edns"]))
            for x in (store.query(name(op["n"]), t) if op["t"] != "?" else ()):
                full.add_answer(x.rr(int(t)))
            return i, q.pack(), len(full.pack())

        def damaged(data, how):
            if how == "cut":
                return data[:rng.randrange(0, 12)]
            if how == "junk":
                return bytes([255]) * rng.randrange(1, 12)
            return b""

        async def tcpsend(op):
            c = op["c"]
            t = conns.get(c)
            if t is None or t.closing or c in dead:
                if c in dead:
                    return
                t = conns[c] = connect(10 + c)
            i, data, size = question(op)
            if op.get("bad"):
                rec("badreq", c=10 + c)
                dead.add(c)
                if op["bad"] == "eof":
                    m = struct.pack("!H", len(data)) + data
                    t.feed(m[:rng.randrange(1, len(m))])
                    t.feed_eof()
                else:
                    d = damaged(data, op["bad"])
                    t.feed(struct.pack("!H", len(d)) + d)
                return
            m = struct.pack("!H", len(data)) + data
            while m:
                n = rng.randrange(1, len(m) + 1) if rng.random() < op["frag"] else len(m)
                if n == len(m):
                    rec("req", c=10 + c, i=i, n=op["n"], t=op["t"], k="tcp", lim=65535, big=False)
                t.feed(m[:n])
                m = m[n:]
                if m and rng.random() < 0.5:
                    await loop.settle()
            if rng.random() < 0.05:
                await loop.settle()
                rec("hup", c=10 + c)
                dead.add(c)
                t.force(ConnectionResetError())
        dead = set()

        def udpsend(op):
            c = op["c"]
            i, data, size = question(op)
            if op.get("bad") in ("cut", "junk", "empty"):
                # not from this client, as far as the specification can tell
                dg.feed(damaged(data, op["bad"]) or b"x", ("10.0.0.1", 50 + c))
                return
            lim = max(512, op["edns"] or 0)
            rec("req", c=100 + num[0], i=i, n=op["n"], t=op["t"], k="udp", lim=lim, big=size > lim)
            dg.feed(data, ("10.0.0.1", 100 + num[0]))

        for op in s["ops"]:
            if op["e"] in ("udp", "tcp", "flush"):
                if op["e"] == "udp":
                    udpsend(op)
                elif op["e"] == "tcp":
                    await tcpsend(op)
                else:
                    await loop.settle()
            else:
                await loop.settle()
                storeop(op)
        await loop.settle()
        rec.frozen = True

    status = run_virtual(main, rec, loop=NetLoop())
    return rec.finish(status, trace_cfg(s))
