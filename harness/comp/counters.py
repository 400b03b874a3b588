"""The statistics registry itself."""
import random

SPEC = "Counters"
PROPS = ("T01",)
N_QUICK = 800
N_THOROUGH = 5000


def design(tier):
    q = tier == "quick"
    return [dict(module="MCCounters", spec="MCSpec", constraint="Small", invariants=["Nested", "NestedTwice", "Disjoint", "All"],
                 constants=dict(Enforce='{"T01"}', Diagnose="FALSE", N=2, V=1 if q else 2, Depth=5))]


def generated(tier):
    return [dict(module="MCCounters", num=150 if tier == "quick" else 1000, depth=25, init="MCInit", next_="GenNext",
                 constraint="GenPrint", constants=dict(Enforce='{"T01"}', Diagnose="FALSE", N=4, V=7, Depth=25))]


def from_generated(g, rng):
    return dict(seed=rng.randrange(1 << 30), ops=g["ops"])


METRICS = {"base": "ab", "child": "abc", "grand": "abcg", "other": "abz", "alone": "ab"}


def random_script(rng, tier):
    ops, live, n = [], {}, 0
    for _ in range(rng.randrange(4, 40)):
        r = rng.random()
        if r < 0.2 or not live:
            n += 1
            live[n] = rng.choice(list(METRICS))
            ops.append(dict(e="new", i=n, kind=live[n], name=rng.choice(["", "n%d" % n, "n", "m"])))
        elif r < 0.27:
            i = rng.choice(list(live))
            del live[i]
            ops.append(dict(e="drop", i=i))
        else:
            i = rng.choice(list(live))
            ops.append(dict(e="op", i=i, m=rng.choice(METRICS[live[i]]), o=rng.choice(["add", "add", "sub", "set"]),
                            v=rng.choice([0, 1, 1, 2, 10, 100])))
    return dict(seed=rng.randrange(1 << 30), ops=ops)


def trace_cfg(s):
    return {"x": 0}


def run_script(s):
    from aiomisc.counters import Statistic, get_statistics
    rng = random.Random(s["seed"])

    class Base(Statistic):
        a: int
        b: float
        note: str

    class Child(Base):
        c: int

    class Middle(Child):
        pass

    class Grand(Middle):
        g: float

    class Other(Base):
        z: float

    class Alone(Statistic):
        a: int
        b: float

    kinds = {"base": Base, "child": Child, "grand": Grand, "other": Other, "alone": Alone}
    back = {v: k for k, v in kinds.items()}
    ev, live = [], {}
    def query():
        ks = rng.choice([["base"], ["child"], ["other"], ["alone"], ["child", "alone"], ["other", "child"], ["base", "child"], ["grand"], ["alone", "grand"], []])
        res = []
        for r in get_statistics(*[kinds[k] for k in ks]):
            kind, name, metric, value = r
            if kind not in back:
                if ks:
                    res.append([kind.__name__, str(name), metric, value])
                continue
            assert (r.kind, r.name, r.metric, r.value) == (kind, name, metric, value)
            res.append([back[kind], name or "", metric, value])
        ev.append(dict(e="query", kinds=ks, res=res))

    try:
        for op in s["ops"]:
            k = op["e"]
            if k == "new":
                name = op["name"]
                live[op["i"]] = kinds[op["kind"]](name) if name else kinds[op["kind"]]()
                ev.append(dict(e="new", i=op["i"], kind=op["kind"], name=name))
            elif k == "op":
                o, m, v = live[op["i"]], op["m"], op["v"]
                if op["o"] == "add":
                    x = getattr(o, m)
                    x += v
                    setattr(o, m, x)
                elif op["o"] == "sub":
                    x = getattr(o, m)
                    x -= v
                    setattr(o, m, x)
                else:
                    setattr(o, m, v)
                o = x = None
                ev.append(op)
                if rng.random() < 0.3:
                    v = rng.choice([v, 0, 1])
                    ev.append(dict(e="eq", i=op["i"], m=m, v=v, r=bool(getattr(live[op["i"]], m) == v)))
            else:
                del live[op["i"]]
                ev.append(op)
            if rng.random() < 0.4:
                query()
        query()
    except Exception as e:
        ev.append(dict(e="raised_" + type(e).__name__))
    return dict(cfg=trace_cfg(s), ev=ev)
