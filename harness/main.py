"""Entry point of every check:   check <PROPERTY> <quick|thorough>

For each component specification the property lives in:
  1. TLC checks the specification itself (exhaustively, bounded constants);
  2. TLC generates behaviours of it; their environment part, and further randomly
     generated environment scripts, are executed on the real code;
  3. TLC checks every recorded execution against the specification, with the
     clauses of this property enforced.
"""
import collections
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))

from harness import tlc  # noqa: E402
from harness.registry import REGISTRY  # noqa: E402

PY = sys.executable
NPROC = min(8, os.cpu_count() or 2)


def child_env(comp):
    e = dict(os.environ)
    e.update(PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONWARNINGS="ignore", AIOMISC_USE_UVLOOP="0")
    e.update(getattr(comp, "ENV", {}))
    return e


def _exec_share(name, comp, share, limit):
    """Execute [(idx, script)]; survives crashes and hangs of the child."""
    results = {}
    todo = list(share)
    tmp = Path(tempfile.mkdtemp(prefix="exec-"))
    try:
        rounds = 0
        while todo and rounds < 4:
            rounds += 1
            src, dst, err = tmp / "in.json", tmp / "out.ndjson", tmp / "err"
            src.write_text(json.dumps(todo))
            dst.write_text("")
            with err.open("w") as ef:
                p = subprocess.Popen(
                    [PY, str(VERIF / "harness" / "exec.py"), name, str(src), str(dst)],
                    env=child_env(comp), cwd=str(tmp), stdin=subprocess.DEVNULL,
                    stdout=ef, stderr=ef, start_new_session=True)
                try:
                    p.wait(limit)
                except subprocess.TimeoutExpired:
                    pass
                finally:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
            began, done = None, False
            for line in dst.read_text().splitlines():
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "begin" in d:
                    began = d["begin"]
                elif "idx" in d:
                    results[d["idx"]] = d["trace"]
                    began = None
                elif "done" in d:
                    done = True
            if done:
                break
            if began is None and not results:
                raise tlc.MachineryError("driver %s did not start:\n%s" % (name, err.read_text()[-3000:]))
            if began is not None:
                s = dict(todo)[began]
                results[began] = dict(cfg=comp.trace_cfg(s), ev=[{"e": "crash"}],
                                      error=err.read_text()[-2000:])
            todo = [(i, s) for i, s in todo if i not in results]
        return results
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def execute(name, comp, scripts, limit=240):
    nproc = min(getattr(comp, "PROCS", NPROC), max(1, len(scripts)))
    shares = [[] for _ in range(nproc)]
    for i, s in enumerate(scripts):
        shares[i % nproc].append((i, s))
    out = {}
    with ThreadPoolExecutor(max_workers=nproc) as ex:
        for r in ex.map(lambda sh: _exec_share(name, comp, sh, limit), shares):
            out.update(r)
    return out


def known_findings():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["known"]


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.design_states = 0
        self.events = collections.Counter()
        self.samples = []
        self.violations = []
        self.notes = []
        self.design = []


def run_component(pid, name, tier, seed, res, deadline, share=1.0):
    comp = importlib.import_module("harness.comp." + name)
    t0 = time.time()
    # 1. design
    def one_design(d):
        d = dict(d)
        module = d.pop("module")
        return tlc.model_check(module, timeout=d.pop("timeout", 150 if tier == "quick" else 800),
                               workers=d.pop("workers", 4), **d)

    def one_gen(k, g):
        g = dict(g)
        return tlc.generate(g.pop("module"), g.pop("num"), g.pop("depth"), seed * 1000 + k, **g)

    # with many components, each one's design is checked by its own property
    designs = comp.design(tier) if share == 1 or pid == comp.PROPS[0] else []
    gens = comp.generated(tier) if hasattr(comp, "generated") else []
    with ThreadPoolExecutor(max_workers=4) as ex:
        df = [ex.submit(one_design, d) for d in designs]
        gf = [ex.submit(one_gen, k, g) for k, g in enumerate(gens)]
        generated = [b for f in gf for b in f.result()]
        # 2. scripts; run on the real code while the design checks go on
        rng = random.Random("%s-%s-%d" % (name, tier, seed))
        scripts = list(comp.fixed_scripts(tier)) if hasattr(comp, "fixed_scripts") else []
        scripts += [comp.from_generated(b, rng) for b in generated]
        n = getattr(comp, "N_QUICK", 700) if tier == "quick" else getattr(comp, "N_THOROUGH", 6000)
        if share < 1:
            n = int(n * share)
            scripts = scripts[:max(50, int(len(scripts) * share))]
        if hasattr(comp, "random_script"):
            scripts += [comp.random_script(rng, tier) for _ in range(n)]
        if hasattr(comp, "relevant"):
            scripts = [s for s in scripts if comp.relevant(s, pid)]
        validate_round(pid, name, comp, scripts, tier, res)
        while tier == "thorough" and time.time() < deadline and not res.violations \
                and hasattr(comp, "random_script"):
            scripts = [comp.random_script(rng, tier) for _ in range(n)]
            if hasattr(comp, "relevant"):
                scripts = [s for s in scripts if comp.relevant(s, pid)]
            validate_round(pid, name, comp, scripts, tier, res)
        for f, d in zip(df, designs):
            r = f.result()
            if not r["ok"]:
                if r.get("timeout"):
                    res.design.append("%s: %d states, stopped by the time limit" % (r["module"], r["distinct"]))
                else:
                    raise tlc.MachineryError("design check of %s failed\n%s" % (r["module"], r["out"][-4000:]))
            else:
                res.design.append("%s: %d distinct states, complete" % (r["module"], r["distinct"]))
            res.states += r["distinct"]
            res.transitions += r["generated"]
            res.design_states += r["distinct"]
    res.notes.append("%s: %.1fs" % (name, time.time() - t0))


def validate_round(pid, name, comp, scripts, tier, res):
    limit = getattr(comp, "EXEC_LIMIT", 240 if tier == "quick" else 600)
    results = execute(name, comp, scripts, limit)
    idxs = sorted(results)
    traces = [results[i] for i in idxs]
    enforce = getattr(comp, "enforce", lambda p: {p, "BASE"})(pid)
    rej, st = tlc.validate(comp.SPEC + "Trace", traces, enforce,
                           workers=NPROC, timeout=800)
    res.states += st["states"]
    res.transitions += st["generated"]
    res.traces += st["traces"]
    for t in traces:
        for e in t["ev"]:
            res.events[e["e"]] += 1
    if len(res.samples) < 3 and traces:
        for t in (traces[0], traces[len(traces) // 2], traces[-1]):
            res.samples.append({"component": name, "cfg": t["cfg"], "events": t["ev"][:25]})
    for r in rej:
        i = idxs[r["index"]]
        res.violations.append(dict(component=name, script=scripts[i], trace=results[i],
                                   line=r["line"], clauses=r["clauses"]))


def report(pid, res, replay_dir):
    known = [k for k in known_findings() if k["property"] == pid]
    hit, fresh = {}, []
    for v in res.violations:
        for k in known:
            if v["clauses"] and set(v["clauses"]) <= set(k.get("clauses", [])) \
                    and k.get("component") == v["component"] \
                    and matches(k, v):
                hit[k["id"]] = k
                break
        else:
            fresh.append(v)
    for k in known:
        if k["id"] in hit or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if not fresh:
        return 0
    replay_dir.mkdir(parents=True, exist_ok=True)
    fresh.sort(key=lambda v: v["line"])
    first = None
    for n, v in enumerate(fresh[:5]):
        ev = v["trace"]["ev"]
        path = replay_dir / ("%s-%d.json" % (v["component"], n))
        path.write_text(json.dumps(dict(
            property=pid, component=v["component"], clauses=v["clauses"],
            rejected_at=v["line"], rejected_event=ev[v["line"] - 1] if 0 < v["line"] <= len(ev) else None,
            cfg=v["trace"]["cfg"], script=v["script"], error=v["trace"].get("error"),
            trace=ev), indent=1))
        first = first or path
        print("  %s: clauses %s violated at event %d %s" % (
            v["component"], v["clauses"] or "(see replay)", v["line"],
            json.dumps(ev[v["line"] - 1]) if 0 < v["line"] <= len(ev) else ""))
    print("VIOLATION property=%s replay=%s" % (pid, first))
    return 1


def matches(k, v):
    ev = v["trace"]["ev"]
    bad = ev[v["line"] - 1] if 0 < v["line"] <= len(ev) else {}
    for f, val in k.get("event", {}).items():
        if bad.get(f) != val:
            return False
    for f, val in k.get("cfg", {}).items():
        if v["trace"]["cfg"].get(f) != val:
            return False
    return True


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    entry = REGISTRY[pid]
    t0 = time.time()
    res = Result()
    budget = 0 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "420"))
    comps = entry["components"]
    for k, name in enumerate(comps):
        run_component(pid, name, tier, seed, res,
                      t0 + budget * (k + 1) / len(comps),
                      1.0 if len(comps) < 3 or tier != "quick" else 0.4)
    replay_dir = VERIF / "replays" / pid
    shutil.rmtree(replay_dir, ignore_errors=True)
    rc = report(pid, res, replay_dir)
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (pid + ".json")).write_text(json.dumps(dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(states=res.states, transitions=res.transitions,
                      traces_validated_against_impl=res.traces,
                      design_checks=res.design, design_states=res.design_states,
                      events=dict(res.events.most_common()),
                      samples=res.samples[:3], timing=res.notes),
        assumptions=entry.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(res.violations)), indent=1))
    print("%s %s: %d traces (%d events), %d states, %.1fs, %s" % (
        pid, tier, res.traces, sum(res.events.values()), res.states, time.time() - t0,
        "violated" if rc else "held"))
    return rc


def replay(path):
    d = json.loads(Path(path).read_text())
    comp = importlib.import_module("harness.comp." + d["component"])
    out = execute(d["component"], comp, [d["script"]])
    t = out[0]
    rej, st = tlc.validate(comp.SPEC + "Trace", [t], getattr(comp, "enforce", lambda p: {p, "BASE"})(d["property"]))
    for i, e in enumerate(t["ev"], 1):
        print(i, json.dumps(e))
    print(rej or "accepted")
    return 1 if rej else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    try:
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    except tlc.MachineryError as e:
        print("ERROR", e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
