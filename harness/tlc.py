"""Running TLC: exhaustive design checks, behaviour generation and trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPECS = VERIF / "specs"
JAR = os.environ.get("TLA2TOOLS", "/opt/veriftools/tla/tla2tools.jar")


def _classpath():
    base = Path(JAR).parent
    extra = [str(p) for p in sorted(base.glob("*.jar")) if str(p) != JAR]
    return ":".join([JAR] + extra)


class MachineryError(RuntimeError):
    pass


def run_tlc(module, cfg_text, args=(), env=None, timeout=600, heap="2g", workers="1",
            props=(), workdir=None):
    """Run TLC on specs/<module>.tla with the given configuration text."""
    tmp = Path(tempfile.mkdtemp(prefix="tlc-"))
    try:
        cfg = tmp / (module + ".cfg")
        cfg.write_text(cfg_text)
        cmd = [
            "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
            "-Dtlc2.TLC.stopAfter=%d" % max(int(timeout) + 30, 60),
            "-Djava.io.tmpdir=" + str(tmp),
            *props, "-cp", _classpath(), "tlc2.TLC",
            "-config", str(cfg), "-metadir", str(tmp / "meta"),
            "-noTE", "-workers", str(workers), *args, str(SPECS / (module + ".tla")),
        ]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=str(tmp), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True,
                               errors="replace")
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout or b""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            return -9, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cfg_text(spec=None, init=None, next_=None, constants=None, invariants=(), properties=(),
             constraint=None, action_constraint=None, postcondition=None, deadlock=False,
             view=None, symmetry=None, alias=None):
    L = []
    if spec:
        L.append("SPECIFICATION " + spec)
    else:
        L.append("INIT " + init)
        L.append("NEXT " + next_)
    for k, v in (constants or {}).items():
        L.append("CONSTANT %s = %s" % (k, v) if not str(v).startswith("<-")
                 else "CONSTANT %s %s" % (k, v))
    for i in invariants:
        L.append("INVARIANT " + i)
    for i in properties:
        L.append("PROPERTY " + i)
    if constraint:
        L.append("CONSTRAINT " + constraint)
    if action_constraint:
        L.append("ACTION_CONSTRAINT " + action_constraint)
    if postcondition:
        L.append("POSTCONDITION " + postcondition)
    if view:
        L.append("VIEW " + view)
    if symmetry:
        L.append("SYMMETRY " + symmetry)
    L.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(L) + "\n"


def tla_set(items):
    return "{" + ", ".join('"%s"' % i for i in sorted(items)) + "}"


_STATS = re.compile(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found, (\d+) states left")


def model_check(module, timeout=600, workers=4, heap="4g", **cfg):
    """Exhaustive check.  Returns dict(ok, generated, distinct, complete, out)."""
    t0 = time.time()
    rc, out = run_tlc(module, cfg_text(**cfg), timeout=timeout, heap=heap, workers=workers)
    m = None
    for m in _STATS.finditer(out):
        pass
    gen = int(m.group(1)) if m else 0
    dist = int(m.group(2)) if m else 0
    left = int(m.group(3)) if m else -1
    ok = rc == 0 and "No error has been found" in out
    res = dict(ok=ok, rc=rc, generated=gen, distinct=dist, complete=(left == 0),
               out=out, wall=time.time() - t0, module=module)
    if not ok and rc == -9 and "Error:" not in out:
        res["timeout"] = True
        for m in _PROGRESS.finditer(out):
            res["generated"] = int(m.group(1).replace(",", ""))
            res["distinct"] = int(m.group(2).replace(",", ""))
    return res


_PROGRESS = re.compile(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found")
_GEN = re.compile(r'^"?GEN\s(.*?)"?$')


def generate(module, num, depth, seed, timeout=120, **cfg):
    """TLC -simulate; the spec prints  GEN <json>  once per behaviour."""
    rc, out = run_tlc(module, cfg_text(**cfg),
                      args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed),
                            "-aril", str(seed)],
                      timeout=timeout, heap="2g")
    seqs = []
    for line in out.splitlines():
        if line.startswith('"GEN '):
            # TLC prints the string with escaped quotes
            body = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            try:
                seqs.append(json.loads(body[4:]))
            except ValueError:
                pass
    if not seqs:
        raise MachineryError("generator %s produced nothing (rc=%s)\n%s" % (module, rc, out[-3000:]))
    # keep unique, deterministic order
    seen, res = set(), []
    for s in seqs:
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(s)
    return res


def _validate_shard(module, path, enforce, diagnose, timeout, consts):
    constants = {"Enforce": tla_set(enforce), "Diagnose": "TRUE" if diagnose else "FALSE"}
    constants.update(consts or {})
    rc, out = run_tlc(
        module,
        cfg_text(init="TraceInit", next_="TraceNext", constants=constants,
                 constraint="TraceProgress", postcondition="TraceReport"),
        env={"TRACES": str(path)}, timeout=timeout, heap="3g", workers="1",
        props=("-Dtlc2.tool.queue.IStateQueue=StateDeque",),
    )
    return rc, out


_REJ = re.compile(r'<<"REJECTED", (\d+), (\d+)>>')
_CLAUSE = re.compile(r'<<"CLAUSE", "([^"]+)", "([^"]+)">>')


_LEVEL = re.compile(r"^/\\ l = (\d+)$", re.M)


def validate(module, traces, enforce, workers=4, timeout=600, consts=None, shard_events=60000):
    """Check recorded traces against the specification.

    Returns (rejections, stats); rejection = dict(index, line, clauses)."""
    if not traces:
        return [], dict(states=0, traces=0, generated=0)
    tmp = Path(tempfile.mkdtemp(prefix="traces-"))
    try:
        # balance shards by the number of events
        n = max(1, min(workers, len(traces)))
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
        total = sum(len(t["ev"]) for t in traces)
        nshards = max(n, (total // shard_events) + 1)
        nshards = min(nshards, len(traces))
        if total < 3000:
            nshards = min(nshards, 2)
        shards = [[] for _ in range(nshards)]
        for k, i in enumerate(order):
            shards[k % nshards].append(i)
        for s in shards:
            s.sort()

        def one(args):
            k, idxs = args
            p = tmp / ("t%s.ndjson" % k)
            with p.open("w") as f:
                for i in idxs:
                    f.write(json.dumps({"cfg": traces[i]["cfg"], "ev": traces[i]["ev"]}) + "\n")
            rc, out = _validate_shard(module, p, enforce, False, timeout, consts)
            m = None
            for m in _STATS.finditer(out):
                pass
            if m is None or "TRACEREPORT" not in out:
                if "TLC threw an unexpected exception" in out or "evaluating the nested" in out:
                    # an event the specification gives no meaning to in this state
                    if len(idxs) == 1:
                        lines = _LEVEL.findall(out)
                        return [(idxs[0], int(lines[-1]) if lines else 1)], 1, 1
                    h = len(idxs) // 2
                    a, b = one((str(k) + "a", idxs[:h])), one((str(k) + "b", idxs[h:]))
                    return a[0] + b[0], a[1] + b[1], a[2] + b[2]
                raise MachineryError("trace validation of %s failed (rc=%s)\n%s"
                                     % (module, rc, out[-4000:]))
            rej = [(idxs[int(a) - 1], int(b)) for a, b in _REJ.findall(out)]
            return rej, int(m.group(1)), int(m.group(2))

        rejections, gen, dist = [], 0, 0
        with ThreadPoolExecutor(max_workers=n) as ex:
            for rej, g, d in ex.map(one, list(enumerate(shards))):
                rejections += rej
                gen += g
                dist += d
        rejections.sort()
        res = []
        for i, line in rejections[:8]:
            p = tmp / ("d%d.ndjson" % i)
            p.write_text(json.dumps({"cfg": traces[i]["cfg"], "ev": traces[i]["ev"]}) + "\n")
            rc, out = _validate_shard(module, p, enforce, True, timeout, consts)
            clauses = []
            for m in _CLAUSE.finditer(out):
                c = m.group(1) + "." + m.group(2)
                if c not in clauses:
                    clauses.append(c)
            res.append(dict(index=i, line=line, clauses=clauses))
        for i, line in rejections[8:]:
            res.append(dict(index=i, line=line, clauses=[]))
        return res, dict(states=dist, generated=gen, traces=len(traces), events=total)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
