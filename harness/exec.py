"""Runs environment scripts against the real code (one process, many scripts).

usage: exec.py COMPONENT SCRIPTS.json OUT.ndjson
"""
import importlib
import json
import logging
import os
import signal
import sys
import traceback
import warnings

sys.path[:0] = ["/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]


class ScriptTimeout(BaseException):
    pass


def main():
    name, src, dst = sys.argv[1:4]
    limit = float(os.environ.get("SCRIPT_LIMIT", "25"))
    if not os.environ.get("VERIF_DEBUG"):
        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        sys.unraisablehook = lambda *a: None
    comp = importlib.import_module("harness.comp." + name)
    scripts = json.load(open(src))

    def on_alarm(*a):
        raise ScriptTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    hangs = 0
    with open(dst, "w", buffering=1) as out:
        for idx, s in scripts:
            out.write(json.dumps({"begin": idx}) + "\n")
            signal.setitimer(signal.ITIMER_REAL, getattr(comp, "SCRIPT_LIMIT", limit))
            try:
                t = comp.run_script(s)
            except ScriptTimeout:
                t = dict(cfg=comp.trace_cfg(s), ev=[{"e": "hang"}])
                hangs += 1
            except Exception:
                t = dict(cfg=comp.trace_cfg(s), ev=[{"e": "raised"}],
                         error=traceback.format_exc())
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out.write(json.dumps({"idx": idx, "trace": t}) + "\n")
            if hangs >= 3:
                break
        out.write(json.dumps({"done": True}) + "\n")
    out.close()
    sys.stdout.flush()
    os._exit(0)


main()
