"""Native replay server: runs harness functions against the untouched real code."""
import importlib
import json
import os
import signal
import socket
import sys
import warnings

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("SX_REPO", "/repo")]
warnings.filterwarnings("ignore")


def scenario_table(mod):
    tier = os.environ.get("SX_TIER", "thorough")
    return {s[0]: s[1] for s in mod.scenarios(tier)}


def handle(req, fns):
    from sx.api import run_native
    signal.alarm(req.get("timeout", 20))
    try:
        return run_native(fns(req["scenario"]), req["inputs"])
    except BaseException as e:
        return {"obs": [], "checks": [], "err": {"type": type(e).__name__, "msg": str(e), "tb": ""},
                "skipped": False, "reached": []}


SEEDS = range(12)


def seed_runs(rec):
    """Run one recorded input in processes with different hash seeds; what differs, or None."""
    import subprocess
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(rec, f)
    try:
        ps = [(k, subprocess.Popen(["/opt/venv/bin/python", os.path.abspath(__file__), "--plain", f.name],
                                   env=dict(os.environ, PYTHONHASHSEED=str(k)), stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL)) for k in SEEDS]
        outs = []
        for k, p in ps:
            try:
                r = json.loads(p.communicate(timeout=60)[0])
                outs.append((k, r["obs"], r["err"] and r["err"]["type"]))
            except Exception:
                p.kill()
    finally:
        os.unlink(f.name)
    for k, o, e in outs[1:]:
        if (o, e) != outs[0][1:]:
            return f"PYTHONHASHSEED={outs[0][0]}: {str(outs[0][1:])[:1500]} PYTHONHASHSEED={k}: {str((o, e))[:1500]}"
    return None


class Timeout(Exception):
    pass


def on_alarm(*a):
    raise Timeout("native run timed out")


def serve(harness, path):
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module("harness." + harness)
    import pycaption  # noqa
    try:
        import cssutils  # noqa: preload
        import lxml.etree  # noqa
    except ImportError:
        pass
    from sx import warm
    warm.run(getattr(mod, "WARM", True))
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, on_alarm)
    table = scenario_table(mod)
    fns = table.__getitem__
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(256)
    print("ready", flush=True)
    ppid = os.getppid()
    srv.settimeout(2)
    while True:
        try:
            c, _ = srv.accept()
        except socket.timeout:
            if os.getppid() != ppid:
                return
            continue
        if os.fork() == 0:
            c.settimeout(None)
            srv.close()
            sys.stdout = open(os.devnull, "w")
            f = c.makefile("rwb")
            req = json.loads(f.readline())
            r = handle(req, fns)
            f.write(json.dumps(r).encode() + b"\n")
            f.flush()
            os._exit(0)
        c.close()


if __name__ == "__main__":
    if sys.argv[1] in ("--one", "--plain"):
        # native.py --one replay.json : print the outcome of one replay
        import logging
        logging.disable(logging.CRITICAL)
        rec = json.load(open(sys.argv[2]))
        if sys.argv[1] == "--one" and rec.get("hash_seeds"):
            print(seed_runs(rec))
            sys.exit(0)
        mod = importlib.import_module("harness." + rec["harness"])
        signal.signal(signal.SIGALRM, on_alarm)
        os.environ["SX_TIER"] = rec.get("tier", "thorough")
        r = handle(rec, scenario_table(mod).__getitem__)
        print(json.dumps(r, indent=1))
    else:
        serve(sys.argv[1], sys.argv[2])
