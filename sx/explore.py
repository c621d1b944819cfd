"""Runner: explores the scenarios of one harness and writes the evidence."""
import importlib
import json
import os
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import z3

from . import api, core, hooks, instr
from .api import CheckBase
from .core import PH_RE, Term, has_ph
from .values import SymBool, SymInt, SymReal, approx, from_dec, mk, to_z, tobool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE_PY = "/opt/venv/bin/python"


def and_(parts):
    parts = [p for p in parts if not z3.is_true(p)]
    if not parts:
        return z3.BoolVal(True)
    return parts[0] if len(parts) == 1 else z3.And(*parts)


def eq_expr(c, a, b):
    """z3 formula for structural equality (no forks)."""
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return z3.BoolVal(True)
        if len(a) != len(b):
            return z3.BoolVal(False)
        ps = []
        for x, y in zip(a, b):
            if x == y:
                continue
            if not c.ch_may_eq(x, y):
                return z3.BoolVal(False)
            ps.append(c.ch_z(x) == c.ch_z(y))
        return and_(ps)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return tobool(a) == tobool(b)
        return z3.BoolVal(False)
    if isinstance(a, (SymInt, SymReal)) or isinstance(b, (SymInt, SymReal)):
        if not isinstance(a, (int, float, SymInt, SymReal, Fraction)) or not isinstance(
                b, (int, float, SymInt, SymReal, Fraction)):
            return z3.BoolVal(False)
        r = a == b
        return tobool(r)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        ps = []
        for x, y in zip(a, b):
            e = eq_expr(c, x, y)
            if z3.is_false(e):
                return e
            ps.append(e)
        return and_(ps)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return eq_expr(c, list(a.items()), list(b.items()))
    if a is None or b is None:
        return z3.BoolVal(a is b)
    return z3.BoolVal(bool(hooks.sx_eq(a, b)))


class SymT(CheckBase):
    symbolic = True

    def __init__(self, c):
        self.c = c
        self.used = {}
        self.inputs = []      # (name, kind, payload)
        self.obs = []
        self.violated = []    # labels with a candidate model
        self.checked = []
        self.tier = c.tier

    def _nm(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    # ---- inputs
    def int(self, name, lo, hi):
        nm = self._nm(name)
        if lo == hi:
            self.inputs.append((nm, "const", lo))
            return lo
        z = z3.Int("in_" + nm)
        self.c.add(z3.And(z >= lo, z <= hi))
        v = SymInt(z, lo, hi)
        self.inputs.append((nm, "int", v))
        return v

    def char(self, name, cs):
        nm = self._nm(name)
        m = cs.mask() if hasattr(cs, "mask") else core.mask_of(cs)
        v = self.c.new_var(nm, m)
        ch = self.c.ph(Term(v))
        self.inputs.append((nm, "char", ch))
        return ch

    def text(self, name, n, cs):
        return "".join(self.char(name, cs) for _ in range(n))

    def digits(self, name, n):
        return "".join(self.char(name, "0123456789") for _ in range(n))

    def choice(self, name, n):
        nm = self._nm(name)
        if n == 1:
            self.inputs.append((nm, "const", 0))
            return 0
        for i in range(n - 1):
            if self.c.fork():
                self.inputs.append((nm, "const", i))
                return i
        self.inputs.append((nm, "const", n - 1))
        return n - 1

    def entry(self, name, table):
        return self.entries(name, table)[0]

    def entries(self, name, *tables):
        """Symbolic index into tables of equal-length strings (one shared index)."""
        nm = self._nm(name)
        n = len(tables[0])
        v = self.c.new_var(nm, (1 << n) - 1, ischar=False)
        self.inputs.append((nm, "var", v))
        out = []
        from .strs import merge
        for t in tables:
            if all(isinstance(x, str) for x in t):
                lens = {len(x) for x in t}
                assert len(lens) == 1, "equal lengths required"
                out.append(merge(v, dict(enumerate(t)), "s"))
            else:
                out.append(merge(v, dict(enumerate(t)), "i"))
        return tuple(out)

    def dec(self, name, lo, hi, places):
        k = self.int(name, lo, hi)
        return from_dec(k, places)

    def hash_order(self, on=True):
        self.c.permute_sets = on

    def new_process(self):
        self.c.set_epoch += 1

    # ---- assumptions and assertions
    def assume(self, cond):
        if isinstance(cond, SymBool):
            e = cond.z
            r = self.c.check_sat(e)
            if r == z3.unsat:
                self.c.end("assumed-away")
            self.c.add(e)
            if self.c.model is None and r == z3.sat:
                pass
        elif not cond:
            self.c.end("assumed-away")

    def all(self, conds):
        ps = []
        for x in conds:
            if isinstance(x, SymBool):
                ps.append(x.z)
            elif not x:
                return False
        return SymBool(and_(ps)) if ps else True

    def any(self, conds):
        ps = []
        for x in conds:
            if isinstance(x, SymBool):
                ps.append(x.z)
            elif x:
                return True
        return SymBool(z3.Or(*ps)) if ps else False

    def check(self, label, cond, detail=None):
        c = self.c
        c.n_asserts += 1
        self.checked.append(label)
        e = tobool(cond)
        return self._decide(label, e)

    def check_eq(self, label, a, b, detail=None):
        c = self.c
        c.n_asserts += 1
        self.checked.append(label)
        return self._decide(label, eq_expr(c, a, b))

    def fail(self, label, detail=None):
        return self.check(label, False, detail)

    def _decide(self, label, e):
        c = self.c
        ne = z3.simplify(z3.Not(e))
        c.n_assert_q += 1
        r = c.check_sat(ne)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            c.note("assertion undecided: " + label)
            return True
        m = c.smodel
        if label not in [v[0] for v in self.violated]:
            self.violated.append((label, ne, m))
        return False

    def observe(self, label, value):
        self.obs.append((label, value))

    def reach(self, label):
        self.c.reached.add(label)

    def concrete(self, s):
        return self.c.concretize(s)

    # ---- models
    def assignment(self, model):
        c = self.c
        vals = {}
        out = {}
        for nm, kind, p in self.inputs:
            if kind == "const":
                out[nm] = p
            elif kind == "int":
                out[nm] = model.eval(p.z, model_completion=True).as_long()
            else:
                var = p if kind == "var" else c.term(p).var
                v = self.var_value(var, model, vals)
                out[nm] = v if kind == "var" else chr(v)
        return out, vals

    def var_value(self, var, model, vals):
        if var.id in vals:
            return vals[var.id]
        c = self.c
        if var.pend is not None:
            v = var.pend.value(var, model)
        elif var.entangled:
            v = model.eval(var.z, model_completion=True).as_long()
        else:
            v = c.pick_from(c.dom[var.id], var)
        vals[var.id] = v
        return v

    def evaluate(self, v, model, vals):
        c = self.c
        if isinstance(v, str):
            def f(m):
                t = c.term(m.group())
                x = self.var_value(t.var, model, vals)
                return chr(x if t.map is None else t.map.get(x, x))
            return PH_RE.sub(f, str.__str__(v))
        if isinstance(v, SymInt):
            return model.eval(v.z, model_completion=True).as_long()
        if isinstance(v, SymReal):
            if v.pend is not None and approx(v) is not None:
                n, d, _ = approx(v)
                return float(Fraction(self.evaluate(n, model, vals), d))
            q = model.eval(v.z, model_completion=True)
            return float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
        if isinstance(v, SymBool):
            return z3.is_true(model.eval(v.z, model_completion=True))
        if isinstance(v, (list, tuple)):
            return [self.evaluate(x, model, vals) for x in v]
        if isinstance(v, dict):
            return [[self.evaluate(k, model, vals), self.evaluate(x, model, vals)] for k, x in v.items()]
        if v is None or isinstance(v, (bool, int, float)):
            return v
        return repr(v)


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b and type(a) is type(b)
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return abs(a - b) <= 1e-6 * max(1.0, abs(a))
    return a == b


def native_call(c, scenario, inputs, timeout=20):
    for attempt in range(3):
        try:
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(timeout + 20)
            s.connect(c.native_addr)
            f = s.makefile("rwb")
            f.write(json.dumps({"scenario": scenario, "inputs": inputs, "timeout": timeout}).encode() + b"\n")
            f.flush()
            line = f.readline()
            s.close()
            if line:
                return json.loads(line)
        except OSError:
            time.sleep(0.05)
    return None


def norm_native(v):
    return v


def finish(c, t, err):
    """Called at the end of a path: validate against the real code, confirm counterexamples."""
    c.ending = False
    extra = {}
    viol = []
    c.deadline_hit = False
    model = c.get_model()
    inputs, vals = t.assignment(model)
    r = native_call(c, c.scenario, inputs)
    status = "ok"
    if r is None:
        c.note("native replay unavailable")
    else:
        known = c.known_pred
        if r["skipped"]:
            c.note("native run left the assumptions")
        bad = [(l, d) for l, ok, d in r["checks"] if not ok]
        if r["err"]:
            bad.append(("exception:" + r["err"]["type"], r["err"]))
        for l, d in bad:
            viol.append({"label": l, "detail": d, "inputs": inputs})
        # trace validation
        if not r["err"] and not err:
            symobs = [[l, t.evaluate(v, model, vals)] for l, v in t.obs]
            nat = r["obs"]
            if close(symobs, nat):
                extra["validated"] = 1
            elif consistent(c, t, inputs, nat):
                extra["validated"] = 1
                extra["validated_relational"] = 1
            else:
                d = diff(symobs, nat)
                c.note("trace divergence: " + d)
        elif r["err"] and err:
            if r["err"]["type"] == err["type"]:
                extra["validated"] = 1
            else:
                c.note(f"trace divergence: exception {err['type']} vs {r['err']['type']}")
        elif err:
            c.note("trace divergence: engine raised " + err["type"] + ": " + err["msg"][:200] + err["tb"][-900:])
        else:
            c.note("trace divergence: only the real code raised")
    seen = {v["label"] for v in viol}
    for label, ne, m in t.violated:
        if label in seen:
            continue
        ok = False
        c.solver.push()
        c.solver.add(ne)
        mm = m
        for attempt in range(5):
            inp, _ = t.assignment(mm)
            rr = native_call(c, c.scenario, inp)
            if rr is not None and not rr["skipped"]:
                b = [(l, d) for l, o, d in rr["checks"] if not o]
                if rr["err"]:
                    b.append(("exception:" + rr["err"]["type"], rr["err"]))
                for l, d in b:
                    viol.append({"label": l, "detail": d, "inputs": inp})
                    seen.add(l)
                if label in seen:
                    ok = True
                    break
            block = []
            for nm, kind, p in t.inputs:
                if kind == "int":
                    block.append(p.z != mm.eval(p.z, model_completion=True))
                elif kind in ("char", "var"):
                    var = p if kind == "var" else c.term(p).var
                    if var.entangled:
                        block.append(var.z != mm.eval(var.z, model_completion=True))
            if not block:
                break
            c.solver.add(z3.Or(*block))
            if c.check_sat() != z3.sat:
                break
            mm = c.smodel
        c.solver.pop()
        if not ok and (c.permute_sets or c.set_epoch):
            # the counterexample is an order of a hash set: replay in processes with different hash seeds
            from .native import seed_runs
            inp, _ = t.assignment(m)
            d = seed_runs({"harness": c.scenario_harness, "scenario": c.scenario, "inputs": inp, "tier": c.tier})
            if d is not None:
                viol.append({"label": label, "detail": d, "inputs": inp, "hash_seeds": True})
                seen.add(label)
                ok = True
        if not ok:
            c.note("unconfirmed counterexample: " + label)
    extra["inputs"] = inputs if (viol or random.random() < 0.02 or c.notes) else None
    if os.environ.get("SX_DUMP"):
        with open(os.environ["SX_DUMP"], "a") as f:
            f.write(json.dumps([c.scenario, inputs]) + "\n")
    extra["labels"] = sorted(set(t.checked))
    if viol:
        status = "violation"
        extra["viol"] = viol
        if c.stop_path and not all(c.known_pred(v) for v in viol):
            try:
                with open(c.stop_path + ".hits", "ab") as f:
                    f.write(b"x")
                if os.path.getsize(c.stop_path + ".hits") >= int(os.environ.get("SX_STOP_AFTER", "3")):
                    open(c.stop_path, "w").close()
            except OSError:
                pass
    c.end(status, **extra)


def consistent(c, t, inputs, nat):
    if len(nat) != len(t.obs):
        return False
    c.solver.push()
    try:
        for nm, kind, p in t.inputs:
            if kind == "int":
                c.solver.add(p.z == inputs[nm])
            elif kind in ("char", "var"):
                var = p if kind == "var" else c.term(p).var
                v = ord(inputs[nm]) if kind == "char" else inputs[nm]
                if var.entangled:
                    c.solver.add(var.z == v)
                c.dom[var.id] = 1 << v
        es = []
        for (l, v), (nl, nv) in zip(t.obs, nat):
            if l != nl:
                return False
            e = loose_eq(c, v, nv)
            if e is False:
                return False
            es.extend(e)
        c.solver.add(*es)
        return c.check_sat() == z3.sat
    finally:
        c.solver.pop()


def loose_eq(c, a, b):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            e = loose_eq(c, x, y)
            if e is False:
                return False
            out += e
        return out
    if isinstance(a, dict):
        return loose_eq(c, [[k, v] for k, v in a.items()], b)
    if isinstance(a, SymReal) or (isinstance(a, float) and isinstance(b, float)):
        if not isinstance(b, (int, float)):
            return False
        q = to_z(float(b))
        tol = z3.Q(max(1, int(abs(b))), 10 ** 9)
        return [to_z(a) - q <= tol, q - to_z(a) <= tol]
    if isinstance(a, str):
        a = c.norm(str.__str__(a))
    e = eq_expr(c, a, b)
    return False if z3.is_false(e) else [e]


def diff(a, b):
    for x, y in zip(a, b):
        if not close(x, y):
            x, y = str(x), str(y)
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
            k = max(0, k - 60)
            return f"{x[k:k + 200]} != {y[k:k + 200]}"
    return f"lengths {len(a)} {len(b)}"


def set_order(c, items):
    """Symbolic iteration order of a hash set (per simulated process)."""
    items = sorted(items, key=lambda x: repr(x))
    key = (c.set_epoch, tuple(repr(x) for x in items))
    p = c.perm.get(key)
    if p is None:
        order = list(range(len(items)))
        out = []
        while order:
            pick = len(order) - 1
            if len(out) < 3:
                for i in range(len(order) - 1):
                    if c.fork():
                        pick = i
                        break
            out.append(order.pop(pick))
        c.perm[key] = p = out
    return [items[i] for i in p]


core.Ctx.set_order = set_order


def run_path(c, scen):
    name, fn = scen[0], scen[1]
    c.scenario = name
    t = SymT(c)
    err = None
    try:
        fn(t)
    except RecursionError as e:
        c.abort("recursion limit")
    except PathTimeout:
        c.note("path timeout")
        err = {"type": "Timeout", "msg": "", "tb": ""}
    except Exception as e:
        err = {"type": type(e).__name__, "msg": str(e)[:500], "tb": traceback.format_exc()[-3000:]}
    signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        finish(c, t, err)
    except Exception as e:
        c.ending = False
        c.note("engine error: " + traceback.format_exc()[-1500:])
        c.end("engine-error")


class PathTimeout(BaseException):
    pass


def main(prop, tier, seed, budget, jobs, only=None, verbose=False, maxscen=None):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    import threading
    work = tempfile.mkdtemp(prefix="sx-")
    harness = prop.lower()
    addr = os.path.join(work, "sock")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SX_TIER=tier)
    env.setdefault("PYTHONHASHSEED", str(seed % 1000))
    srv = subprocess.Popen([NATIVE_PY, "-W", "ignore", os.path.join(ROOT, "sx", "native.py"), harness, addr],
                           stdout=subprocess.PIPE, env=env, cwd=work)
    try:
        return _main(prop, tier, seed, budget, jobs, only, verbose, work, harness, addr, srv, t0)
    finally:
        srv.kill()
        shutil.rmtree(work, ignore_errors=True)


def _main(prop, tier, seed, budget, jobs, only, verbose, work, harness, addr, srv, t0):
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    c = core.Ctx()
    core.install(c)
    c.seed = seed
    c.tier = tier
    instr.setup()
    mod = importlib.import_module("harness." + harness)
    logging.disable(logging.CRITICAL)
    try:
        import cssutils
        cssutils.log.setLevel(logging.FATAL)
    except ImportError:
        pass
    from . import boundary
    boundary.setup()
    from . import strs
    strs.warm()
    from . import warm
    warm.run(getattr(mod, "WARM", True))
    c.funcs.clear()
    scens = list(mod.scenarios(tier))
    assert len({s[0] for s in scens}) == len(scens), "duplicate scenario names"
    if only:
        scens = [s for s in scens if any(s[0].startswith(o) for o in only)]
    random.Random(seed).shuffle(scens)
    # cheapest first, as measured (costs.json): a slow machine then cuts the few largest scenarios short, not many small ones
    try:
        with open(os.path.join(ROOT, "costs.json")) as f:
            costs = json.load(f).get(prop, {})
    except (OSError, ValueError):
        costs = {}
    scens.sort(key=lambda s: costs.get(s[0], 5.0))
    line = srv.stdout.readline()
    if b"ready" not in line:
        print("native server failed", file=sys.stderr)
        return 2
    c.native_addr = addr
    c.scenario_harness = harness
    known = load_known(prop)

    def known_pred(v, scen=None):
        return any(match_known(k, scen or c.scenario, v) for k in known)
    c.known_pred = known_pred
    c.funcs_base = frozenset()
    c.funcs = set()
    res_path = os.path.join(work, "results.jsonl")
    c.results_fd = os.open(res_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    tr, tw = os.pipe()
    os.set_blocking(tr, False)
    os.write(tw, b"x" * max(0, jobs - 1))
    c.token_r, c.token_w = tr, tw
    c.stop_path = os.path.join(work, "stop")
    c.deadline = t0 + budget
    dr, dw = os.pipe()
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    path_limit = getattr(mod, "PATH_LIMIT", 60)

    def alarm(sig, frm):
        c.note("path timeout")
        raise PathTimeout()
    import faulthandler
    faulthandler.register(signal.SIGUSR1)
    root = os.fork()
    if root == 0:
        os.close(dr)
        c.is_parallel = True
        signal.signal(signal.SIGALRM, alarm)
        # one child per scenario
        for i, s in enumerate(scens):
            c.scenario = s[0]
            last = i == len(scens) - 1
            if last or c.fork():
                signal.setitimer(signal.ITIMER_REAL, path_limit)
                core.PATH_LIMIT = path_limit
                run_path(c, s)
        c.end("empty")
    os.close(dw)
    hard = c.deadline + 20
    while True:
        import select
        r, _, _ = select.select([dr], [], [], max(0.1, hard - time.time()))
        if r:
            break
        if time.time() > hard:
            print("hard deadline: killing exploration", file=sys.stderr)
            subprocess.run(["pkill", "-9", "-s", str(os.getsid(0)), "-P", str(root)], check=False)
            os.kill(root, signal.SIGKILL)
            kill_tree(root)
            break
    gc.enable()
    return report(prop, tier, seed, mod, res_path, scens, known, t0, verbose, budget, harness)


def kill_tree(root):
    try:
        out = subprocess.run(["ps", "-eo", "pid,ppid"], capture_output=True, text=True).stdout
    except OSError:
        return
    kids = {}
    for l in out.splitlines()[1:]:
        p, pp = l.split()
        kids.setdefault(int(pp), []).append(int(p))
    st = [root]
    while st:
        p = st.pop()
        st += kids.get(p, [])
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "open"]


def match_known(k, scen, v):
    m = k["match"]
    if m.get("scenario") and not scen.startswith(m["scenario"]):
        return False
    if m.get("label") and m["label"] != v["label"]:
        return False
    for nm, val in m.get("inputs", {}).items():
        if v["inputs"].get(nm) != val:
            return False
    return True


def report(prop, tier, seed, mod, res_path, scens, known, t0, verbose, budget, harness):
    tot = dict(paths=0, forks=0, queries=0, solver_s=0.0, dom=0, unknown=0, asserts=0, assert_q=0,
               validated=0, validated_relational=0)
    status = {}
    notes = {}
    funcs = set()
    per = {}
    reached = set()
    labels = set()
    samples = []
    viols = []
    known_hit = {}
    cost = {}
    for line in open(res_path, encoding="utf8", errors="replace"):
        try:
            r = json.loads(line)
        except ValueError:
            notes["corrupt record"] = notes.get("corrupt record", 0) + 1
            continue
        status[r["status"]] = status.get(r["status"], 0) + 1
        tot["forks"] += r["forks"]
        tot["queries"] += r["queries"]
        tot["solver_s"] += r["t"]
        tot["dom"] += r["dom"]
        tot["unknown"] += r["unknown"]
        tot["asserts"] += r["asserts"]
        tot["assert_q"] += r["assert_q"]
        tot["validated"] += r.get("validated", 0)
        tot["validated_relational"] += r.get("validated_relational", 0)
        funcs.update(r["funcs"])
        reached.update(r["reached"])
        labels.update(r.get("labels", []))
        p = per.setdefault(r["scenario"], {"paths": 0, "ok": 0, "inconclusive": 0, "depth": 0})
        p["paths"] += 1
        cost[r["scenario"]] = cost.get(r["scenario"], 0) + r.get("cpu", 0)
        p["depth"] = max(p["depth"], r["depth"])
        if r["status"] in ("ok", "violation") and not r["notes"]:
            p["ok"] += 1
        elif r["status"] not in ("assumed-away", "infeasible"):
            p["inconclusive"] += 1
        for n in r["notes"]:
            notes[n] = notes.get(n, 0) + 1
            if verbose and notes[n] <= 2:
                print("NOTE", r["scenario"], n, r.get("inputs"))
        if r["status"] in ("ok", "violation"):
            tot["paths"] += 1
            if r.get("inputs") and len(samples) < 8 and not r["notes"]:
                samples.append({"scenario": r["scenario"], "model": r["inputs"], "decisions": r["depth"]})
        for v in r.get("viol", []):
            v["scenario"] = r["scenario"]
            hit = [k for k in known if match_known(k, r["scenario"], v)]
            if hit:
                known_hit[hit[0]["id"]] = hit[0]
            else:
                viols.append(v)
    if not samples:
        samples = [{"scenario": s[0]} for s in scens[:3]]
    completed = sum(status.get(s, 0) for s in ("ok", "violation"))
    inconcl = sum(p["inconclusive"] for p in per.values())
    want = set(getattr(mod, "REACH", []))
    missing = sorted(want - reached)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["forks"] + tot["paths"],
            "transitions": tot["forks"] * 2,
            "traces_validated_against_impl": tot["validated"],
            "samples": samples,
            "paths_completed": completed,
            "paths_inconclusive": inconcl,
            "path_status": status,
            "branch_forks": tot["forks"],
            "smt_queries": tot["queries"],
            "smt_solver_s": round(tot["solver_s"], 3),
            "finite_domain_decisions": tot["dom"],
            "solver_unknown": tot["unknown"],
            "assertions": tot["asserts"],
            "assertion_queries": tot["assert_q"],
            "assertion_labels": sorted(labels),
            "traces_validated_relationally": tot["validated_relational"],
            "reachability_witnesses": sorted(reached),
            "reachability_missing": missing,
            "functions_encoded": sorted(funcs),
            "modules_run_natively": instr.NATIVE,
            "scenarios": per,
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
            "inconclusive_reasons": dict(sorted(notes.items(), key=lambda kv: -kv[1])[:40]),
            "exhaustive_within_bounds": inconcl == 0 and not status.get("deadline") and not missing,
            "budget_s": budget,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in load_known(prop):
        if k["id"] in known_hit or k.get("always"):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} {tier}: paths={completed} inconclusive={inconcl} forks={tot['forks']} "
          f"queries={tot['queries']} solver={tot['solver_s']:.1f}s asserts={tot['asserts']} "
          f"validated={tot['validated']} wall={wall:.1f}s status={status}")
    if os.environ.get("SX_COSTS"):
        with open(os.environ["SX_COSTS"], "w") as f:
            json.dump({k: round(v, 1) for k, v in sorted(cost.items())}, f)
    if missing:
        print("reachability witnesses missing:", missing)
    if notes and verbose:
        for n, k in sorted(notes.items(), key=lambda kv: -kv[1])[:20]:
            print("  inconclusive:", k, n[:1500])
    if verbose:
        for s, p in sorted(per.items()):
            print("  ", s, p)
    if viols:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        seen = set()
        n = 0
        for v in viols:
            key = (v["scenario"], v["label"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(ROOT, "replays", f"{prop}-{n}.json")
            n += 1
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": harness, "tier": tier, **v}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print("   ", v["scenario"], v["label"], str(v["inputs"])[:300], str(v["detail"])[:600])
            if n >= int(os.environ.get("SX_SHOW", "5")):
                break
        return 1
    return 0
