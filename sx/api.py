"""Harness API: symbolic (SymT) and native (NatT) back ends share one interface."""
import json
import traceback


class Skip(BaseException):
    """Raised natively when an assumption does not hold."""


class CheckBase:
    tier = "thorough"

    def pick(self, name, seq, more=()):
        """One of seq; the thorough tier also explores the alternatives in `more`."""
        if not more:
            return seq[self.choice(name, len(seq))]
        n = len(seq) if self.tier == "quick" else len(seq) + len(more)
        i = self.choice(name, n)
        return seq[i] if i < len(seq) else more[i - len(seq)]

    def flag(self, name):
        return self.choice(name, 2) == 1


class NatT(CheckBase):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.used = {}
        self.obs = []
        self.checks = []
        self.reached = []

    def _nm(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _get(self, name):
        return self.inputs[self._nm(name)]

    def int(self, name, lo, hi):
        return int(self._get(name))

    def char(self, name, cs):
        return self._get(name)

    def text(self, name, n, cs):
        return "".join(self._get(name) for _ in range(n))

    def digits(self, name, n):
        return "".join(self._get(name) for _ in range(n))

    def choice(self, name, n):
        return int(self._get(name))

    def entry(self, name, table):
        return table[int(self._get(name))]

    def entries(self, name, *tables):
        i = int(self._get(name))
        return tuple(t[i] for t in tables)

    def dec(self, name, lo, hi, places):
        from fractions import Fraction
        return float(Fraction(int(self._get(name)), 10 ** places))

    def hash_order(self, on=True):
        pass

    def new_process(self):
        pass

    def assume(self, cond):
        if not cond:
            raise Skip()

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def check(self, label, cond, detail=None):
        ok = bool(cond)
        self.checks.append((label, ok, None if ok else _short(detail() if callable(detail) else detail)))
        return ok

    def check_eq(self, label, a, b, detail=None):
        ok = a == b
        self.checks.append((label, bool(ok), None if ok else _short(
            {"got": a, "expected": b, "detail": detail() if callable(detail) else detail})))
        return bool(ok)

    def fail(self, label, detail=None):
        return self.check(label, False, detail)

    def observe(self, label, value):
        self.obs.append((label, norm(value)))

    def reach(self, label):
        self.reached.append(label)

    def concrete(self, s):
        return s


def _short(x):
    s = repr(x)
    return s if len(s) < 4000 else s[:4000] + "..."


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return [[norm(k), norm(x)] for k, x in v.items()]
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, str):
        return str.__str__(v) if type(v) is not str else v
    return repr(v)


def run_native(fn, inputs):
    t = NatT(inputs)
    err = None
    skipped = False
    try:
        fn(t)
    except Skip:
        skipped = True
    except Exception as e:
        err = {"type": type(e).__name__, "msg": str(e)[:500],
               "tb": traceback.format_exc()[-3000:]}
    return {"obs": t.obs, "checks": t.checks, "err": err, "skipped": skipped, "reached": t.reached}
