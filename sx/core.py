"""Symbolic context: variables, terms, path condition, z3, forking exploration."""
import json
import os
import random
import re
import signal
import sys
import threading
import time

import z3

UNI = 0x20000
FULL = (1 << UNI) - 1
# bit UNI stands for "every other code point" in class masks (never in a domain)
ALL = (1 << (UNI + 1)) - 1
PH_BASE = 0xF0000
PH_LAST = 0xFFFFD
PH_RE = re.compile("[\U000F0000-\U000FFFFD]")
RLIMIT = 40_000_000
PATH_LIMIT = 0
QLIMIT = 6.0
QFIRST = 0.4
DIGITS = ((1 << 10) - 1) << 48
SLOW = os.environ.get("SX_SLOW")


def has_ph(s):
    return not s.isascii() and PH_RE.search(s) is not None


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


def mask_range(lo, hi):
    return ((1 << (hi - lo + 1)) - 1) << lo


CHARS = [chr(i) for i in range(UNI + 1)]
TO01 = bytes([48]) + bytes([49]) * 255


def mask_pred(pred):
    """Bitmask of the code points for which pred holds (bit UNI stands for all others)."""
    b = bytes(map(bool, map(pred, CHARS)))
    b = b[:0xD800] + bytes(0x800) + b[0xE000:]
    return int(b.translate(TO01)[::-1], 2)


_pred_cache = {}


def cached_pred(name, pred):
    m = _pred_cache.get(name)
    if m is None:
        m = _pred_cache[name] = mask_pred(pred)
    return m


def bits_of(m):
    while m:
        b = (m & -m).bit_length() - 1
        yield b
        m &= m - 1


def intervals(m):
    """Sorted list of (lo, hi) of a bitmask."""
    out = []
    pos = 0
    while m:
        z = (m & -m).bit_length() - 1
        m >>= z
        pos += z
        ones = ((~m) & (m + 1)).bit_length() - 1
        out.append((pos, pos + ones - 1))
        m >>= ones
        pos += ones
    return out


class Var:
    __slots__ = ("id", "name", "_z", "entangled", "ischar", "pend")

    def __init__(self, id, name, ischar=True):
        self.id, self.name, self._z, self.entangled, self.ischar = id, name, None, False, ischar
        # a digit of a number whose definition the solver has not been given yet
        self.pend = None

    @property
    def z(self):
        if self.pend is not None:
            self.pend.force()
        return self._z

    @z.setter
    def z(self, v):
        self._z = v


class DigitGroup:
    """The decimal digits of a number as variables; the solver only learns of them when one is looked at."""

    def __init__(self, c, x, vs):
        self.c, self.x, self.vs = c, x, vs
        for v in vs:
            v.entangled = True
            v.pend = self

    def force(self):
        c, n = self.c, len(self.vs)
        zs = [c.fresh_int("d") for _ in self.vs]
        for v, d in zip(self.vs, zs):
            v.pend = None
            v._z = d + 48
            c.solver.add(d >= 0, d <= 9)
        c.solver.add(self.x.z == (z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(zs)]) if n > 1 else zs[0]))
        for v in self.vs:
            if c.dom[v.id] != DIGITS:
                c.solver.add(c.mask_expr(v._z, c.dom[v.id]))
        c.model = None

    def value(self, var, model):
        x = model.eval(self.x.z, model_completion=True).as_long()
        return 48 + x // 10 ** (len(self.vs) - 1 - self.vs.index(var)) % 10


class HexGroup(DigitGroup):
    """The same for hexadecimal digits."""

    def __init__(self, c, x, vs, upper):
        self.up = 55 if upper else 87
        self.mask = mask_range(48, 57) | mask_range(self.up + 10, self.up + 15)
        super().__init__(c, x, vs)

    def force(self):
        c, n = self.c, len(self.vs)
        zs = [c.fresh_int("h") for _ in self.vs]
        for v, d in zip(self.vs, zs):
            v.pend = None
            v._z = z3.If(d < 10, d + 48, d + self.up)
            c.solver.add(d >= 0, d <= 15)
        c.solver.add(self.x.z == (z3.Sum([d * 16 ** (n - 1 - i) for i, d in enumerate(zs)]) if n > 1 else zs[0]))
        for v in self.vs:
            if c.dom[v.id] != self.mask:
                c.solver.add(c.mask_expr(v._z, c.dom[v.id]))
        c.model = None

    def value(self, var, model):
        x = model.eval(self.x.z, model_completion=True).as_long()
        d = x // 16 ** (len(self.vs) - 1 - self.vs.index(var)) % 16
        return d + (48 if d < 10 else self.up)


class Term:
    """code point = map.get(value(var), value(var)) (map None: identity)."""
    __slots__ = ("var", "map", "digit")

    def __init__(self, var, map=None, digit=None):
        self.var, self.map, self.digit = var, map, digit


class PathEnd(BaseException):
    pass


class Ctx:
    symbolic = True

    def __init__(self):
        self.vars = []
        self.dom = []
        self.terms = []
        self.term_ix = {}
        self.solver = z3.SolverFor("QF_LIRA") if False else z3.Solver()
        self.solver.set("rlimit", RLIMIT)
        self.model = None
        self.nfresh = 0
        self.inputs = []          # (kind, name, payload)
        self.observations = []
        self.checks = []
        self.reached = set()
        self.notes = []           # reasons why this path is inconclusive
        self.funcs = set()
        self.cache = {}
        self.precache = {}
        self.permute_sets = False
        self.set_epoch = 0
        self.perm = {}
        self.results_fd = None
        self.token_r = self.token_w = None
        self.deadline = None
        self.stop_path = None
        self.native_addr = None
        self.seed = 1
        self.scenario = None
        self.depth = 0
        self.sig = 1
        self.on_end = None
        self.ending = False
        self.reset_counters()
        self.known = {}
        self.have_ph_keys = False
        self.funcs_base = frozenset()

    def reset_counters(self):
        self.n_queries = 0
        self.t_solver = 0.0
        self.n_forks = 0
        self.n_domdec = 0
        self.n_unknown = 0
        self.n_asserts = 0
        self.n_assert_q = 0

    # ---------------------------------------------------------------- variables
    def new_var(self, name, mask, ischar=True):
        v = Var(len(self.vars), name, ischar)
        self.vars.append(v)
        self.dom.append(mask)
        return v

    def ph(self, term):
        key = (term.var.id, id(term.map) if term.map is not None else 0)
        i = self.term_ix.get(key)
        if i is None:
            i = len(self.terms)
            if PH_BASE + i > PH_LAST:
                self.abort("too many terms")
            self.terms.append(term)
            self.term_ix[key] = i
        return chr(PH_BASE + i)

    def term(self, ch):
        return self.terms[ord(ch) - PH_BASE]

    def fresh_int(self, prefix="i"):
        self.nfresh += 1
        return z3.Int(f"{prefix}!{self.nfresh}")

    def fresh_real(self, prefix="r"):
        self.nfresh += 1
        return z3.Real(f"{prefix}!{self.nfresh}")

    def mask_expr(self, z, mask):
        iv = intervals(mask)
        if not iv:
            return z3.BoolVal(False)
        parts = [z == lo if lo == hi else z3.And(z >= lo, z <= hi) for lo, hi in iv]
        return parts[0] if len(parts) == 1 else z3.Or(*parts)

    def entangle(self, var):
        if var.z is None:
            var.z = z3.Int(f"v{var.id}")
        if not var.entangled:
            var.entangled = True
            self.add(self.mask_expr(var.z, self.dom[var.id]))
        return var.z

    def term_z(self, t):
        """z3 Int expression of the code point of a term."""
        if t.map is None:
            return self.entangle(t.var)
        d = self.dom[t.var.id]
        z = self.entangle(t.var)
        groups = {}
        n = 0
        if d.bit_count() > 5000:
            # identity default with sparse map
            e = z
            for v, cp in t.map.items():
                if (d >> v) & 1 and v != cp:
                    e = z3.If(z == v, z3.IntVal(cp), e)
            return e
        for v in bits_of(d):
            groups.setdefault(t.map.get(v, v), []).append(v)
        items = sorted(groups.items(), key=lambda kv: len(kv[1]))
        e = z3.IntVal(items[-1][0])
        for cp, vs in items[:-1]:
            m = 0
            for v in vs:
                m |= 1 << v
            e = z3.If(self.mask_expr(z, m), z3.IntVal(cp), e)
        return e

    def ch_z(self, ch):
        if PH_BASE <= ord(ch) <= PH_LAST:
            return self.term_z(self.term(ch))
        return z3.IntVal(ord(ch))

    def preimage(self, t, mask):
        if t.map is None:
            return mask
        key = (id(t.map), mask)
        r = self.precache.get(key)
        if r is None:
            d = FULL & ~self._mapkeys(t.map)
            r = mask & d
            for v, cp in t.map.items():
                if (mask >> cp) & 1:
                    r |= 1 << v
            if len(self.precache) > 5000:
                self.precache.clear()
            self.precache[key] = r
            self.keep(t.map)
        return r

    _kept = []

    def keep(self, o):
        self._kept.append(o)

    def _mapkeys(self, mp):
        m = 0
        for v in mp:
            m |= 1 << v
        return m

    def known_value(self, t):
        d = self.dom[t.var.id]
        if d & (d - 1) == 0:
            v = d.bit_length() - 1
            return v if t.map is None else t.map.get(v, v)
        return None

    def norm(self, s):
        """Replace placeholders whose value is determined."""
        def f(m):
            k = self.known_value(self.term(m.group()))
            return m.group() if k is None else chr(k)
        return PH_RE.sub(f, s)

    # ---------------------------------------------------------------- solver
    def add(self, e):
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def check_sat(self, *assump):
        t = time.perf_counter()
        r = self.timed_check(self.solver, QFIRST, assump)
        self.msolver = self.solver
        if r == z3.unknown:
            # a fresh solver with equation solving often decides what the incremental one cannot
            s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "simplify", "solve-eqs", "smt").solver()
            s2.add(self.solver.assertions())
            s2.add(*assump)
            r = self.timed_check(s2, QLIMIT, ())
            self.msolver = s2
        if r == z3.unknown:
            r = self.timed_check(self.solver, QLIMIT, assump)
            self.msolver = self.solver
        t = time.perf_counter() - t
        self.t_solver += t
        self.n_queries += 1
        if SLOW:
            import traceback
            st = [f for f in traceback.extract_stack() if "/sx/" not in f.filename and "check.py" not in f.filename]
            with open(SLOW + ".prof", "a") as f:
                f.write(f"{t:.3f} {r} {st[-1].filename.split('/')[-1]}:{st[-1].lineno} {st[0].filename.split('/')[-1]}:{st[0].lineno}\n")
        if SLOW and t > 1:
            with open(SLOW + f".{os.getpid()}.{self.n_queries}.smt2", "w") as f:
                s3 = z3.Solver()
                s3.add(self.solver.assertions())
                s3.add(*assump)
                f.write(s3.to_smt2())
            import traceback
            with open(SLOW, "a") as f:
                f.write(f"--- {t:.1f}s {r} {assump}\n" + "".join(traceback.format_stack(limit=16)[:-1]) + "\n")
        if r == z3.unknown:
            self.n_unknown += 1
        return r

    def timed_check(self, solver, limit, assump):
        tm = threading.Timer(limit, z3.main_ctx().interrupt)
        tm.daemon = True
        tm.start()
        try:
            if assump:
                # in a scope of its own, so that the solver drops the query's atoms again
                solver.push()
                solver.add(*assump)
                try:
                    r = solver.check()
                    if r == z3.sat:
                        self.smodel = solver.model()
                finally:
                    solver.pop()
                return r
            r = solver.check()
            if r == z3.sat:
                self.smodel = solver.model()
            return r
        except z3.Z3Exception:
            return z3.unknown
        finally:
            tm.cancel()
            tm.join()

    def feasible(self, e):
        r = self.check_sat(e)
        if r == z3.sat:
            return True, self.smodel
        if r == z3.unsat:
            return False, None
        self.note("solver unknown")
        return True, None

    def decide(self, e):
        """Feasibility of e / not e; returns (t, f, mt, mf)."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True, False, None, None
        if z3.is_false(e):
            return False, True, None, None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                f, mf = self.feasible(z3.Not(e))
                return True, f, self.model, mf
            if z3.is_false(v):
                t, mt = self.feasible(e)
                return t, True, mt, self.model
        t, mt = self.feasible(e)
        if not t:
            return False, True, None, None
        f, mf = self.feasible(z3.Not(e))
        return t, f, mt, mf

    def branch(self, e):
        t, f, mt, mf = self.decide(e)
        if t and not f:
            if mt is not None:
                self.model = mt
            return True
        if f and not t:
            if mf is not None:
                self.model = mf
            return False
        if not t and not f:
            self.end("infeasible")
        if self.fork():
            self.solver.add(e)
            self.model = mt
            return True
        self.solver.add(z3.Not(e))
        self.model = mf
        return False

    # ---------------------------------------------------------------- char tests
    def set_dom(self, var, mask):
        old = self.dom[var.id]
        if old == mask:
            return
        self.dom[var.id] = mask
        if var.entangled:
            self.add(self.mask_expr(var.z, mask))

    def test(self, t, mask):
        var = t.var
        d = self.dom[var.id]
        ins = d & self.preimage(t, mask)
        if ins == d:
            return True
        if ins == 0:
            return False
        outs = d & ~ins
        if var.entangled:
            if ins.bit_count() <= outs.bit_count():
                e = self.mask_expr(var.z, ins)
                pos = True
            else:
                e = self.mask_expr(var.z, outs)
                pos = False
            r = self.branch(e)
            r = r if pos else not r
            self.dom[var.id] = ins if r else outs
            return r
        self.n_domdec += 1
        if self.fork():
            self.dom[var.id] = ins
            return True
        self.dom[var.id] = outs
        return False

    def ch_in(self, ch, mask):
        o = ord(ch)
        if PH_BASE <= o <= PH_LAST:
            return self.test(self.terms[o - PH_BASE], mask)
        if o >= UNI:
            o = UNI
        return (mask >> o) & 1 == 1

    def ch_may(self, ch, mask):
        """Can ch be in mask (no fork, over-approximate)?"""
        o = ord(ch)
        if PH_BASE <= o <= PH_LAST:
            t = self.terms[o - PH_BASE]
            return self.dom[t.var.id] & self.preimage(t, mask) != 0
        if o >= UNI:
            o = UNI
        return (mask >> o) & 1 == 1

    def image(self, t):
        d = self.dom[t.var.id]
        if t.map is None:
            return d
        m = 0
        if d.bit_count() > 5000:
            m = d & ~self._mapkeys(t.map)
            for v, cp in t.map.items():
                if (d >> v) & 1:
                    m |= 1 << cp
            return m
        for v in bits_of(d):
            m |= 1 << t.map.get(v, v)
        return m

    def ch_eq(self, a, b):
        if a == b:
            return True
        oa, ob = ord(a), ord(b)
        pa = PH_BASE <= oa <= PH_LAST
        pb = PH_BASE <= ob <= PH_LAST
        if not pa and not pb:
            return False
        if pa and not pb:
            return self.test(self.terms[oa - PH_BASE], 1 << ob) if ob < UNI else False
        if pb and not pa:
            return self.test(self.terms[ob - PH_BASE], 1 << oa) if oa < UNI else False
        ta, tb = self.terms[oa - PH_BASE], self.terms[ob - PH_BASE]
        ka, kb = self.known_value(ta), self.known_value(tb)
        if ka is not None:
            return self.test(tb, 1 << ka)
        if kb is not None:
            return self.test(ta, 1 << kb)
        if ta.var is tb.var:
            d = self.dom[ta.var.id]
            ma, mb = ta.map or {}, tb.map or {}
            if d.bit_count() > 5000:
                keys = set(ma) | set(mb)
                m = d
                for k in keys:
                    if ma.get(k, k) != mb.get(k, k):
                        m &= ~(1 << k)
            else:
                m = 0
                for v in bits_of(d):
                    if ma.get(v, v) == mb.get(v, v):
                        m |= 1 << v
            return self.test(Term(ta.var), m)
        if self.image(ta) & self.image(tb) == 0:
            return False
        return self.branch(self.term_z(ta) == self.term_z(tb))

    def ch_may_eq(self, a, b):
        if a == b:
            return True
        oa, ob = ord(a), ord(b)
        pa = PH_BASE <= oa <= PH_LAST
        pb = PH_BASE <= ob <= PH_LAST
        if not pa and not pb:
            return False
        ia = self.image(self.terms[oa - PH_BASE]) if pa else (1 << oa)
        ib = self.image(self.terms[ob - PH_BASE]) if pb else (1 << ob)
        return ia & ib != 0

    def str_eq(self, a, b):
        if a == b:
            return True
        if len(a) != len(b):
            return False
        todo = []
        for x, y in zip(a, b):
            if x != y:
                if not self.ch_may_eq(x, y):
                    return False
                todo.append((x, y))
        if len(todo) > 1:
            src = getattr(self, "dsrc", None)
            if src:
                # aligned runs of digits printed from numbers: compare the numbers
                nums = self.digit_runs(a, b, src)
                if nums:
                    from .values import merge_digits
                    es = []
                    done = set()
                    for lo, hi, x, y in nums:
                        done.update(range(lo, hi))
                    for x, y in merge_digits([p[2:] for p in nums]):
                        e = x == y
                        if e is False:
                            return False
                        if e is not True:
                            es.append(e.z)
                    if es and not self.branch(z3.And(*es) if len(es) > 1 else es[0]):
                        return False
                    todo = [(x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y and i not in done]
        for x, y in todo:
            if not self.ch_eq(x, y):
                return False
        return True

    def digit_runs(self, a, b, src):
        def isd(ch):
            o = ord(ch)
            if PH_BASE <= o <= PH_LAST:
                t = self.terms[o - PH_BASE]
                return t.map is None and self.dom[t.var.id] & ~DIGITS == 0
            return 48 <= o <= 57
        out = []
        i = 0
        n = len(a)
        while i < n:
            if not (isd(a[i]) and isd(b[i])):
                i += 1
                continue
            j = i
            while j < n and isd(a[j]) and isd(b[j]):
                j += 1
            ra, rb = a[i:j], b[i:j]
            if ra != rb:
                x = int(ra) if ra.isascii() else src.get(ra)
                y = int(rb) if rb.isascii() else src.get(rb)
                if x is not None and y is not None and not (isinstance(x, int) and isinstance(y, int)):
                    out.append((i, j, x, y))
            i = j
        return out

    def concretize_ch(self, ch, limit=300, why="concretise"):
        """Fork over all values of a symbolic char; returns concrete char."""
        o = ord(ch)
        if not (PH_BASE <= o <= PH_LAST):
            return ch
        t = self.terms[o - PH_BASE]
        img = self.image(t)
        if img.bit_count() > limit:
            self.note(f"realize:{why}")
            k = self.pick_value(t)
            self.pin(t, k)
            return chr(k)
        for b in bits_of(img):
            if img & (img - 1) == 0:
                break
            if self.test(t, 1 << b):
                return chr(b)
            img &= ~(1 << b)
        k = self.known_value(t)
        if k is None:
            for b in bits_of(self.image(t)):
                if self.test(t, 1 << b):
                    return chr(b)
            self.end("infeasible")
        return chr(k)

    def concretize(self, s, limit=300, why="concretise"):
        if not has_ph(s):
            return s
        return "".join(self.concretize_ch(c, limit, why) for c in s)

    def pick_value(self, t):
        if t.var.entangled:
            tz = t.var.z
            m = self.get_model()
            v = m.eval(tz, model_completion=True).as_long()
        else:
            v = self.pick_from(self.dom[t.var.id], t.var)
        return v if t.map is None else t.map.get(v, v)

    def pin(self, t, cp):
        d = self.dom[t.var.id] & self.preimage(t, 1 << cp)
        self.set_dom(t.var, d)

    def realize(self, s, why):
        if isinstance(s, str) and has_ph(s):
            out = []
            self.note(f"realize:{why}")
            for c in s:
                o = ord(c)
                if PH_BASE <= o <= PH_LAST:
                    t = self.terms[o - PH_BASE]
                    k = self.known_value(t)
                    if k is None:
                        k = self.pick_value(t)
                        self.pin(t, k)
                    out.append(chr(k))
                else:
                    out.append(c)
            return "".join(out)
        return s

    def pick_from(self, d, var):
        n = d.bit_length()
        rng = random.Random(self.seed * 1000003 + var.id * 7919 + self.n_paths_hint())
        # prefer ASCII printable half of the time
        if rng.random() < 0.5:
            a = d & mask_range(0x20, 0x7E)
            if a:
                d = a
                n = d.bit_length()
        r = rng.randrange(n)
        m = d >> r
        if m == 0:
            m, r = d, 0
        return r + (m & -m).bit_length() - 1

    def n_paths_hint(self):
        return self.sig

    def get_model(self):
        if self.model is None:
            r = self.check_sat()
            if r == z3.sat:
                self.model = self.smodel
            elif r == z3.unsat:
                self.end("infeasible")
            else:
                self.note("solver unknown (model)")
                self.end("unknown")
        return self.model

    # ---------------------------------------------------------------- exploration
    def note(self, why):
        if why not in self.notes:
            self.notes.append(why)

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            self.end("deadline")
        if self.stop_path and os.path.exists(self.stop_path):
            self.end("stopped")

    def fork(self):
        """Returns True in the child, False in the parent."""
        self.check_deadline()
        self.n_forks += 1
        self.depth += 1
        got = False
        if self.token_r is not None:
            try:
                got = len(os.read(self.token_r, 1)) == 1
            except BlockingIOError:
                got = False
        limit = PATH_LIMIT
        if limit:
            left = signal.setitimer(signal.ITIMER_REAL, 0)[0]
        pid = os.fork()
        if pid == 0:
            self.reset_counters()
            self.is_parallel = got
            if limit:
                signal.setitimer(signal.ITIMER_REAL, limit)
            self.funcs_base = frozenset(self.funcs)
            self.sig = (self.sig * 1103515245 + 12345) & 0x7FFFFFFF
            return True
        if not got:
            try:
                _, st = os.waitpid(pid, 0)
            except ChildProcessError:
                st = 0
            if st != 0:
                self.note(f"child process died ({st})")
            self.check_deadline()
        if limit:
            signal.setitimer(signal.ITIMER_REAL, max(left, 0.5))
        self.sig = (self.sig * 69069 + 1) & 0x7FFFFFFF
        return False

    def end(self, status, **extra):
        """Terminate this path (process)."""
        if self.ending:
            status = "engine-error"
        self.ending = True
        rec = dict(status=status, forks=self.n_forks, queries=self.n_queries, t=self.t_solver,
                   dom=self.n_domdec, unknown=self.n_unknown, asserts=self.n_asserts,
                   assert_q=self.n_assert_q, notes=self.notes, depth=self.depth,
                   scenario=self.scenario, reached=sorted(self.reached), cpu=round(time.process_time(), 3))
        rec.update(extra)
        rec["funcs"] = sorted(self.funcs - self.funcs_base)
        data = (json.dumps(rec) + "\n").encode("utf8", "surrogatepass")
        os.write(self.results_fd, data)
        self.exit()

    def exit(self):
        # exactly one token per terminated process is handed on: a sequential child gives its
        # parent the turn (no token write), a parallel one releases a token.
        if self.is_parallel:
            try:
                os.write(self.token_w, b"x")
            except OSError:
                pass
        os._exit(0)

    is_parallel = False

    def abort(self, why):
        self.note(why)
        self.end("aborted")


def install(ctx):
    global CTX
    CTX = ctx


CTX = None
