"""Symbolic numbers and booleans."""
import math
import numbers
from fractions import Fraction

import z3

from . import core

U53 = z3.Q(1, 2 ** 53)
U53F = Fraction(1, 2 ** 53)


def ctx():
    return core.CTX


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __and__(self, o):
        return SymBool(z3.And(self.z, tobool(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.z, tobool(o)))

    __rand__ = __and__
    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))


def tobool(x):
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


def mk(z, lo=None, hi=None, digits=None):
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z, lo, hi)


def add_(a, b):
    return None if a is None or b is None else a + b


class SymInt:
    __slots__ = ("z", "lo", "hi", "src", "dm", "lin")

    def __init__(self, z, lo=None, hi=None):
        self.z, self.lo, self.hi = z, lo, hi
        self.src = None
        # dm=(x, d, m): the value is (x // d) % m (m None: no modulus)
        self.dm = None
        # lin: the value is a sum of coefficient * digit, as ((coefficient, SymInt with dm), ...)
        self.lin = None

    # ---- helpers
    @staticmethod
    def parts(o):
        if isinstance(o, SymInt):
            return o.z, o.lo, o.hi
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, int):
            return z3.IntVal(o), o, o
        return None

    def nonneg(self):
        if self.lo is not None and self.lo >= 0:
            return True
        return ctx().branch(self.z >= 0)

    def __add__(self, o):
        if isinstance(o, (float, SymReal)):
            return self.to_real() + o
        p = self.parts(o)
        if p is None:
            return NotImplemented
        if isinstance(o, SymInt):
            la, lb = lin_of(self), lin_of(o)
            if la is not None and lb is not None and len(la) + len(lb) < 8:
                r = lin_sum(la + lb)
                if r is not None:
                    return r
        return mk(z3.simplify(self.z + p[0]), add_(self.lo, p[1]), add_(self.hi, p[2]))

    __radd__ = __add__

    def __neg__(self):
        return mk(z3.simplify(-self.z), None if self.hi is None else -self.hi,
                  None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.nonneg() else -self

    def __sub__(self, o):
        if isinstance(o, (float, SymReal)):
            return self.to_real() - o
        p = self.parts(o)
        if p is None:
            return NotImplemented
        return self + (-o if not isinstance(o, SymBool) else -int(o))

    def __rsub__(self, o):
        if isinstance(o, (float, SymReal)):
            return o - self.to_real()
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (float, SymReal)):
            return self.to_real() * o
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        p = self.parts(o)
        if p is None:
            return NotImplemented
        if isinstance(o, SymInt) and not (o.lo is not None and o.lo == o.hi):
            bs = [None if x is None or y is None else x * y
                  for x in (self.lo, self.hi) for y in (o.lo, o.hi)]
        else:
            bs = [None if x is None else x * p[1] for x in (self.lo, self.hi)]
        lo = hi = None
        if None not in bs:
            lo, hi = min(bs), max(bs)
        elif isinstance(o, int) and o >= 0:
            lo = None if self.lo is None else self.lo * o
            hi = None if self.hi is None else self.hi * o
        r = mk(z3.simplify(self.z * p[0]), lo, hi)
        if isinstance(o, int) and o != 0 and isinstance(r, SymInt):
            la = lin_of(self)
            if la is not None:
                r.lin = tuple((k * int(o), v) for k, v in la)
        return r

    __rmul__ = __mul__

    def _posdiv(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        return o

    def __floordiv__(self, o):
        if isinstance(o, (float, SymReal)):
            return self.to_real() // o
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        o = self._posdiv(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        lo = None if self.lo is None else self.lo // o
        hi = None if self.hi is None else self.hi // o
        if lo is not None and lo == hi:
            return lo
        if o == 1:
            return self
        x, d, m = self.dm or (self, 1, None)
        if m is None or m % o == 0:
            return digit_of(x, d * o, None if m is None else m // o, lo, hi)
        return digit_of(self, o, None, lo, hi)

    def __mod__(self, o):
        if isinstance(o, (float, SymReal)):
            return self.to_real() % o
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        o = self._posdiv(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return self - (self // o) * o
        if self.lo is not None and self.hi is not None and 0 <= self.lo and self.hi < o:
            return self
        x, d, m = self.dm or (self, 1, None)
        if m is None or m % o == 0:
            return digit_of(x, d, o, 0, o - 1)
        return digit_of(self, 1, o, 0, o - 1)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        return self.to_real() / o

    def __rtruediv__(self, o):
        return o / self.to_real()

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self * (1 << o)

    def __rshift__(self, o):
        return self // (1 << o)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return self.__index__() & (o if isinstance(o, int) else o.__index__())

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | (o if isinstance(o, int) else o.__index__())

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ (o if isinstance(o, int) else o.__index__())

    __rxor__ = __xor__

    def _cmp(self, o, op):
        if isinstance(o, (float, SymReal)):
            return None
        p = self.parts(o)
        if p is None:
            return NotImplemented
        z, lo, hi = p
        if op == "lt":
            if self.hi is not None and lo is not None and self.hi < lo:
                return True
            if self.lo is not None and hi is not None and self.lo >= hi:
                return False
            return wrapb(self.z < z)
        if op == "le":
            if self.hi is not None and lo is not None and self.hi <= lo:
                return True
            if self.lo is not None and hi is not None and self.lo > hi:
                return False
            return wrapb(self.z <= z)
        if op == "eq":
            if (self.hi is not None and lo is not None and self.hi < lo) or \
                    (self.lo is not None and hi is not None and self.lo > hi):
                return False
            return wrapb(self.z == z)

    def __lt__(self, o):
        r = self._cmp(o, "lt")
        return self.to_real() < o if r is None else r

    def __le__(self, o):
        r = self._cmp(o, "le")
        return self.to_real() <= o if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, "le")
        if r is None:
            return self.to_real() > o
        return r if r is NotImplemented else notb(r)

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        if r is None:
            return self.to_real() >= o
        return r if r is NotImplemented else notb(r)

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return self.to_real() == o if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        if r is None:
            return self.to_real() != o
        return r if r is NotImplemented else notb(r)

    def __hash__(self):
        # native containers get a constant hash and fall back on (forking) equality
        return 0x5A5A

    def __bool__(self):
        if self.lo is not None and self.lo > 0:
            return True
        return ctx().branch(self.z != 0)

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(self)

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(concretize_int(self))

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def to_real(self):
        return SymReal(z3.ToReal(self.z), self.lo, self.hi, isint=True, dec=(self, 0))

    def __str__(self):
        return int_digits(self, 1)

    def __repr__(self):
        return int_digits(self, 1)

    def __format__(self, spec):
        return format_int(self, spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def wrapb(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def notb(b):
    if isinstance(b, SymBool):
        return wrapb(z3.Not(b.z))
    return not b


def concretize_int(x, limit=64):
    """Fork over the feasible values (bounded)."""
    c = ctx()
    n = 0
    while True:
        m = c.get_model()
        v = m.eval(x.z, model_completion=True).as_long()
        n += 1
        if n > limit:
            c.note("realize:int")
            c.add(x.z == v)
            return v
        if c.branch(x.z == v):
            return v


def int_digits(x, width, sign=""):
    """Decimal digits of x as placeholder string, zero padded to width."""
    c = ctx()
    if not x.nonneg():
        return "-" + int_digits(-x, max(width - 1, 1))
    n = max(width, 1)
    while True:
        if x.hi is not None and x.hi < 10 ** n:
            break
        if c.branch(x.z < 10 ** n):
            break
        n += 1
        if n > 25:
            c.abort("int too large to print")
    if x.src is not None and len(x.src) >= 1:
        # digits parsed from a string: reuse them
        s = x.src
        if len(s) == n:
            return s
        if len(s) < n:
            return "0" * (n - len(s)) + s
        # leading zeros are entailed by x < 10**n
        return s[len(s) - n:]
    if x.hi is not None and n > 1 and x.hi < 10 ** (n - 1):
        # leading zeros
        k = len(str(x.hi))
        return "0" * (n - k) + int_digits(x, k)
    key = ("digits", x.z.get_id(), n)
    r = c.cache.get(key)
    if r is not None:
        return r[0]
    out, vs = [], []
    from .core import DigitGroup, Term, mask_range
    for i in range(n):
        top = 9
        if i == 0 and x.hi is not None and x.lo is not None and x.lo >= 0:
            top = min(9, x.hi // 10 ** (n - 1))
        v = c.new_var(f"digit{i}", mask_range(48, 48 + top))
        vs.append(v)
        out.append(c.ph(Term(v)))
    DigitGroup(c, x, vs)
    s = "".join(out)
    c.cache[key] = (s, x.z)
    c.dsrc = getattr(c, "dsrc", {})
    c.dsrc[s] = x
    return s


def hex_digits(x, width, upper):
    from .core import HexGroup, Term
    c = ctx()
    if not x.nonneg():
        return "-" + hex_digits(-x, max(width - 1, 1), upper)
    n = max(width, 1)
    while not (x.hi is not None and x.hi < 16 ** n) and not c.branch(x.z < 16 ** n):
        n += 1
        if n > 20:
            c.abort("int too large to print")
    key = ("hex", x.z.get_id(), n, upper)
    r = c.cache.get(key)
    if r is None:
        vs = [c.new_var(f"hex{i}", 0) for i in range(n)]
        g = HexGroup(c, x, vs, upper)
        for v in vs:
            c.dom[v.id] = g.mask
        r = ("".join([c.ph(Term(v)) for v in vs]), x.z)
        c.cache[key] = r
    return r[0]


def format_int(x, spec):
    import re
    h = re.fullmatch(r"(?:0(\d+))?([xX])", spec)
    if h:
        return hex_digits(x, int(h[1] or 1), h[2] == "X")
    m = re.fullmatch(r"(?:(.)?([<>^=]))?([-+ ]?)(0?)(\d*)(,?)(?:\.(\d+))?([dnfegs]?)", spec)
    if not m:
        ctx().note("realize:int format " + spec)
        return format(concretize_int(x), spec)
    fill, align, sgn, zero, width, comma, prec, typ = m.groups()
    if typ in ("f", "e", "g") or prec:
        return format_real(x.to_real(), spec)
    if comma or sgn in ("+", " "):
        ctx().note("realize:int format " + spec)
        return format(concretize_int(x), spec)
    w = int(width) if width else 0
    if zero and not align:
        return int_digits(x, w or 1)
    s = int_digits(x, 1)
    if len(s) >= w:
        return s
    fill = fill or ("0" if zero else " ")
    if align in (">", None, "=") or not align:
        return fill * (w - len(s)) + s
    if align == "<":
        return s + fill * (w - len(s))
    k = w - len(s)
    return fill * (k // 2) + s + fill * (k - k // 2)


def parse_digits(s):
    """int(s) for an ASCII digit string with placeholders (digits already established)."""
    c = ctx()
    src = getattr(c, "dsrc", {})
    if s in src:
        return src[s]
    t = s.lstrip("0")
    if t != s and t in src:
        return src[t]
    key = ("parse", s)
    r = c.cache.get(key)
    if r is not None:
        return r
    e = None
    n = len(s)
    hi = 0
    parts = []
    const = 0
    for i, ch in enumerate(s):
        p = 10 ** (n - 1 - i)
        if ord(ch) < 128:
            const += (ord(ch) - 48) * p
            hi += (ord(ch) - 48) * p
        else:
            parts.append((c.ch_z(ch) - 48) * p)
            hi += 9 * p
    if not parts:
        return const
    e = z3.simplify(z3.Sum(parts + [z3.IntVal(const)]))
    r = SymInt(e, const, hi)
    r.src = s
    c.cache[key] = r
    return r


def digit_of(x, d, m, lo, hi):
    """(x // d) % m"""
    if m is not None and x.lo is not None and x.hi is not None and 0 <= x.lo // d and x.hi // d < m:
        m = None
        lo, hi = x.lo // d, x.hi // d
        if lo == hi:
            return lo
    if m == 1:
        return 0
    z = x.z
    if d != 1:
        z = z / d
    if m is not None:
        z = z % m
    r = mk(z3.simplify(z), lo, hi)
    if isinstance(r, SymInt) and r is not x:
        r.dm = (x, d, m)
    return r


def lin_of(a):
    if a.lin is not None:
        return a.lin
    if a.dm is not None:
        return ((1, a),)
    return None


def lin_sum(terms):
    """sum of coefficient * digit, adjacent digits of one number put together; None when nothing is gained"""
    ts = sorted(terms, key=lambda t: (t[1].dm[0].z.get_id(), -t[1].dm[1]))
    out = []
    for c, v in ts:
        if out:
            c0, v0 = out[-1]
            (x0, d0, m0), (x, d, m) = v0.dm, v.dm
            if x0 is x and m is not None and d0 == d * m and c0 == c * m:
                mm = None if m0 is None else m0 * m
                lo, hi = (None if x.lo is None else x.lo // d, None if x.hi is None else x.hi // d) if mm is None else (0, mm - 1)
                n = digit_of(x, d, mm, lo, hi)
                if not isinstance(n, SymInt):
                    return None
                if n.dm is None:
                    n2 = SymInt(n.z, n.lo, n.hi)
                    n2.dm = (n, 1, None)
                    n = n2
                out[-1] = (c, n)
                continue
        out.append((c, v))
    z = lo = hi = None
    for c, v in out:
        e = v.z if c == 1 else v.z * c
        z = e if z is None else z + e
        l, h = (v.lo, v.hi) if c > 0 else (v.hi, v.lo)
        l, h = None if l is None else l * c, None if h is None else h * c
        lo, hi = (l, h) if lo is None and hi is None and z is e else (add_(lo, l), add_(hi, h))
    r = mk(z3.simplify(z), lo, hi)
    if isinstance(r, SymInt):
        if len(out) == 1 and out[0][0] == 1:
            r.dm = out[0][1].dm
        else:
            r.lin = tuple(out)
    return r


def merge_digits(pairs):
    """[(a, b)] -> equivalent list of (a, b) to be equal: adjacent digits of the same two numbers are compared at once"""
    out = []
    for a, b in pairs:
        da, db = getattr(a, "dm", None), getattr(b, "dm", None)
        if out and da and db and da[1] == db[1] and da[2] == db[2] and da[2] is not None:
            pa, pb = out[-1]
            ea, eb = getattr(pa, "dm", None), getattr(pb, "dm", None)
            if (ea and eb and ea[0] is da[0] and eb[0] is db[0] and ea[1:] == eb[1:] and ea[1] == da[1] * da[2]):
                m = None if ea[2] is None else ea[2] * da[2]
                hi = None if m is None else m - 1
                out[-1] = (digit_of(da[0], da[1], m, None if m is None else 0, hi),
                           digit_of(db[0], db[1], m, None if m is None else 0, hi))
                continue
        out.append((a, b))
    return out


class SymReal:
    """A float: z is the z3 Real term of its exact value.

    isint: the value is an integer; dec=(n, k): the float is the correctly rounded n / 10**k."""
    __slots__ = ("_z", "lo", "hi", "isint", "dec", "rat", "gr", "ap", "hk", "pend")

    def __init__(self, z, lo=None, hi=None, isint=False, dec=None, rat=None, gr=None):
        # gr: the value is a multiple of 2**-gr (sums and products on such a grid below 2**53 are exact)
        self.gr = 0 if isint else gr
        # rat=(n, d): the float is the correctly rounded n / d, n a SymInt below 2**53, d a positive int
        self._z, self.lo, self.hi, self.isint, self.dec, self.rat = z, lo, hi, isint, dec, rat
        # ap=(n, d, err): |value - n/d| <= err; hk: how the value was computed; pend: its rounding constraints, not yet added
        self.ap = self.hk = self.pend = None

    @property
    def z(self):
        if self.pend is not None:
            f, self.pend = self.pend, None
            f(self._z)
        if self._z is None:
            # a correctly rounded decimal: its rounding constraints are only added when the exact value matters
            k, n = self.dec
            r = rounded(z3.ToReal(k.z) / (10 ** n), Fraction(k.lo, 10 ** n), Fraction(k.hi, 10 ** n), False)
            self._z = r.z if isinstance(r, SymReal) else z3.Q(Fraction(r).numerator, Fraction(r).denominator)
        return self._z

    @staticmethod
    def conv(o):
        if isinstance(o, SymReal):
            return o
        if isinstance(o, SymInt):
            return o.to_real()
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, (int, float)):
            f = Fraction(o)
            d = f.denominator
            return SymReal(z3.Q(f.numerator, d), f, f, d == 1, gr=d.bit_length() - 1)
        return None

    def __add__(self, o):
        o = self.conv(o)
        if o is None:
            return NotImplemented
        lo, hi = add_(self.lo, o.lo), add_(self.hi, o.hi)
        return keep_int(arith("+", self, o, lambda: self.z + o.z if self.z.get_id() <= o.z.get_id() else o.z + self.z,
                              lo, hi, self.isint and o.isint,
                              gr=None if self.gr is None or o.gr is None else max(self.gr, o.gr)), self, o, lambda a, b: a + b)

    __radd__ = __add__

    def __neg__(self):
        if self.ap is not None and self.dec is None and not self.isint and self.pend is not None:
            return arith("-", self, None, lambda: -self.z, None if self.hi is None else -self.hi,
                         None if self.lo is None else -self.lo, False)
        r = SymReal(-self.z, None if self.hi is None else -self.hi,
                    None if self.lo is None else -self.lo, self.isint, gr=self.gr)
        a = approx(self)
        if a is not None:
            r.ap = (-a[0], a[1], a[2])
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __sub__(self, o):
        o = self.conv(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self.conv(o)
        return o + (-self)

    def __mul__(self, o):
        o = self.conv(o)
        if o is None:
            return NotImplemented
        lo = hi = None
        if None not in (self.lo, self.hi, o.lo, o.hi):
            bs = [x * y for x in (self.lo, self.hi) for y in (o.lo, o.hi)]
            lo, hi = min(bs), max(bs)
        return keep_int(arith("*", self, o, lambda: self.z * o.z if self.z.get_id() <= o.z.get_id() else o.z * self.z,
                              lo, hi, self.isint and o.isint,
                              gr=None if self.gr is None or o.gr is None else self.gr + o.gr), self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.conv(o)
        if o is None:
            return NotImplemented
        if o.lo is not None and o.lo == o.hi:
            k = o.lo
            if k == 0:
                raise ZeroDivisionError("float division by zero")
            lo = None if self.lo is None else self.lo / k
            hi = None if self.hi is None else self.hi / k
            if k < 0:
                lo, hi = hi, lo
            exact = k.denominator == 1 and bin(k.numerator).count("1") == 1
            if self.dec is not None and k > 0 and k.denominator == 1 and str(k.numerator).strip("0") == "1" \
                    and self.isint and self.dec[1] == 0:
                return from_dec(self.dec[0], len(str(k.numerator)) - 1)
            r = arith("/", self, o, lambda: self.z / z3.Q(k.numerator, k.denominator), lo, hi, False, exact=exact,
                      gr=self.gr + k.numerator.bit_length() - 1
                      if exact and self.gr is not None and k > 0 else None)
            if isinstance(r, SymReal) and k > 0 and k.denominator == 1 and self.isint and self.dec is not None \
                    and self.dec[1] == 0 and not r.isint and r.rat is None:
                r.rat = rat_of(self.dec[0], k.numerator)
            return r
        if bool(o == 0):
            raise ZeroDivisionError("float division by zero")
        return rounded(self.z / o.z, None, None, False)

    def __rtruediv__(self, o):
        return self.conv(o) / self

    def __floordiv__(self, o):
        o = self.conv(o)
        if o is None:
            return NotImplemented
        if o.lo is not None and o.lo == o.hi and o.lo > 0 and Fraction(o.lo).denominator == 1:
            # CPython computes the floor of the exact quotient
            k = int(o.lo)
            n = int_part(self)
            if n is not None:
                q = n // k
            elif self.rat is not None and self.rat[0].lo >= 0:
                q = self.rat[0] // (self.rat[1] * k)
            else:
                q = mk(z3.simplify(z3.ToInt(self.z / z3.IntVal(k))),
                       None if self.lo is None else (Fraction(self.lo) / k).__floor__(),
                       None if self.hi is None else (Fraction(self.hi) / k).__floor__())
        else:
            q = floor_(self / o)
        return q.to_real() if isinstance(q, SymInt) else float(q)

    def __mod__(self, o):
        o2 = self.conv(o)
        if o2 is None:
            return NotImplemented
        # Python float % is exact up to one rounding for positive divisors
        q = z3.ToInt(self.z / o2.z)
        return rounded(self.z - z3.ToReal(q) * o2.z, Fraction(0), o2.hi, self.isint and o2.isint)

    def __rmod__(self, o):
        return NotImplemented if isinstance(o, str) else self.conv(o) % self

    def __rfloordiv__(self, o):
        return self.conv(o) // self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if o == 2:
            return self * self
        return realize_real(self) ** o

    def _cmp(self, o, op):
        o = self.conv(o)
        if o is None:
            return NotImplemented
        d1, d2 = self.decimal(), o.decimal()
        if d1 is not None and d2 is not None:
            # decimals of at most 15 digits: rounding to a float is injective and monotone
            n = max(d1[1], d2[1])
            a, b = d1[0] * 10 ** (n - d1[1]), d2[0] * 10 ** (n - d2[1])
            if abs_below(a, 10 ** 15) and abs_below(b, 10 ** 15):
                return {"eq": lambda: a == b, "lt": lambda: a < b, "le": lambda: a <= b}[op]()
        if self is o:
            return op != "lt"
        if self.hk is not None or o.hk is not None:
            a, b = approx(self), approx(o)
            if a is not None and b is not None:
                x, y = a[0] * b[1], b[0] * a[1]
                e = a[2] + b[2]
                if e * a[1] * b[1] < 1:
                    # the rational values differ by more than the rounding errors unless they are equal
                    if e == 0:
                        return {"eq": lambda: x == y, "lt": lambda: x < y, "le": lambda: x <= y}[op]()
                    if not bool(x == y):
                        return False if op == "eq" else x < y
        if op == "lt":
            if self.hi is not None and o.lo is not None and self.hi < o.lo:
                return True
            if self.lo is not None and o.hi is not None and self.lo >= o.hi:
                return False
            return wrapb(self.z < o.z)
        if op == "le":
            if self.hi is not None and o.lo is not None and self.hi <= o.lo:
                return True
            if self.lo is not None and o.hi is not None and self.lo > o.hi:
                return False
            return wrapb(self.z <= o.z)
        return wrapb(self.z == o.z)

    def decimal(self):
        """(k, n): this float is k / 10**n correctly rounded; or None"""
        if self.dec is not None:
            return self.dec
        if self.lo is not None and self.lo == self.hi:
            return dec_of_float(float(self.lo)) if Fraction(float(self.lo)) == self.lo else None
        return None

    def key(self):
        """an injective z3 term for this float, shared by every way of computing it"""
        d = self.decimal()
        if d is not None and abs_below(d[0], 10 ** 15):
            return z3.simplify(z3.ToReal(d[0].z if isinstance(d[0], SymInt) else z3.IntVal(d[0])) / 10 ** d[1])
        if self.pend is not None:
            return self._z
        return self.z

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        r = self._cmp(o, "le")
        return r if r is NotImplemented else notb(r)

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else notb(r)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else notb(r)

    def __hash__(self):
        return 0x5A5A

    def __bool__(self):
        if self.dec is not None:
            return bool(self.dec[0] != 0)
        if self.lo is not None and self.lo > 0 or self.hi is not None and self.hi < 0:
            return True
        return bool(self != 0)

    def __int__(self):
        return concretize_int(trunc_(self))

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __float__(self):
        return realize_real(self)

    def is_integer(self):
        if self.isint:
            return True
        if self.dec is not None and abs_below(self.dec[0], 10 ** 15):
            return self.dec[0] % 10 ** self.dec[1] == 0
        return wrapb(z3.IsInt(self.z))

    def __round__(self, n=None):
        if n is None:
            return round_half_even(self)
        if self.isint and n >= 0:
            return self
        return round_dec(self, n)

    def __str__(self):
        return real_str(self)

    def __repr__(self):
        return real_str(self)

    def __format__(self, spec):
        return format_real(self, spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def abs_below(k, m):
    if isinstance(k, SymInt):
        return k.lo is not None and k.hi is not None and -m < k.lo and k.hi < m
    return -m < k < m


def dec_of_float(f):
    """(k, n) of the shortest decimal that reads as this float, or None"""
    from decimal import Decimal
    if f != f or f in (float("inf"), float("-inf")):
        return None
    sign, digits, exp = Decimal(repr(f)).as_tuple()
    k = int("".join(map(str, digits))) * (-1 if sign else 1)
    if exp >= 0:
        return (k * 10 ** exp, 0) if exp < 16 else None
    return (k, -exp) if -exp < 16 else None


def rat_of(n, d):
    if isinstance(n, SymInt) and n.lo is not None and n.hi is not None and -2 ** 53 < n.lo and n.hi < 2 ** 53:
        return (n, int(d))
    return None


def int_part(r):
    """The integer a float equals exactly (SymInt or int), or None."""
    if not r.isint:
        return None
    if r.dec is not None and r.dec[1] == 0:
        return r.dec[0]
    if r.lo is not None and r.lo == r.hi and Fraction(r.lo).denominator == 1:
        return int(r.lo)
    return None


def keep_int(r, a, b, op):
    if isinstance(r, SymReal) and r.isint and r.dec is None:
        x, y = int_part(a), int_part(b)
        if x is not None and y is not None and r.lo is not None and r.hi is not None \
                and -2 ** 53 < r.lo and r.hi < 2 ** 53:
            n = op(x, y)
            if isinstance(n, SymInt):
                return SymReal(r.z, r.lo, r.hi, True, dec=(n, 0))
    return r


def approx(r):
    """(n, d, err) with |r - n/d| <= err, n an integer term, d a positive int; or None"""
    if r.ap is not None:
        return r.ap
    if r.lo is None or r.hi is None:
        return None
    m = max(abs(r.lo), abs(r.hi))
    n = int_part(r)
    if n is not None:
        r.ap = (n, 1, Fraction(0))
    elif r.dec is not None:
        r.ap = (r.dec[0], 10 ** r.dec[1], m * U53F)
    elif r.rat is not None:
        r.ap = (r.rat[0], r.rat[1], m * U53F)
    elif r.lo == r.hi:
        f = Fraction(r.lo)
        if f.denominator < 10 ** 6:
            r.ap = (f.numerator, f.denominator, Fraction(0))
        else:
            g = f.limit_denominator(10 ** 4)
            if abs(f - g) <= abs(f) * U53F * 4:
                r.ap = (g.numerator, g.denominator, abs(f - g))
    return r.ap


def hkey(r):
    if r.hk is not None:
        return r.hk
    if r.lo is not None and r.lo == r.hi:
        return ("c", str(r.lo))
    if r.dec is not None:
        return ("d", r.dec[0].z.get_id() if isinstance(r.dec[0], SymInt) else r.dec[0], r.dec[1])
    return ("z", r.z.get_id())


def arith(op, a, b, mke, lo, hi, isint, exact=False, gr=None):
    """a op b: exact results directly, rounded ones as a variable whose constraints are added when its exact value matters"""
    big = 2 ** 53
    ap = None
    pa, pb = approx(a), None if b is None else approx(b)
    if pa is not None and lo is not None and hi is not None:
        ma = max(abs(a.lo), abs(a.hi))
        if op == "-":
            ap = (-pa[0], pa[1], pa[2])
        elif pb is not None:
            mb = max(abs(b.lo), abs(b.hi))
            if op == "+":
                g = math.gcd(pa[1], pb[1])
                ap = (pa[0] * (pb[1] // g) + pb[0] * (pa[1] // g), pa[1] // g * pb[1], pa[2] + pb[2])
            elif op == "*" and (isinstance(pa[0], int) or isinstance(pb[0], int)):
                x, y = (pa, pb) if isinstance(pb[0], int) else (pb, pa)
                if y[0] != 0:
                    g = math.gcd(y[0], x[1])
                    ap = (x[0] * (y[0] // g), x[1] // g * y[1], ma * pb[2] + mb * pa[2] + pa[2] * pb[2])
            elif op == "/" and pb[2] == 0 and isinstance(pb[0], int) and pb[0] > 0:
                g = math.gcd(pb[1], pa[1])
                ap = (pa[0] * (pb[1] // g), pa[1] // g * pb[0], pa[2] * pb[1] / pb[0])
    known = lo is not None and hi is not None
    same = (a.lo is not None and a.lo == a.hi and (b is None or b.lo is not None and b.lo == b.hi))
    is_exact = known and ((isint or exact) and -big <= lo and hi <= big
                          or gr is not None and gr < 60 and -big <= lo * 2 ** gr and hi * 2 ** gr <= big)
    if same or is_exact or ap is None:
        r = rounded(mke(), lo, hi, isint, exact=exact, gr=gr)
        if isinstance(r, SymReal) and ap is not None and is_exact:
            r.ap = ap
        return r
    c = ctx()
    ka, kb = hkey(a), None if b is None else hkey(b)
    if op in "+*" and repr(kb) < repr(ka):
        ka, kb = kb, ka
    hk = (op, ka, kb)
    out = c.cache.get(("lazy", hk))
    if out is not None:
        return out[0]
    m = max(abs(lo), abs(hi))
    err = ap[2] if op == "-" else ap[2] + m * U53F
    w = m * U53F
    lo2 = lo - w if lo < 0 or lo > 0 else lo
    hi2 = hi + w if hi > 0 or hi < 0 else hi
    if op != "-" and m <= big:
        # rounding never crosses an integer
        lo2, hi2 = max(lo2, Fraction(lo.__floor__())), min(hi2, Fraction(hi.__ceil__()))
    v = c.fresh_real("fl")

    def force(v):
        r = -a.z if op == "-" else rounded(mke(), lo, hi, isint, exact=exact, gr=gr)
        c.solver.add(v == to_z(r))
        c.model = None
    out = SymReal(v, lo2, hi2, isint)
    out.ap, out.hk, out.pend = (ap[0], ap[1], err), hk, force
    c.cache[("lazy", hk)] = (out, a, b)
    return out


def rounded(e, lo, hi, isint, exact=False, gr=None):
    """Result of a float operation with exact real value e."""
    c = ctx()
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return float(f)
    big = 2 ** 53
    if lo is not None and hi is not None:
        if (isint or exact) and -big <= lo and hi <= big:
            return SymReal(e, lo, hi, isint, gr=gr)
        if gr is not None and gr < 60 and -big <= lo * 2 ** gr and hi * 2 ** gr <= big:
            return SymReal(e, lo, hi, isint, gr=gr)
    key = ("rnd", e.get_id())
    r = c.cache.get(key)
    if r is not None:
        return r[0]
    r = c.fresh_real("fl")
    if lo is not None and lo >= 0:
        cons = [r >= e * (1 - U53), r <= e * (1 + U53)]
        lo2 = Fraction(0) if lo < 1 else lo * (1 - U53F)
        hi2 = None if hi is None else hi * (1 + U53F)
    elif hi is not None and hi <= 0:
        cons = [r <= e * (1 - U53), r >= e * (1 + U53)]
        lo2 = None if lo is None else lo * (1 + U53F)
        hi2 = Fraction(0)
    else:
        cons = [z3.If(e >= 0, z3.And(r >= e * (1 - U53), r <= e * (1 + U53)),
                      z3.And(r <= e * (1 - U53), r >= e * (1 + U53)))]
        lo2 = None if lo is None else lo - abs(lo) * U53F
        hi2 = None if hi is None else hi + abs(hi) * U53F
    if lo is not None and hi is not None and -big <= lo and hi <= big:
        fl = z3.ToInt(e)
        cons.append(r >= z3.ToReal(fl))
        cons.append(r <= z3.ToReal(fl) + 1)
        cons.append(z3.Implies(e == z3.ToReal(fl), r == e))
        if lo2 is not None:
            lo2 = max(lo2, Fraction(lo.__floor__()))
        if hi2 is not None:
            hi2 = min(hi2, Fraction(hi.__ceil__()))
    c.solver.add(*cons)
    c.model = None
    out = SymReal(r, lo2, hi2, isint)
    c.cache[key] = (out, e)
    return out


def floor_(r):
    if not isinstance(r, SymReal):
        import math
        return math.floor(r)
    if r.isint and r.dec is not None and r.dec[1] == 0:
        return r.dec[0]
    if r.rat is not None and r.rat[0].lo >= 0:
        # |n/d - nearest integer above| >= 1/d exceeds the rounding error for n < 2**53
        return r.rat[0] // r.rat[1]
    if r.hk is not None:
        ap = approx(r)
        if ap is not None and ap[1] * ap[2] < 1:
            # n/d is an integer or at least 1/d away from one, further than the rounding errors reach
            n, d = ap[0], ap[1]
            if bool(n % d != 0):
                return n // d
    return mk(z3.simplify(z3.ToInt(r.z)), None if r.lo is None else r.lo.__floor__(),
              None if r.hi is None else r.hi.__floor__())


def trunc_(r):
    if not isinstance(r, SymReal):
        return int(r)
    if r.isint and r.dec is not None and r.dec[1] == 0:
        return r.dec[0]
    if (r.lo is not None and r.lo >= 0) or ctx().branch(r.z >= 0):
        return floor_(r)
    return -floor_(-r)


def round_half_even(r):
    c = ctx()
    if r.isint:
        return floor_(r)
    ap = approx(r)
    if ap is not None and isinstance(ap[0], SymInt) and 2 * ap[1] * ap[2] < 1:
        # n/d is a tie or at least 1/2d away from one
        n, d = ap[0], ap[1]
        if d % 2 or bool((2 * n) % (2 * d) != d):
            return (2 * n + d) // (2 * d)
        if r.hk is None and (r.rat is not None or r.dec is not None) and abs_below(n, 2 ** 52):
            # rounded once: a tie is exact
            q = n // d
            return q if bool(q % 2 == 0) else q + 1
    f = floor_(r)
    fz = f.z if isinstance(f, SymInt) else z3.IntVal(f)
    d = r.z - z3.ToReal(fz)
    up = z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2), fz % 2 == 1))
    z = z3.If(up, fz + 1, fz)
    return SymInt(z, None if r.lo is None else r.lo.__floor__(),
                  None if r.hi is None else r.hi.__ceil__())


def round_dec(r, n):
    """round(float, n): correctly rounded decimal (ties over-approximated)."""
    c = ctx()
    if r.dec is not None and r.dec[1] <= n:
        return r
    kz = r.key()
    key = ("rdec", kz.get_id(), n)
    ap = approx(r)
    o = c.cache.get(key)
    if o is not None:
        return o[0]
    k = c.fresh_int("rk")
    if r.dec is not None and isinstance(r.dec[0], SymInt) and abs_below(r.dec[0], 10 ** 15):
        d = 10 ** (r.dec[1] - n)
        c.solver.add(2 * (k * d - r.dec[0].z) <= d, 2 * (r.dec[0].z - k * d) <= d)
    elif r.rat is not None:
        num, d = r.rat[0].z * 10 ** n, r.rat[1]
        c.solver.add(2 * (k * d - num) <= d, 2 * (num - k * d) <= d)
    elif ap is not None and 2 * 10 ** n * ap[1] * ap[2] < 1:
        num, d = to_z(ap[0] * 10 ** n), ap[1]
        c.solver.add(2 * (k * d - num) <= d, 2 * (num - k * d) <= d)
    else:
        t = r.z * (10 ** n)
        c.solver.add(z3.ToReal(k) - t <= z3.Q(1, 2), t - z3.ToReal(k) <= z3.Q(1, 2))
    c.model = None
    lo = None if r.lo is None else (r.lo * 10 ** n).__floor__()
    hi = None if r.hi is None else (r.hi * 10 ** n).__ceil__()
    out = from_dec(SymInt(k, lo, hi), n)
    c.cache[key] = (out, kz)
    return out


def from_dec(k, n):
    """float(k / 10**n) correctly rounded; k SymInt or int."""
    if isinstance(k, int):
        return float(Fraction(k, 10 ** n))
    if n == 0:
        return k.to_real()
    if k.lo is not None and k.hi is not None and n <= 15:
        lo, hi = Fraction(k.lo, 10 ** n), Fraction(k.hi, 10 ** n)
        w = max(abs(lo), abs(hi)) * U53F
        return SymReal(None, lo - w if lo > 0 or lo.denominator > 1 else lo, hi + w if hi.denominator > 1 else hi, False,
                       dec=(k, n), rat=rat_of(k, 10 ** n))
    e = z3.ToReal(k.z) / (10 ** n)
    r = rounded(e, None if k.lo is None else Fraction(k.lo, 10 ** n),
                None if k.hi is None else Fraction(k.hi, 10 ** n), False)
    if not isinstance(r, SymReal):
        return r
    return SymReal(r.z, r.lo, r.hi, False, dec=(k, n), rat=rat_of(k, 10 ** n))


def realize_real(r):
    c = ctx()
    c.note("realize:float")
    m = c.get_model()
    v = m.eval(r.z, model_completion=True)
    f = Fraction(v.numerator_as_long(), v.denominator_as_long())
    c.add(r.z == v)
    return float(f)


def real_str(r):
    """repr(float)"""
    c = ctx()
    if r.isint and r.dec and r.dec[1] == 0:
        return int_digits(r.dec[0], 1) + ".0"
    if r.isint:
        return int_digits(floor_(r), 1) + ".0"
    if r.dec is None:
        return repr(realize_real(r))
    k, n = r.dec
    if not k.nonneg():
        return "-" + real_str(from_dec(-k, n))
    while n > 0 and c.branch(k.z % 10 == 0):
        k = k // 10
        n -= 1
        if isinstance(k, int):
            return repr(float(Fraction(k, 10 ** n)))
    if n == 0:
        return int_digits(k, 1) + ".0"
    s = int_digits(k, n + 1)
    return s[:-n] + "." + s[-n:]


def format_real(r, spec):
    import re
    m = re.fullmatch(r"(0?)(\d*)\.(\d+)f", spec)
    if m:
        n = int(m.group(3))
        d = round_dec(r, n) if not (r.isint and r.dec and r.dec[1] == 0) else r
        if isinstance(d, float):
            return format(d, spec)
        k, kn = d.dec
        if kn < n:
            k = k * 10 ** (n - kn)
        neg = not k.nonneg() if isinstance(k, SymInt) else k < 0
        if neg:
            s = "-" + format_real(from_dec(-k, n), spec)
            return s
        s = int_digits(k, n + 1)
        s = s[:-n] + "." + s[-n:] if n else s
        w = int(m.group(2) or 0)
        if len(s) < w:
            s = ("0" if m.group(1) else " ") * (w - len(s)) + s
        return s
    if spec in ("", "s"):
        return real_str(r)
    if spec == "g":
        s = real_str(r)
        if s.endswith(".0"):
            return s[:-2]
        return s
    m = re.fullmatch(r"0(\d+)", spec)
    if m:
        s = real_str(r)
        return s.rjust(int(m.group(1)), "0")
    return format(realize_real(r), spec)


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


def to_z(x):
    if isinstance(x, (SymInt, SymReal)):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, z3.ExprRef):
        return x
    raise TypeError(x)
