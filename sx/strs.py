"""Symbolic implementations of str methods (strings carrying placeholders)."""
import unicodedata

from . import core
from .core import PH_BASE, PH_LAST, PH_RE, Term, UNI, bits_of, cached_pred, has_ph, mask_of

C = lambda: core.CTX


def isph(ch):
    return PH_BASE <= ord(ch) <= PH_LAST


def space_mask():
    return cached_pred("isspace", str.isspace)


LINEB = mask_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")


def single_var(*strs):
    """The only variable the strings depend on, or None."""
    v = None
    c = C()
    for s in strs:
        if not isinstance(s, str) or s.isascii():
            continue
        for ch in PH_RE.findall(s):
            t = c.term(ch)
            if c.known_value(t) is not None:
                continue
            if v is None:
                v = t.var
            elif v is not t.var:
                return None
    return v


def subst(s, var, val):
    c = C()

    def f(m):
        t = c.term(m.group())
        if t.var is var:
            return chr(val if t.map is None else t.map.get(val, val))
        return chr(c.known_value(t))
    return PH_RE.sub(f, s)


def solve_single(s, var, const):
    """Mask of the values of var (the only unknown of s) for which s == const."""
    c = C()
    m = c.dom[var.id]
    if len(s) != len(const):
        return 0
    if has_ph(const):
        const = c.norm(const)
        if has_ph(const):
            return None
    for a, b in zip(s, const):
        if isph(a):
            t = c.term(a)
            k = c.known_value(t)
            if k is not None:
                if k != ord(b):
                    return 0
                continue
            o = ord(b)
            m &= c.preimage(t, 1 << o) if o < UNI else 0
            if not m:
                return 0
        elif a != b:
            return 0
    return m


def table_apply(fn, *args, limit=2048):
    """Apply a pure function exactly when the symbolic strings in args depend on one small var."""
    c = C()
    var = single_var(*args)
    if var is None:
        if not any(isinstance(a, str) and has_ph(a) for a in args):
            return True, fn(*args)
        # all placeholders known?
        n = [c.norm(a) if isinstance(a, str) else a for a in args]
        if not any(isinstance(a, str) and has_ph(a) for a in n):
            return True, fn(*n)
        return False, None
    d = c.dom[var.id]
    if d.bit_count() > limit:
        return False, None
    groups = {}
    for v in bits_of(d):
        try:
            r = fn(*[subst(a, var, v) if isinstance(a, str) else a for a in args])
            if isinstance(r, str):
                key = ("s", len(r))
            elif isinstance(r, bool) or r is None:
                key = ("b", r)
            elif isinstance(r, int):
                key = ("i",)
            elif isinstance(r, (tuple, list)) and r and all(isinstance(x, int) for x in r):
                key = ("t", tuple(r), type(r))
            elif isinstance(r, (float,)):
                key = ("f", r)
            else:
                key = ("o", id(r))
                C().keep(r)
        except Exception as e:
            r = e
            key = ("e", type(e).__name__)
        g = groups.setdefault(key, [0, {}])
        g[0] |= 1 << v
        g[1][v] = r
    keys = list(groups)
    t = Term(var)
    for k in keys[:-1]:
        if c.test(t, groups[k][0]):
            break
    else:
        k = keys[-1]
    vals = groups[k][1]
    vals = {v: r for v, r in vals.items() if (c.dom[var.id] >> v) & 1}
    return True, merge(var, vals, k[0])


def merge(var, vals, kind):
    c = C()
    first = next(iter(vals.values()))
    if kind == "e":
        raise first
    if kind == "s":
        out = []
        for i in range(len(first)):
            col = {v: ord(r[i]) for v, r in vals.items()}
            if len(set(col.values())) == 1:
                out.append(first[i])
            else:
                out.append(c.ph(Term(var, c_intern(col))))
        return "".join(out)
    if kind == "i":
        if len(set(vals.values())) == 1:
            return first
        import z3
        from .values import SymInt
        z = c.entangle(var)
        groups = {}
        for v, r in vals.items():
            groups[r] = groups.get(r, 0) | (1 << v)
        items = sorted(groups.items())
        e = z3.IntVal(items[-1][0])
        for r, m in items[:-1]:
            e = z3.If(c.mask_expr(z, m), z3.IntVal(r), e)
        return SymInt(e, min(vals.values()), max(vals.values()))
    return first


_maps = {}


def c_intern(col):
    key = tuple(sorted(col.items()))
    m = _maps.get(key)
    if m is None:
        m = _maps[key] = col
    return m


def strip_test(ch, chars):
    c = C()
    if chars is None:
        return c.ch_in(ch, space_mask())
    if has_ph(chars):
        return any(c.ch_eq(ch, x) for x in chars)
    return c.ch_in(ch, mask_of(min(ord(x), UNI) for x in chars))


def lstrip(s, chars=None):
    i = 0
    while i < len(s) and strip_test(s[i], chars):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    i = len(s)
    while i > 0 and strip_test(s[i - 1], chars):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def _range(s, start, end):
    a, b, _ = slice(start, end).indices(len(s))
    return a, b


def _at(s, i, sub):
    return C().str_eq(s[i:i + len(sub)], sub)


def find(s, sub, start=None, end=None):
    a, b = _range(s, start, end)
    n = len(sub)
    for i in range(a, b - n + 1):
        if _at(s, i, sub):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    a, b = _range(s, start, end)
    n = len(sub)
    for i in range(b - n, a - 1, -1):
        if _at(s, i, sub):
            return i
    return -1


def index(s, sub, start=None, end=None):
    r = find(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def rindex(s, sub, start=None, end=None):
    r = rfind(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def contains(s, sub):
    if sub == "":
        return True
    if len(sub) == 1 and isph(sub) and not has_ph(s):
        return C().ch_in(sub, mask_of(min(ord(x), UNI) for x in s)) if s else False
    if len(sub) == 1 and not has_ph(sub):
        # any position
        return find(s, sub) >= 0
    return find(s, sub) >= 0


def count(s, sub, start=None, end=None):
    a, b = _range(s, start, end)
    if sub == "":
        return b - a + 1 if b >= a else 0
    n = 0
    i = a
    while i <= b - len(sub):
        if _at(s, i, sub):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def startswith(s, prefix, start=None, end=None):
    a, b = _range(s, start, end)
    s = s[a:b]
    if isinstance(prefix, tuple):
        return any(startswith(s, p) for p in prefix)
    if len(prefix) > len(s):
        return False
    return C().str_eq(s[:len(prefix)], prefix)


def endswith(s, suffix, start=None, end=None):
    a, b = _range(s, start, end)
    s = s[a:b]
    if isinstance(suffix, tuple):
        return any(endswith(s, p) for p in suffix)
    if len(suffix) > len(s):
        return False
    return C().str_eq(s[len(s) - len(suffix):], suffix)


def replace(s, old, new, count=-1):
    count = int(count)
    if old == "":
        return s.replace(old, new, count)
    out = []
    i = 0
    n = 0
    while i < len(s):
        if (count < 0 or n < count) and i + len(old) <= len(s) and _at(s, i, old):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def split(s, sep=None, maxsplit=-1):
    maxsplit = int(maxsplit)
    out = []
    if sep is None:
        c = C()
        ws = space_mask()
        i, n = 0, len(s)
        while True:
            while i < n and c.ch_in(s[i], ws):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(s[i:]))
                break
            j = i
            while j < n and not c.ch_in(s[j], ws):
                j += 1
            out.append(s[i:j])
            i = j
        return out
    if sep == "":
        raise ValueError("empty separator")
    last = i = 0
    while i <= len(s) - len(sep):
        if maxsplit >= 0 and len(out) >= maxsplit:
            break
        if _at(s, i, sep):
            out.append(s[last:i])
            i += len(sep)
            last = i
        else:
            i += 1
    out.append(s[last:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    maxsplit = int(maxsplit)
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        c = C()
        ws = space_mask()
        out = []
        i = len(s)
        while True:
            while i > 0 and c.ch_in(s[i - 1], ws):
                i -= 1
            if i <= 0:
                break
            if len(out) >= maxsplit:
                out.append(lstrip(s[:i]))
                break
            j = i
            while j > 0 and not c.ch_in(s[j - 1], ws):
                j -= 1
            out.append(s[j:i])
            i = j
        return out[::-1]
    out = []
    end = len(s)
    i = end - len(sep)
    while i >= 0 and len(out) < maxsplit:
        if _at(s, i, sep):
            out.append(s[i + len(sep):end])
            end = i
            i -= len(sep)
        else:
            i -= 1
    out.append(s[:end])
    return out[::-1]


def splitlines(s, keepends=False):
    c = C()
    out = []
    i = last = 0
    n = len(s)
    while i < n:
        if c.ch_in(s[i], LINEB):
            j = i + 1
            if j < n and c.ch_eq(s[i], "\r") and c.ch_eq(s[j], "\n"):
                j += 1
            out.append(s[last:j] if keepends else s[last:i])
            i = last = j
        else:
            i += 1
    if last < n:
        out.append(s[last:])
    return out


def partition(s, sep):
    i = find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def _all(s, name, pred):
    if not s:
        return False
    m = cached_pred(name, pred)
    c = C()
    for ch in s:
        if not c.ch_in(ch, m):
            return False
    return True


def _allpred(name):
    f = getattr(str, name)
    return lambda s: _all(s, name, f)


isdigit = _allpred("isdigit")
isalpha = _allpred("isalpha")
isalnum = _allpred("isalnum")
isspace = _allpred("isspace")
isnumeric = _allpred("isnumeric")
isdecimal = _allpred("isdecimal")


def isprintable(s):
    return s == "" or _all(s, "isprintable", str.isprintable)


def isascii(s):
    return s == "" or _all(s, "isascii", str.isascii)


def _cased(s, good, bad):
    c = C()
    mg = cached_pred(good, getattr(str, good))
    mb = cached_pred("not" + good, lambda ch: (ch.isupper() or ch.islower() or ch.istitle())
                     and not getattr(ch, good)())
    any_ = False
    for ch in s:
        if c.ch_in(ch, mb):
            return False
        if not any_ and c.ch_in(ch, mg):
            any_ = True
    return any_


def isupper(s):
    return _cased(s, "isupper", "islower")


def islower(s):
    return _cased(s, "islower", "isupper")


_case_maps = {}


def case_map(name):
    r = _case_maps.get(name)
    if r is None:
        f = getattr(str, name)
        mp, multi = {}, 0
        for i in range(UNI):
            if 0xD800 <= i < 0xE000:
                continue
            ch = chr(i)
            x = f(ch)
            if x != ch:
                if len(x) == 1:
                    mp[i] = ord(x)
                else:
                    multi |= 1 << i
        changed = multi
        for i in mp:
            changed |= 1 << i
        r = _case_maps[name] = (mp, multi, changed)
    return r


def _casemap(s, name):
    c = C()
    mp, multi, changed = case_map(name)
    f = getattr(str, name)
    out = []
    for ch in s:
        if not isph(ch):
            out.append(f(ch))
            continue
        t = c.term(ch)
        if not c.ch_may(ch, changed):
            out.append(ch)
            continue
        if c.ch_in(ch, multi):
            out.append(f(c.concretize_ch(ch)))
            continue
        key = ("case", name, id(t.map) if t.map is not None else 0)
        nm = c.cache.get(key)
        if nm is None:
            if t.map is None:
                nm = mp
            else:
                nm = dict(mp)
                for v, cp in t.map.items():
                    nm[v] = mp.get(cp, cp)
            c.cache[key] = nm
        out.append(c.ph(Term(t.var, nm)))
    return "".join(out)


def lower(s):
    return _casemap(s, "lower")


def upper(s):
    return _casemap(s, "upper")


def casefold(s):
    return _casemap(s, "casefold")


def swapcase(s):
    return _casemap(s, "swapcase")


def capitalize(s):
    return _casemap(s[:1], "title") + _casemap(s[1:], "lower")


def title(s):
    c = C()
    cased = cached_pred("cased", lambda ch: ch.lower() != ch or ch.upper() != ch)
    out, prev = [], False
    for ch in s:
        out.append(_casemap(ch, "lower" if prev else "title"))
        prev = c.ch_in(ch, cased)
    return "".join(out)


def zfill(s, w):
    w = int(w)
    if len(s) >= w:
        return s
    if s and C().ch_in(s[0], mask_of("+-")):
        return s[0] + "0" * (w - len(s)) + s[1:]
    return "0" * (w - len(s)) + s


def removeprefix(s, p):
    return s[len(p):] if startswith(s, p) else s


def removesuffix(s, p):
    return s[:len(s) - len(p)] if p and endswith(s, p) else s


def expandtabs(s, tabsize=8):
    c = C()
    out = []
    col = 0
    for ch in s:
        if c.ch_eq(ch, "\t"):
            if tabsize > 0:
                k = tabsize - col % tabsize
                out.append(" " * k)
                col += k
        else:
            out.append(ch)
            col = 0 if c.ch_in(ch, mask_of("\n\r")) else col + 1
    return "".join(out)


def translate(s, table):
    c = C()
    out = []
    keys = mask_of([k for k in table if isinstance(k, int) and k < UNI]) if hasattr(table, "keys") else None
    for ch in s:
        if isph(ch):
            if keys is not None:
                if not c.ch_in(ch, keys):
                    out.append(ch)
                    continue
                vals = {}
                t = c.term(ch)
                d = c.dom[t.var.id]
                if d.bit_count() <= 400:
                    vals = {}
                    for v in bits_of(d):
                        cp = v if t.map is None else t.map.get(v, v)
                        r = table[cp]
                        vals[v] = chr(r) if isinstance(r, int) else r
                    if all(isinstance(r, str) for r in vals.values()) and \
                            len({len(r) for r in vals.values()}) == 1:
                        out.append(merge(t.var, vals, "s"))
                        continue
            out.append(c.concretize_ch(ch).translate(table))
        else:
            out.append(ch.translate(table))
    return "".join(out)


def encode(s, encoding="utf-8", errors="strict"):
    if encoding.lower().replace("-", "").replace("_", "") in ("utf8", "utf16", "utf16le", "utf32"):
        return s.encode(encoding, errors)
    return C().realize(s, "encode " + encoding).encode(encoding, errors)


def join(sep, it):
    return str.join(sep, it)


def ljust(s, w, f=" "):
    return str.ljust(s, w, f)


def rjust(s, w, f=" "):
    return str.rjust(s, w, f)


def center(s, w, f=" "):
    return str.center(s, w, f)


def format(s, /, *a, **k):
    return str.format(s, *a, **k)


def format_map(s, m):
    return str.format_map(s, m)


def isidentifier(s):
    return C().realize(s, "isidentifier").isidentifier()


def __len__(s):
    return len(s)


def __str__(s):
    return s


def __eq__(s, o):
    return isinstance(o, str) and C().str_eq(s, o)


def __add__(s, o):
    return str.__add__(s, o)


def __contains__(s, o):
    return contains(s, o)


def __getitem__(s, i):
    return str.__getitem__(s, i)


def __hash__(s):
    return 0x5A5A


def str_lt(a, b):
    c = C()
    for x, y in zip(a, b):
        if c.ch_eq(x, y):
            continue
        zx, zy = c.ch_z(x), c.ch_z(y)
        return c.branch(zx < zy)
    return len(a) < len(b)


METHODS = {n: f for n, f in globals().items() if n in dir(str) and callable(f)}


# ------------------------------------------------------------------ int / float parsing
def _digit_mask():
    return cached_pred("isdecimal", str.isdecimal)


ASCII_DIG = mask_of("0123456789")


def to_ascii_digit(ch):
    """ch is known to be a decimal digit; return an ASCII digit (maybe placeholder)."""
    c = C()
    if not isph(ch):
        return str(unicodedata.decimal(ch))
    t = c.term(ch)
    img = c.image(t)
    if img & ~ASCII_DIG == 0:
        return ch
    d = c.dom[t.var.id]
    mp = {}
    for v in bits_of(d):
        cp = v if t.map is None else t.map.get(v, v)
        mp[v] = 48 + unicodedata.decimal(chr(cp))
    return c.ph(Term(t.var, c_intern(mp)))


def int_of(s, base=10):
    from .values import SymInt, parse_digits
    c = C()
    s0 = s
    if base != 10:
        ok, r = table_apply(lambda x: int(x, base), s)
        if ok:
            return r
        return hex_of(s, base)
    s = strip(c.norm(s))
    neg = False
    if s and c.ch_in(s[0], mask_of("+-")):
        neg = c.ch_eq(s[0], "-")
        s = s[1:]
    out = []
    dm = _digit_mask()
    prev_us = True
    for ch in s:
        if c.ch_in(ch, dm):
            out.append(to_ascii_digit(ch))
            prev_us = False
        elif c.ch_eq(ch, "_") and not prev_us:
            prev_us = True
        else:
            raise ValueError(f"invalid literal for int() with base 10: '{s0}'")
    if prev_us:
        raise ValueError(f"invalid literal for int() with base 10: '{s0}'")
    r = parse_digits("".join(out))
    return -r if neg else r


def hex_of(s, base):
    from .values import SymInt
    import z3
    c = C()
    s = strip(s)
    if s and c.ch_in(s[0], mask_of("+-")):
        return c.concretize(s) and int(c.concretize(s), base)
    val = 0
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    dm = mask_of(digs + digs.upper())
    if not s:
        raise ValueError("invalid literal for int()")
    if len(s) > 1 and base == 16 and c.ch_eq(s[0], "0") and c.ch_in(s[1], mask_of("xX")):
        s = s[2:]
    for ch in s:
        if not c.ch_in(ch, dm):
            raise ValueError("invalid literal for int()")
        ok, d = table_apply(lambda x: int(x, base), ch)
        val = val * base + d
    return val


def float_of(s):
    from .values import from_dec, parse_digits
    c = C()
    s0 = s
    s = strip(c.norm(s))
    if not has_ph(s):
        return float(s)
    neg = False
    if c.ch_in(s[0], mask_of("+-")):
        neg = c.ch_eq(s[0], "-")
        s = s[1:]
    ip, fp = [], []
    cur = ip
    dm = _digit_mask()
    for i, ch in enumerate(s):
        if c.ch_in(ch, dm):
            cur.append(to_ascii_digit(ch))
        elif c.ch_eq(ch, ".") and cur is ip:
            cur = fp
        else:
            # exponents, inf, nan, underscores: concretise
            v = float(c.concretize(s0, why="float()"))
            return v
    if not ip and not fp:
        raise ValueError(f"could not convert string to float: '{s0}'")
    k = parse_digits("".join(ip + fp)) if ip or fp else 0
    if neg:
        k = -k
    return from_dec(k, len(fp))


def warm():
    """Precompute the shared tables before the exploration forks."""
    from . import rx
    for n in ("isprintable", "isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "isascii",
              "islower", "isupper"):
        cached_pred(n, getattr(str, n))
    cached_pred("cased", lambda ch: ch.lower() != ch or ch.upper() != ch)
    for n in ("lower", "upper"):
        case_map(n)
    rx.case_classes()
    rx.set_mask([(rx.C.CATEGORY, x) for x in (rx.C.CATEGORY_DIGIT, rx.C.CATEGORY_SPACE, rx.C.CATEGORY_WORD)], 0)
