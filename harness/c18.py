"""C18: geometry values compare, hash, parse and print consistently."""
from pycaption.exceptions import CaptionReadSyntaxError
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                VerticalAlignmentEnum)
from sx.charsets import ANY, CS, chars

BOUNDS = ("every value k/1000 with k symbolic in 0..10**6 (and negative values where only equality matters) in every unit; all pairs "
          "of sizes, points, stretches, paddings, alignments and layouts with any subset of the components present; parsing of every "
          "string of 0..3 (thorough 0..4) characters over all of Unicode up to U+1FFFF, of every accepted string of up to 3+3 digits, and "
          "of accepted strings with one arbitrary character inserted, replaced or removed anywhere; every padding shorthand of one "
          "to four sizes with symbolic digits; relativizing and fitting with symbolic values and video sizes")
OUTSIDE = ("decimal ties (third decimal 5) when printing; infinite and NaN values; values above 1000; hash collisions of unequal values (allowed); the exceptions for attribute "
           "strings with a wrong number of sizes")
REACH = ["equal", "unequal", "hash", "accepted", "rejected", "zero", "printed", "shorthand", "relativized", "fitted"]

UNITS = [UnitEnum.PIXEL, UnitEnum.EM, UnitEnum.PERCENT, UnitEnum.CELL, UnitEnum.PT]
NAMES = ["px", "em", "%", "c", "pt"]
H = [None, HorizontalAlignmentEnum.LEFT, HorizontalAlignmentEnum.CENTER, HorizontalAlignmentEnum.RIGHT,
     HorizontalAlignmentEnum.START, HorizontalAlignmentEnum.END]
V = [None, VerticalAlignmentEnum.TOP, VerticalAlignmentEnum.CENTER, VerticalAlignmentEnum.BOTTOM]


def value(t, name, lo=0, places=3, hi=1000):
    return t.dec(name, lo * 10 ** places, hi * 10 ** places, places)


def size(t, name, units=UNITS, lo=0, places=2):
    return Size(value(t, name, lo, places), t.pick(name + "u", units))


def agree(t, what, a, b, same):
    """a == b exactly when same, in both directions; equal values hash equal"""
    same = bool(same)
    t.check(f"{what}: == is equality of the components", bool(a == b) == same)
    t.check(f"{what}: == is symmetric", bool(b == a) == same)
    t.check(f"{what}: != is the opposite", bool(a != b) == (not same))
    t.check(f"{what}: reflexive", bool(a == a))
    if same:
        t.check_eq(f"{what}: equal values hash equal", hash(a), hash(b))
        t.reach("equal")
        t.reach("hash")
    else:
        t.reach("unequal")


def eq_size(t):
    a, b = size(t, "a", lo=-1000), size(t, "b", lo=-1000)
    agree(t, "Size", a, b, t.all([a.value == b.value, a.unit == b.unit]))
    t.check("Size differs from other things", not (a == None) and not (a == 5) and not (a == "5px"))  # noqa: E711


def eq_size_kinds(t):
    """the number kind does not matter: 5 and 5.0, '5' and 5"""
    k = t.int("k", 0, 999)
    u = t.pick("u", UNITS)
    a, b, c = Size(k, u), Size(k * 1.0, u), Size.from_string(str(k) + u.value)
    agree(t, "Size of int and float", a, b, True)
    agree(t, "Size of int and text", a, c, True)


def eq_pair(cls):
    def run(t):
        us = [UnitEnum.PIXEL, UnitEnum.PERCENT]
        a = (size(t, "ax", us), size(t, "ay", us))
        b = (size(t, "bx", us), size(t, "by", us))
        p, q = cls(*a), cls(*b)
        agree(t, cls.__name__, p, q, t.all([a[0].value == b[0].value, a[0].unit == b[0].unit,
                                            a[1].value == b[1].value, a[1].unit == b[1].unit]))
        other = Stretch if cls is Point else Point
        t.check("points and stretches differ", not (p == other(*a)) and p != other(*a))
        t.check("not None", not (p == None) and bool(p))  # noqa: E711
    return run


def eq_padding(t):
    us = [UnitEnum.PIXEL, UnitEnum.PERCENT]
    names = ["before", "after", "start", "end"]
    k = t.choice("which", 4)
    base = {n: Size(5 + i, UnitEnum.PERCENT) for i, n in enumerate(names)}
    a, b = dict(base), dict(base)
    a[names[k]] = size(t, "a", us)
    b[names[k]] = size(t, "b", us)
    # a second component that may differ as well
    j = (k + 1 + t.choice("second", 3)) % 4
    b[names[j]] = Size(value(t, "b2", 0, 2), UnitEnum.PERCENT)
    same = t.all([a[n].value == b[n].value for n in names] + [a[n].unit == b[n].unit for n in names])
    agree(t, "Padding", Padding(**a), Padding(**b), same)


def eq_padding_default(t):
    """absent edges are zero percent"""
    v = value(t, "v", 0, 2)
    u = t.pick("u", [UnitEnum.PERCENT, UnitEnum.PIXEL])
    t.check("default edge", bool(Padding(before=Size(1, UnitEnum.PIXEL)).after == Size(0, UnitEnum.PERCENT)))
    agree(t, "Padding default", Padding(start=Size(v, u)), Padding(), t.all([v == 0, u is UnitEnum.PERCENT]))


def eq_alignment(t):
    a = (t.pick("ah", H), t.pick("av", V))
    b = (t.pick("bh", H), t.pick("bv", V))
    agree(t, "Alignment", Alignment(*a), Alignment(*b), a == b)


def parts(t, name, present):
    out = {}
    if present[0]:
        out["origin"] = Point(Size(value(t, name + "ox", 0, 1), UnitEnum.PERCENT), Size(20, UnitEnum.PERCENT))
    if present[1]:
        out["extent"] = Stretch(Size(40, UnitEnum.PERCENT), Size(value(t, name + "ey", 0, 1), UnitEnum.PERCENT))
    if present[2]:
        out["padding"] = Padding(Size(1, UnitEnum.PERCENT), Size(value(t, name + "pa", 0, 1), UnitEnum.PERCENT),
                                 Size(2, UnitEnum.PERCENT), Size(3, UnitEnum.PIXEL))
    if present[3]:
        out["alignment"] = Alignment(t.pick(name + "h", [H[1], H[4]]), V[1])
    return out


def eq_layout(t):
    pa = [t.flag("a%d" % i) for i in range(4)]
    pb = [t.flag("b%d" % i) for i in range(4)]
    a, b = parts(t, "a", pa), parts(t, "b", pb)
    same = False
    if pa == pb:
        conds = [True]
        if pa[0]:
            conds.append(a["origin"].x.value == b["origin"].x.value)
        if pa[1]:
            conds.append(a["extent"].vertical.value == b["extent"].vertical.value)
        if pa[2]:
            conds.append(a["padding"].after.value == b["padding"].after.value)
        if pa[3]:
            conds.append(a["alignment"].horizontal is b["alignment"].horizontal)
        same = t.all(conds)
    agree(t, "Layout", Layout(**a), Layout(**b), same)


def eq_layout_full(t):
    """all components present, exactly one number or unit varies"""
    which = t.choice("which", 8)
    us = [UnitEnum.PERCENT, UnitEnum.PIXEL]
    va, vb = size(t, "a", us), size(t, "b", us)

    def mk(v):
        s = [Size(10 + i, UnitEnum.PERCENT) for i in range(8)]
        s[which] = v
        return Layout(Point(s[0], s[1]), Stretch(s[2], s[3]), Padding(s[4], s[5], s[6], s[7]), Alignment(H[1], V[1]))
    agree(t, "Layout", mk(va), mk(vb), t.all([va.value == vb.value, va.unit == vb.unit]))


def eq_layout_webvtt(t):
    """raw WebVTT cue settings are not a geometric component"""
    a = Layout(Point(Size(1, UnitEnum.PERCENT), Size(2, UnitEnum.PERCENT)), webvtt_positioning=t.pick("wa", [None, "", "line:1"]))
    b = Layout(Point(Size(1, UnitEnum.PERCENT), Size(2, UnitEnum.PERCENT)), webvtt_positioning=t.pick("wb", [None, "line:1", "x"]))
    agree(t, "Layout with cue settings", a, b, True)


# ---- parsing ---------------------------------------------------------------

def grammar(s):
    """True when s is digits [. digits] unit, or a bare 0"""
    if s == "0":
        return True
    i = 0
    while i < len(s) and s[i] in "0123456789":
        i += 1
    if i == 0:
        return False
    if i < len(s) and s[i] == ".":
        j = i + 1
        while j < len(s) and s[j] in "0123456789":
            j += 1
        if j == i + 1:
            return False
        i = j
    rest = s[i:]
    return rest == "px" or rest == "em" or rest == "%" or rest == "c" or rest == "pt"


def judge_parse(t, s):
    t.observe("s", s)
    try:
        got = Size.from_string(s)
    except CaptionReadSyntaxError:
        t.check("rejected only what is not a size", not grammar(s), detail=lambda: repr(s))
        t.reach("rejected")
        return
    t.check("accepted only sizes", grammar(s), detail=lambda: repr(s))
    if s == "0":
        t.check("bare zero", got.value == 0)
        t.reach("zero")
        return
    t.reach("accepted")
    for n, u in zip(NAMES, UNITS):
        if s.endswith(n):
            t.check("unit", got.unit is u, detail=repr(got.unit))
            t.check_eq("value", got.value, float(s[:-len(n)]))
            return
    t.fail("a unit was recognised", repr(got))


def parse_any(n):
    def run(t):
        judge_parse(t, t.text("s", n, ANY))
    return run


def parse_good(t):
    """every accepted spelling"""
    s = t.digits("i", 1 + t.choice("ni", 3))
    nf = t.choice("nf", 4)
    if nf:
        s = s + "." + t.digits("f", nf)
    s = s + t.pick("u", NAMES)
    t.check("is a size", grammar(s))
    judge_parse(t, s)


def parse_near(t):
    """one arbitrary character inserted, replaced or removed"""
    s = t.pick("s", ["0", "7px", "12.5%", "3em"], ["1.25pt", "10c", "007px"])
    k = t.choice("at", len(s) + 1)
    kind = t.pick("kind", ["insert", "replace", "remove", "cut"])
    c = t.char("c", ANY)
    if kind == "insert":
        s = s[:k] + c + s[k:]
    elif kind == "replace":
        s = s[:k] + c + s[k + 1:]
    elif kind == "remove":
        s = s[:k] + s[k + 1:]
    else:
        s = s[:k]
    judge_parse(t, s)


def parse_special(t):
    s = t.pick("s", ["", "-5px", "+5px", "1e3px", ".5px", "5.px", "5 px", " 5px", "5px ", "5px\n", "0\n", "00", "0.0", "0px", "5PX",
                     "5Px", "px", "%", "5%%", "5px5px", "1_0px", "\u0665px", "1,5px", "5cm", "5in", "5e", "inf%", "nan%", "0x10px",
                     "5.5.5px", "5rem", "5cpx", "5ptx", "-0", "0 ", "5p", "5pxpx", "\uff15px", "5\u200bpx", "10", "1.0"])
    judge_parse(t, s)


# ---- printing --------------------------------------------------------------

def printed_ok(t, s, k, places, unit):
    """s is k / 10**places rounded to two decimals followed by the unit, in canonical form; returns the re-parsed size"""
    t.observe("printed", s)
    t.check("ends with the unit", s.endswith(unit.value))
    num = s[:-len(unit.value)]
    ip, dot, fp = num.partition(".")
    t.check("canonical digits", len(ip) > 0 and t.all([c in "0123456789" for c in ip + fp]) and (dot == "") == (fp == ""))
    t.check("at most two decimals", len(fp) <= 2)
    t.check("no needless zeros", (fp == "" or fp[-1] != "0") and (len(ip) == 1 or ip[0] != "0"))
    n = int(ip) * 100
    if fp:
        n = n + int(fp) * (10 if len(fp) == 1 else 1)
    diff = k * 100 - n * 10 ** places
    t.check("rounded to two decimals", t.all([2 * diff <= 10 ** places, -2 * diff <= 10 ** places]))
    back = Size.from_string(s)
    t.check("unit survives", back.unit is unit)
    t.check("printing the re-parsed size gives the same text", str(back) == s)
    t.check_eq("the re-parsed value is the printed one", back.value, n / 100)
    return back


def show_size(places):
    def run(t):
        unit = t.pick("u", UNITS)
        hi = {3: 10, 2: 1000, 1: 1000, 0: 100000}[places]
        if places == 3:
            # no ties: which neighbour an (inexact) binary tie rounds to is not ours to say
            k = t.int("v", 0, hi * 1000)
            t.assume(k % 10 != 5)
        else:
            k = t.int("v", 0, hi * 10 ** places)
        sz = Size(k / 10 ** places if places else k, unit)
        printed_ok(t, str(sz), k, places, unit)
        t.check("attribute is the printed value", sz.to_xml_attribute() == str(sz))
        if places < 3:
            back = Size.from_string(str(sz))
            t.check("two-decimal values are reproduced", bool(back == sz))
        t.reach("printed")
    return run


def show_pair(cls):
    def run(t):
        us = [UnitEnum.PERCENT, UnitEnum.PIXEL]
        a, b = size(t, "a", us), size(t, "b", us)
        p = cls(a, b)
        s = p.to_xml_attribute()
        t.check("both printed", s == str(a) + " " + str(b))
        t.check(f"{cls.__name__} re-parsed", bool(cls.from_xml_attribute(s) == p))
        t.reach("printed")
    return run


def show_padding(t):
    us = [UnitEnum.PERCENT, UnitEnum.EM]
    k = t.choice("which", 4)
    s = [Size(5 + i, UnitEnum.PERCENT) for i in range(4)]
    s[k] = size(t, "a", us)
    p = Padding(*s)
    text = p.to_xml_attribute()
    t.check("padding printed in TTML order (before, end, after, start)",
            text == str(s[0]) + " " + str(s[3]) + " " + str(s[1]) + " " + str(s[2]), detail=lambda: repr(text))
    t.check("Padding re-parsed", bool(Padding.from_xml_attribute(text) == p))
    t.reach("printed")


def shorthand(n):
    def run(t):
        texts = []
        for i in range(n):
            texts.append(t.digits(f"d{i}", 2) + t.pick(f"u{i}", ["%", "px"] if i < 2 else ["%"]))
        p = Padding.from_xml_attribute(" ".join(texts))
        order = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}[n]   # before, end, after, start
        for edge, k in zip(("before", "end", "after", "start"), order):
            got = getattr(p, edge)
            unit = UnitEnum.PERCENT if texts[k].endswith("%") else UnitEnum.PIXEL
            t.check(f"shorthand of {n}: {edge} unit", got.unit is unit)
            t.check_eq(f"shorthand of {n}: {edge} value", got.value, float(texts[k][:2]))
        t.reach("shorthand")
    return run


# ---- no method modifies its receiver ---------------------------------------

def sz(s):
    return None if s is None else (s.value, s.unit)


def snap(l):
    return (None if l.origin is None else (sz(l.origin.x), sz(l.origin.y)),
            None if l.extent is None else (sz(l.extent.horizontal), sz(l.extent.vertical)),
            None if l.padding is None else tuple(sz(getattr(l.padding, k)) for k in ("before", "after", "start", "end")),
            None if l.alignment is None else (l.alignment.horizontal, l.alignment.vertical), l.webvtt_positioning)


def ids(l):
    return tuple(id(x) for x in (l.origin, l.extent, l.padding, l.alignment))


def same(t, label, a, b):
    """structural comparison of snapshots"""
    fa, fb = flat(a), flat(b)
    t.check(label, len(fa) == len(fb))
    for x, y in zip(fa, fb):
        if isinstance(x, str) or x is None or isinstance(x, (UnitEnum, HorizontalAlignmentEnum, VerticalAlignmentEnum)):
            t.check(label, x is y or x == y)
        else:
            t.check_eq(label, x, y)


def flat(x):
    if isinstance(x, tuple):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [x]


def layout(t, units):
    k = t.choice("subset", 6)
    has = [(1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 0, 1), (0, 0, 1, 0), (1, 1, 0, 0), (1, 0, 1, 1)][k]
    u = t.pick("unit", units)
    kw = {}
    if has[0]:
        kw["origin"] = Point(Size(value(t, "ox", 0, 1, 150), u), Size(value(t, "oy", 0, 1, 150), u))
    if has[1]:
        kw["extent"] = Stretch(Size(value(t, "ex", 0, 1, 150), u), Size(value(t, "ey", 0, 1, 150), u))
    if has[2]:
        kw["padding"] = Padding(Size(1, u), Size(2, u), Size(3, u), Size(value(t, "p", 0, 1, 150), u))
    if has[3]:
        kw["alignment"] = Alignment(H[2], V[2])
    return Layout(webvtt_positioning=t.pick("w", [None, "line:1"]), **kw)


def relativize(t):
    l = layout(t, UNITS)
    before, obj = snap(l), ids(l)
    w, h = t.pick("video", [(640, 360), (1920, 1080), (100, 100)])
    r = l.as_percentage_of(w, h)
    same(t, "relativizing leaves the receiver alone", snap(l), before)
    t.check("relativizing keeps the receiver's parts", ids(l) == obj)
    t.check("the result is relative", r.is_relative())
    r2 = l.as_percentage_of(w, h)
    t.check("relativizing is repeatable", bool(r == r2))
    agree(t, "relativized layouts", r, r2, True)
    again = r.as_percentage_of(w, h)
    t.check("relativizing a relative layout changes nothing", bool(again == r))
    t.reach("relativized")


def fit(t):
    l = layout(t, [UnitEnum.PERCENT])
    before, obj = snap(l), ids(l)
    r = l.fit_to_screen()
    same(t, "fitting leaves the receiver alone", snap(l), before)
    t.check("fitting keeps the receiver's parts", ids(l) == obj)
    t.check("origin, padding and alignment stay", bool(r.origin == l.origin) and bool(r.padding == l.padding) and
            bool(r.alignment == l.alignment) if l.origin else r == l)
    r2 = l.fit_to_screen()
    t.check("fitting is repeatable", bool(r2 == r))
    t.reach("fitted")


def arith(t):
    """sums and differences are new values"""
    a, b = value(t, "a", 0, 1), value(t, "b", 0, 1)
    u = t.pick("u", UNITS)
    x, y = Size(a, u), Size(b, u)
    s, d = x + y, x - y
    t.check_eq("receiver", x.value, a)
    t.check_eq("operand", y.value, b)
    t.check("unit", s.unit is u and d.unit is u)
    p = Point(x, y)
    q = p.add_stretch(Stretch(y, x))
    t.check_eq("point unchanged", p.x.value, a)
    t.check("sum", bool(q.x == s) and bool(q.y == s))


def scenarios(tier):
    q = tier == "quick"
    out = [("eq-size", eq_size), ("eq-size-kinds", eq_size_kinds), ("eq-point", eq_pair(Point)), ("eq-stretch", eq_pair(Stretch)),
           ("eq-padding", eq_padding), ("eq-padding-default", eq_padding_default), ("eq-alignment", eq_alignment),
           ("eq-layout", eq_layout), ("eq-layout-full", eq_layout_full), ("eq-layout-webvtt", eq_layout_webvtt),
           ("parse-good", parse_good), ("parse-near", parse_near), ("parse-special", parse_special),
           ("print-point", show_pair(Point)), ("print-stretch", show_pair(Stretch)), ("print-padding", show_padding),
           ("relativize", relativize), ("fit", fit), ("arith", arith)]
    for n in range(0, 4 if q else 5):
        out.append((f"parse-any-{n}", parse_any(n)))
    for n in range(4):
        out.append((f"print-size-{n}", show_size(n)))
    for n in range(1, 5):
        out.append((f"shorthand-{n}", shorthand(n)))
    return out
