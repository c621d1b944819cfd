"""C13: absolute sizes are relativized exactly or refused; fit-to-screen stays safe."""
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet, DFXPWriter, SAMIWriter, WebVTTWriter
from pycaption.dfxp.extras import SinglePositioningDFXPWriter
from pycaption.exceptions import RelativizationError
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                VerticalAlignmentEnum)
from refs import samip, ttml, vttp

BOUNDS = ("one caption whose layout sits at set, language, caption or node level, with any of origin, extent and padding; every length "
          "symbolic (0..2000 in steps of 1 or 0.1) in every unit; video sizes from 640x360, 1920x1080, 720x480, 333x777 or either "
          "dimension missing; DFXP (with and without inline positioning), single-position DFXP, WebVTT and SAMI writers; fit-to-screen "
          "with the origin and extent of either axis symbolic over the whole safe area and over 0..150 in steps of 0.25% or 0.1% (there without the very edge, where floats tie), the other "
          "axis fitting, touching or overflowing; of the lengths of one layout, any single one is symbolic at a time")
OUTSIDE = ("origins outside the safe area; fit-to-screen of absolute lengths with relativization off (no video frame is known then); "
           "an exact tie at the third decimal may be rounded either way; lengths inside style dictionaries (font sizes)")
ASSUMPTIONS = ["rounding to two decimals applies to every printed number, so a written edge may exceed the limit by at most 0.01"]
REACH = ["region", "cue", "margin", "refused", "missing-ok", "fit-missing", "fit-over", "fit-inside", "absolute-ignored", "px", "em",
         "pt", "c", "%"]

UNITS = [UnitEnum.PIXEL, UnitEnum.EM, UnitEnum.PT, UnitEnum.CELL, UnitEnum.PERCENT]
DIMS = [(640, 360), (1920, 1080)]
MORE_DIMS = [(720, 480), (333, 777), (1, 1)]


class Len:
    """a symbolic length: k / 10**places of a unit, horizontal or vertical"""

    def __init__(self, t, name, unit, horizontal, places=0, hi=2000):
        self.k = t.int(name, 0, hi * 10 ** places)
        self.places, self.unit, self.horizontal = places, unit, horizontal
        self.size = Size(self.k / 10 ** places if places else self.k, unit)

    def percent(self, dims):
        """(numerator, denominator) of the length as hundredths of a percent of the frame"""
        n, d = self.k * 100, 10 ** self.places
        if self.unit is UnitEnum.PERCENT:
            return n, d
        if self.unit is UnitEnum.CELL:
            return n * 100, d * (32 if self.horizontal else 15)
        dim = dims[0 if self.horizontal else 1]
        f, g = {UnitEnum.PIXEL: (1, 1), UnitEnum.EM: (16, 1), UnitEnum.PT: (4, 3)}[self.unit]
        return n * 100 * f, d * dim * g

    def needs(self):
        return self.unit is not UnitEnum.PERCENT


def total(parts):
    """sum of signed fractions [(sign, (n, d))] -> (n, d)"""
    den = 1
    for _, (n, d) in parts:
        den = den * d
    num = 0
    for s, (n, d) in parts:
        num = num + s * n * (den // d)
    return num, den


def hundredths(t, text):
    """the printed percentage as an integer number of hundredths of a percent"""
    if not text.endswith("%"):
        t.fail("a percentage is written", repr(text))
        return None
    num = text[:-1]
    neg = num.startswith("-")
    if neg:
        num = num[1:]
    ip, dot, fp = num.partition(".")
    if len(fp) > 2 or len(ip) == 0 or not all([c in "0123456789" for c in ip + fp]) or (dot != "" and fp == ""):
        t.fail("a percentage with at most two decimals is written", repr(text))
        return None
    v = int(ip) * 100
    if fp:
        v = v + int(fp) * (10 if len(fp) == 1 else 1)
    return -v if neg else v


def close(t, label, text, frac):
    n, d = frac
    v = hundredths(t, text)
    if v is None:
        return
    # |v - n/d| <= 1/2 (either neighbour at a tie; the float's own error is far below 1/1000 of a step)
    t.check(label, t.all([1000 * (v * d - n) <= 501 * d, 1000 * (n - v * d) <= 501 * d]), detail=lambda: text)


def build(t, layout, level):
    T = CaptionNode.create_text
    other = None
    if level == "node":
        nodes = [CaptionNode.create_style(True, {"italics": True}, layout_info=layout), T("abc", layout_info=layout),
                 CaptionNode.create_style(False, {"italics": True}, layout_info=layout)]
    else:
        nodes = [T("abc")]
    cap = Caption(1000000, 2000000, nodes, style={}, layout_info=layout if level == "caption" else other)
    lst = CaptionList([cap], layout_info=layout if level == "language" else None)
    return CaptionSet({"en": lst}, styles={}, layout_info=layout if level == "set" else None)


def region_of(t, doc, level):
    d = ttml.parse(doc)
    if level == "set":
        # no paragraph need refer to the layout of the whole set; what is written is relative
        no_absolute(t, d)
        return None, None
    t.check("one paragraph", len(d.divs) == 1 and len(d.divs[0][1]) == 1)
    p = d.divs[0][1][0].el
    el = p
    if level == "node":
        spans = p.children("span")
        t.check("one span", len(spans) == 1)
        el = spans[0]
    ref = el.attrs.get("region") or p.attrs.get("region") or d.divs[0][2].attrs.get("region")
    t.check("the region is defined", ref in d.regions, detail=lambda: repr(ref))
    no_absolute(t, d)
    return d.regions[ref], el


def no_absolute(t, d):
    """nothing absolute anywhere in the written layout"""
    for e in d.root.walk():
        for a in ("tts:origin", "tts:extent", "tts:padding"):
            v = e.attrs.get(a)
            if v is not None:
                for w in v.split(" "):
                    t.check("no absolute length is written", w.endswith("%"), detail=lambda: repr(v))


def judge_region(t, region, attr, want, dims):
    if region is None:
        return
    v = region.attrs.get(attr)
    t.check(f"{attr} is written", v is not None)
    if v is None:
        return
    parts = v.split(" ")
    t.check(f"{attr} has {len(want)} lengths", len(parts) == len(want))
    for w, l in zip(parts, want):
        close(t, f"{attr} in {l.unit.value} relativized", w, l.percent(dims))
        t.reach(l.unit.value)
    t.reach("region")


class Fixed(Len):
    def __init__(self, k, horizontal, unit=UnitEnum.PERCENT):
        self.k, self.places, self.unit, self.horizontal = k, 0, unit, horizontal
        self.size = Size(k, unit)


def lengths(t, which, unit, places, hi=2000):
    """(layout, {attr: [Len...]}): one symbolic length (in any place), the others fixed in the same unit"""
    axis = t.pick("axis", ["x", "y"])
    f = lambda k, h: Fixed(k, h, unit)
    if which in ("origin", "extent"):
        x = Len(t, "h", unit, True, places, hi) if axis == "x" else f(7, True)
        y = Len(t, "v", unit, False, places, hi) if axis == "y" else f(9, False)
        if which == "origin":
            return Layout(origin=Point(x.size, y.size)), {"tts:origin": [x, y]}
        return Layout(extent=Stretch(x.size, y.size)), {"tts:extent": [x, y]}
    edges = [f(3, False), f(4, False), f(5, True), f(6, True)]
    i = (0 if axis == "x" else 1) + (0 if which == "padding-v" else 2)
    edges[i] = Len(t, "edge", unit, i >= 2, places, hi)
    before, after, start, end = edges
    return (Layout(padding=Padding(before.size, after.size, start.size, end.size)),
            {"tts:padding": [before, end, after, start]})


PARTS = ["origin", "extent", "padding-v", "padding-h"]


def dfxp(places):
    def run(t):
        level = t.pick("level", ["caption", "language", "set"], ["node"])
        unit = t.pick("unit", UNITS)
        dims = t.pick("dims", DIMS[:1] if level != "caption" else DIMS, DIMS[1:] + MORE_DIMS)
        layout, want = lengths(t, t.pick("part", PARTS), unit, places)
        inline = t.flag("inline") if level == "caption" else False
        doc = DFXPWriter(video_width=dims[0], video_height=dims[1], fit_to_screen=False,
                         write_inline_positioning=inline).write(build(t, layout, level))
        t.observe("doc", doc)
        region, el = region_of(t, doc, level)
        for attr, w in want.items():
            judge_region(t, region, attr, w, dims)
            if inline:
                judge_region(t, el, attr, w, dims)
    return run


def single(t):
    """the layout handed to the single-position writer"""
    unit = t.pick("unit", UNITS)
    dims = t.pick("dims", DIMS[:1], DIMS[1:])
    layout, want = lengths(t, t.pick("part", PARTS), unit, 0)
    doc = SinglePositioningDFXPWriter(layout, video_width=dims[0], video_height=dims[1], fit_to_screen=False).write(
        build(t, Layout(origin=Point(Size(3, UnitEnum.PIXEL), Size(3, UnitEnum.PIXEL))), t.pick("level", ["caption"], ["language"])))
    t.observe("doc", doc)
    region, el = region_of(t, doc, "caption")
    for attr, w in want.items():
        judge_region(t, region, attr, w, dims)


def cue_settings(t, doc):
    cues = vttp.parse(doc)
    t.check("one cue", len(cues) == 1, detail=str(len(cues)))
    settings, raw = cues[0].settings, cues[0].raw
    for k in ("position", "line", "size"):
        if k in settings:
            hundredths(t, settings[k])
    t.check("no absolute length in the settings", "px" not in raw and "em" not in raw and "pt" not in raw)
    return settings


def webvtt(places):
    def run(t):
        level = t.pick("level", ["caption", "node"], ["language"])
        unit = t.pick("unit", UNITS)
        unit2 = t.pick("unit2", [UnitEnum.PERCENT, UnitEnum.PIXEL])
        dims = t.pick("dims", DIMS[:1], DIMS[1:])
        hi = {UnitEnum.EM: 20, UnitEnum.CELL: 10}.get(unit, 99)
        axis = t.pick("axis", ["x", "y"])
        ox = Len(t, "ox", unit, True, places, hi) if axis == "x" else Fixed(7, True, unit)
        oy = Len(t, "oy", unit, False, places, hi) if axis == "y" else Fixed(7, False, unit)
        ex = Fixed(50, True)
        ey = Fixed(40, False, unit2)
        pad = t.pick("pad", ["none", "small"])
        kw = {}
        if pad == "small":
            pb, ps, pe = Fixed(3, False, unit2), Fixed(7, True, unit2), Fixed(2, True, unit2)
            kw["padding"] = Padding(pb.size, Size(1, unit2), ps.size, pe.size)
        layout = Layout(Point(ox.size, oy.size), Stretch(ex.size, ey.size), **kw)
        doc = WebVTTWriter(video_width=dims[0], video_height=dims[1], fit_to_screen=False).write(build(t, layout, level))
        t.observe("doc", doc)
        s = cue_settings(t, doc)
        for k in ("position", "line", "size"):
            t.check(f"{k} is written", k in s, detail=lambda: repr(s))
        pos, line, size = [(1, ox.percent(dims))], [(1, oy.percent(dims))], [(1, ex.percent(dims))]
        if pad == "small":
            pos.append((1, ps.percent(dims)))
            line.append((1, pb.percent(dims)))
            size += [(-1, ps.percent(dims)), (-1, pe.percent(dims))]
        for k, v in (("position", pos), ("line", line), ("size", size)):
            if k in s:
                close(t, f"{k} relativized", s[k], total(v))
        t.reach("cue")
    return run


def webvtt_off(t):
    """relativization off: absolute layouts give no settings at all, percentages are written"""
    unit = t.pick("unit", UNITS)
    which = t.pick("part", PARTS)
    level = t.pick("level", ["caption", "node", "language"])
    layout, want = lengths(t, which, unit, 0, 80)
    fit = t.flag("fit")
    dims = t.pick("dims", [(None, None), (640, 360)])
    doc = WebVTTWriter(relativize=False, video_width=dims[0], video_height=dims[1], fit_to_screen=fit).write(build(t, layout, level))
    t.observe("doc", doc)
    s = cue_settings(t, doc)
    if unit is not UnitEnum.PERCENT:
        t.check("an absolute layout is ignored", "position" not in s and "line" not in s and "size" not in s, detail=lambda: repr(s))
        t.reach("absolute-ignored")
    elif which == "origin":
        close(t, "position", s.get("position", ""), want["tts:origin"][0].percent(None))
        close(t, "line", s.get("line", ""), want["tts:origin"][1].percent(None))


def sami(t):
    """margins of a language's (or the set's) padding"""
    unit = t.pick("unit", UNITS)
    dims = t.pick("dims", DIMS, MORE_DIMS)
    layout, want = lengths(t, t.pick("part", PARTS[2:]), unit, t.pick("places", [0, 1]))
    doc = SAMIWriter(video_width=dims[0], video_height=dims[1]).write(build(t, layout, "language"))
    t.observe("doc", doc)
    css = samip.parse(doc).css
    rule = css.get(".en")
    t.check("the language has a rule", rule is not None)
    if rule is None:
        return
    for edge, l in zip(("margin-top", "margin-right", "margin-bottom", "margin-left"), want["tts:padding"]):
        t.check(f"{edge} is written", edge in rule)
        if edge in rule:
            close(t, f"{edge} relativized", rule[edge], l.percent(dims))
    t.reach("margin")


def missing(name):
    """a dimension is missing: refused when it is needed, written right when it is not"""
    def run(t):
        level = t.pick("level", ["caption", "language"] + (["set"] if name == "dfxp" else []), ["node"])
        hu, vu = t.pick("hu", UNITS[-2:], UNITS[:-2]), t.pick("vu", UNITS[1:2] + UNITS[-1:], UNITS[:1] + UNITS[2:-1])
        part = t.pick("part", ["origin", "extent", "padding"])
        a, b = Len(t, "a", hu, True, 0, 99), Fixed(12, False, vu)
        t.assume(a.k > 9)
        P = Size(1, UnitEnum.PERCENT)
        if part == "origin":
            layout, want = Layout(Point(a.size, b.size)), {"tts:origin": [a, b]}
        elif part == "extent":
            layout, want = Layout(extent=Stretch(a.size, b.size)), {"tts:extent": [a, b]}
        else:
            layout, want = Layout(padding=Padding(b.size, P, P, a.size)), None
        dims = t.pick("dims", [(640, None), (None, 360), (None, None)])
        cls = {"dfxp": DFXPWriter, "webvtt": WebVTTWriter, "sami": SAMIWriter}[name]
        refuse = (hu is not UnitEnum.PERCENT and dims[0] is None) or (vu is not UnitEnum.PERCENT and dims[1] is None)
        try:
            doc = cls(video_width=dims[0], video_height=dims[1], fit_to_screen=False).write(build(t, layout, level))
        except RelativizationError:
            t.check(f"{name}: refused only when a needed dimension is missing", refuse)
            t.reach("refused")
            return
        t.observe("doc", doc)
        t.reach("missing-ok")
        if name == "sami":
            # only the language's padding is written; nothing absolute may appear
            rule = samip.parse(doc).css.get(".en") or {}
            for k, v in rule.items():
                if k.startswith("margin"):
                    hundredths(t, v)
            if part == "padding":
                t.check("sami: a needed dimension is missing", not refuse)
            return
        t.check(f"{name}: refused when a needed dimension is missing", not refuse)
        if refuse:
            return
        if name == "dfxp":
            region, _ = region_of(t, doc, level)
            if want:
                for attr, w in want.items():
                    judge_region(t, region, attr, w, dims)
        else:
            cue_settings(t, doc)
    return run


def fit(name, step, levels=("caption", "node", "language"), more=()):
    """step: lengths are multiples of 1/step percent; 4 is exact in floats, so the very edge is decided too"""
    def run(t):
        level = t.pick("level", list(levels), list(more)) if name != "single" else "caption"
        P = UnitEnum.PERCENT
        kw = {}
        ext = t.pick("extent", [True, False])
        # one axis is symbolic, the other has an extent that fits, touches, or does not fit
        axis = t.pick("axis", ["x", "y"])
        e2 = t.pick("other", [10 * step, 80 * step, 80 * step + 1]) if ext else 0
        limit = (90 if axis == "x" else 95) * step
        o = t.int("o", 0, limit)
        e = t.int("e", 0, 150 * step) if ext else 0
        if ext and step == 10:
            t.assume(o + e != limit)
        ox, ex, oy, ey = (o, e, 15 * step, e2) if axis == "x" else (10 * step, e2, o, e)
        if ext:
            kw["extent"] = Stretch(Size(ex / step, P), Size(ey / step, P))
        if t.pick("others", [True], [False]):
            kw["padding"] = Padding(Size(1, P), Size(2, P), Size(3, P), Size(4, P))
            kw["alignment"] = Alignment(HorizontalAlignmentEnum.RIGHT, VerticalAlignmentEnum.TOP)
        layout = Layout(origin=Point(Size(ox / step, P), Size(oy / step, P)), **kw)
        relativize = t.pick("relativize", [True], [False]) if name == "single" else t.flag("relativize")
        cs = build(t, layout, level)
        opts = {"relativize": relativize}
        if name == "webvtt":
            kw_pad = "padding" in kw
            doc = WebVTTWriter(**opts).write(cs)
            t.observe("doc", doc)
            s = cue_settings(t, doc)
            t.check("size is written", "size" in s)
            size = hundredths(t, s["size"])
            width = size + (700 if kw_pad else 0)   # the paddings are subtracted from the written size
            judge_axis(t, "width", step, ox, ex if ext else None, width, 90, fits(t, step, ox, ex, oy, ey) if ext else None)
            return
        if name == "single":
            doc = SinglePositioningDFXPWriter(layout, **opts).write(build(t, None, "caption"))
        else:
            doc = DFXPWriter(**opts).write(cs)
        t.observe("doc", doc)
        region, _ = region_of(t, doc, level)
        org = (region.attrs.get("tts:origin") or "").split(" ")
        t.check("origin is written", len(org) == 2)
        t.check("origin is unchanged", t.all([hundredths(t, org[0]) * step == ox * 100, hundredths(t, org[1]) * step == oy * 100]))
        v = (region.attrs.get("tts:extent") or "").split(" ")
        low = "language level regions are fitted" if level == "language" else None
        t.check(low or "extent is written", len(v) == 2)
        if len(v) != 2:
            return
        inside = fits(t, step, ox, ex, oy, ey) if ext else None
        judge_axis(t, "width", step, ox, ex if ext else None, hundredths(t, v[0]), 90, inside, low)
        judge_axis(t, "height", step, oy, ey if ext else None, hundredths(t, v[1]), 95, inside, low)
    return run


def fits(t, step, ox, ex, oy, ey):
    return t.all([ox + ex <= 90 * step, oy + ey <= 95 * step])


def judge_axis(t, label, step, o, e, got, limit, inside, low=None):
    """o, e in steps; got in hundredths"""
    if e is None:
        t.check(f"{label}: a missing extent reaches exactly the edge", got * step == (limit * step - o) * 100)
        t.reach("fit-missing")
        return
    t.check(low or f"{label}: the edge stays inside", o * 100 + got * step <= limit * step * 100)
    if inside:
        t.check(f"{label}: an extent that fits is unchanged", got * step == e * 100)
        t.reach("fit-inside")
    else:
        t.reach("fit-over")


def fit_pixels(t):
    """pixels and fit-to-screen together"""
    dims = t.pick("dims", DIMS[:1], DIMS[1:] + MORE_DIMS[:2])
    axis = t.pick("axis", ["x", "y"])
    PX = UnitEnum.PIXEL
    ox = Len(t, "o", PX, True, 0, dims[0]) if axis == "x" else Fixed(33, True, PX)
    oy = Len(t, "o", PX, False, 0, dims[1]) if axis == "y" else Fixed(34, False, PX)
    n1, d1 = ox.percent(dims)
    n2, d2 = oy.percent(dims)
    t.assume(t.all([n1 <= 9000 * d1, n2 <= 9500 * d2]))
    ext = t.flag("extent")
    kw = {}
    if ext:
        ex = Len(t, "e", PX, True, 0, 3000) if axis == "x" else Fixed(100, True, PX)
        ey = Len(t, "e", PX, False, 0, 3000) if axis == "y" else Fixed(100, False, PX)
        kw["extent"] = Stretch(ex.size, ey.size)
        # floats tie at the very edge
        t.assume(t.all([(ox.k + ex.k) * 100 != 90 * dims[0], (oy.k + ey.k) * 100 != 95 * dims[1]]))
    doc = DFXPWriter(video_width=dims[0], video_height=dims[1]).write(
        build(t, Layout(Point(ox.size, oy.size), **kw), t.pick("level", ["caption", "node"])))
    t.observe("doc", doc)
    level = "node" if "<span" in doc else "caption"
    region, _ = region_of(t, doc, level)
    org = [hundredths(t, x) for x in region.attrs["tts:origin"].split(" ")]
    e = [hundredths(t, x) for x in region.attrs["tts:extent"].split(" ")]
    judge_region(t, region, "tts:origin", [ox, oy], dims)
    t.check("right edge inside", org[0] + e[0] <= 9001)
    t.check("bottom edge inside", org[1] + e[1] <= 9501)
    if not ext:
        t.check("right edge reached", org[0] + e[0] >= 8999)
        t.check("bottom edge reached", org[1] + e[1] >= 9499)


def scenarios(tier):
    q = tier == "quick"
    out = [("single", single), ("webvtt-off", webvtt_off), ("sami", sami), ("fit-pixels", fit_pixels)]
    for p in (0,) if q else (0, 1, 2):
        out.append((f"dfxp-{p}", dfxp(p)))
        out.append((f"webvtt-{p}", webvtt(p)))
    for n in ("dfxp", "webvtt", "sami"):
        out.append((f"missing-{n}", missing(n)))
    for n in ("dfxp", "webvtt", "single"):
        for step in ((10 if n == "dfxp" else 4,) if q else (4, 10)):
            out.append((f"fit-{n}-{step}", fit(n, step, *((("caption",), ("node",)) if n == "dfxp" else (("caption", "language"), ("node",))))))
    out.append(("fit-dfxp-language", fit("dfxp", 4, ("language",))))
    return out
