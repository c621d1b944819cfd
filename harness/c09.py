"""C09: writing never alters its input and is deterministic."""
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum as H, Layout, Padding, Point, Size, Stretch, UnitEnum as U,
                                VerticalAlignmentEnum as V)
from harness.common import writer
from harness.snap import snap

# the exploration starts from a process in which pycaption has read and written nothing
WARM = False
BOUNDS = ("caption sets of 1..2 languages with up to three captions: plain, styled (classes, nested, never closed and never opened style "
          "nodes), with layouts at set, language, caption and node level (%, px, em, cells), WebVTT settings, concurrent captions, "
          "empty languages, sets that make the writer raise; text characters and layout numbers symbolic; eight writers x options "
          "(relativize, fit_to_screen, video size present or absent, inline positioning, force=/lang=); histories: write, write "
          "another set (or the set with every other writer, or fail), write again with the same and with a fresh writer, write in "
          "a process whose hash sets iterate in any order")
OUTSIDE = ("longer histories; interpreter hash seeds enter as an arbitrary iteration order of every set of non-integers the writers build")
REACH = ["raised", "returned", "again", "after-other", "hash-order"]

CH = "ab<&\" \u00e9\u266a"
WRITERS = ["srt", "webvtt", "dfxp", "dfxp-legacy", "dfxp-single", "sami", "microdvd", "scc"]
txt, sty, br = CaptionNode.create_text, CaptionNode.create_style, CaptionNode.create_break
DIM = {"video_width": 640, "video_height": 360}


def chars(t, n, k):
    """the set under test has arbitrary special characters; the set written in between has letters"""
    return t.text(n, k, CH if n == "b" or t.tier != "quick" else "gh")


def pc(t, n, u=U.PERCENT):
    return Size(t.int(n, 1, 9), u)


def lay(t, n, u=U.PERCENT, al=None, pad=False, extent=True):
    return Layout(Point(pc(t, n + "x", u), Size(20, u)), Stretch(Size(30, u), pc(t, n + "h", u)) if extent else None,
                  Padding(Size(1, u), Size(2, u), Size(3, u), Size(4, u)) if pad else None, al)


AL = [Alignment(H.LEFT, V.TOP), Alignment(H.RIGHT, V.BOTTOM), Alignment(H.CENTER, V.CENTER)]


def cap(s, e, nodes, style=None, layout=None):
    return Caption(s * 1000000, e * 1000000, nodes, style={} if style is None else style, layout_info=layout)


def s_plain(t, n):
    s = t.int(n + "s", 1, 9)
    return CaptionSet({"en": CaptionList([cap(s, 12, [txt(chars(t, n, 1)), br(), txt("x y")]), cap(20, 22, [txt("z")])])})


def s_styled(t, n):
    a = {"class": "k1", "italics": True}
    return CaptionSet({"en": CaptionList([
        cap(1, 2, [sty(True, {"italics": True}), txt(chars(t, n, 1)), br(), sty(True, {"bold": True, "color": "red"}), txt("in"),
                   sty(False, {"bold": True, "color": "red"}), sty(False, {"italics": True}), txt("out")], {"class": "k1", "color": "blue"}),
        cap(8, 9, [sty(True, dict(a)), txt("q"), sty(False, dict(a))], {"classes": ["k1", "k2"], "text-align": "left"}),
        cap(14, 15, [txt("r")], {"classes": ["k2"], "class": "k2", "underline": True})])},
        styles={"k1": {"color": "red", "lang": "en"}, "k2": {"class": "k1", "font-size": "10px", "bold": True, "text-align": "right"},
                "p": {"font-family": "Arial"}})


def s_open(t, n):
    """style nodes that are never closed, or never opened"""
    first = [sty(True, {"italics": True}), txt(chars(t, n, 1))]
    return CaptionSet({"en": CaptionList([cap(1, 2, first), cap(8, 9, [txt("b"), sty(False, {"italics": True}), txt("c")]),
                                          cap(14, 15, [txt("d"), sty(True, {"underline": True, "class": "nope"})])])})


def s_open_last(t, n):
    return CaptionSet({"fr": CaptionList([cap(1, 2, [txt("w"), sty(True, {"italics": True}), txt(chars(t, n, 1))])])})


def s_layout(t, n):
    i = t.choice(n + "al", 3) if n == "b" else 1
    l1, l2 = lay(t, n + "1", al=AL[i], pad=True), lay(t, n + "2", al=AL[(i + 1) % 3])
    return CaptionSet({"en": CaptionList([
        cap(1, 2, [txt("a", l1), br(l1), txt("b", l2)], layout=l1), cap(8, 9, [sty(True, {"italics": True}, l2), txt("c", l2),
            sty(False, {"italics": True}, l2)], {"region": "mine"}), cap(14, 15, [txt("d")], layout=l2)], layout_info=l1)},
        styles={"mine": {"region": "zz"}}, layout_info=l2)


def s_units(t, n):
    u = t.pick(n + "unit", [U.PIXEL, U.CELL, U.EM])
    l1 = lay(t, n + "1", u, AL[0], pad=True)
    l2 = lay(t, n + "2", extent=False)
    return CaptionSet({"en": CaptionList([cap(1, 2, [txt("a", l1), br(), txt("b", l2)], layout=l2), cap(8, 9, [txt("c")], layout=l1)],
                                         layout_info=l2)})


def s_langs(t, n):
    l1, l2 = lay(t, n + "1", pad=True), lay(t, n + "2", al=AL[0], pad=True)
    return CaptionSet({"en": CaptionList([cap(2, 4, [txt("a")]), cap(8, 9, [txt("b")], {"class": "k"})], layout_info=l1),
                       "fr": CaptionList([cap(1, 2, [txt(chars(t, n, 1))]), cap(4, 8, [txt("d")])], layout_info=l2),
                       "de": CaptionList()},
                      styles={"k": {"lang": "en", "color": "red"}, "p": {"color": "blue"}, "sync": {}})


def s_same(t, n):
    """captions of the same time span"""
    l = lay(t, n + "1")
    return CaptionSet({"en": CaptionList([cap(1, 2, [txt(chars(t, n, 1), l)], {"italics": True}, layout=l), cap(1, 2, [txt("b")]),
                                          cap(1, 2, [sty(True, {"bold": True}), txt("c"), sty(False, {"bold": True})]),
                                          cap(8, 9, [txt("d")])])})


def s_vtt(t, n):
    l = Layout(webvtt_positioning="align:left position:1" + t.digits(n, 1) + "%")
    return CaptionSet({"en": CaptionList([cap(1, 2, [txt("a", l), txt("b")], layout=l)])})


def s_empty(t, n):
    return CaptionSet({"en": CaptionList(), "fr": CaptionList([cap(1, 2, [txt(chars(t, n, 1))])])})


def s_bare(t, n):
    return CaptionSet({"en": []})


def s_scc(t, n):
    """long lines, characters SCC cannot encode, captions too close together"""
    return CaptionSet({"en": CaptionList([cap(5, 6, [txt("some words that do not fit on one line " + chars(t, n, 1))]),
                                          cap(7, 8, [txt("b-c \u4e00"), br(), txt("d")]), cap(8, 9, [txt("e" * 40)])])})


SETS = {"plain": s_plain, "styled": s_styled, "open": s_open, "open-last": s_open_last, "layout": s_layout, "units": s_units,
        "langs": s_langs, "same": s_same, "vtt": s_vtt, "empty": s_empty, "bare": s_bare, "scc": s_scc}


def options(name, tier):
    opts = [(DIM, {}), ({}, {})]
    if name in ("dfxp", "dfxp-legacy", "dfxp-single"):
        opts += [(DIM, {"force": "fr"})]
    if name in ("dfxp", "dfxp-single"):
        opts += [(dict(DIM, write_inline_positioning=True), {})]
    if name == "webvtt":
        opts += [(DIM, {"lang": "fr"})]
    more = []
    if name in ("dfxp", "webvtt", "sami", "dfxp-single"):
        more = [(dict(DIM, relativize=False), {}), (dict(DIM, fit_to_screen=False), {}),
                (dict(relativize=False, fit_to_screen=False), {})]
    return opts + more


def attempt(t, w, cs, kw):
    try:
        return w.write(cs, **kw)
    except Exception as e:
        return ["raised", type(e).__name__]


def run_set(wname, sname, oname):
    def run(t):
        cs = SETS[sname](t, "b")
        opts = options(wname, t.tier)
        k = 4 if oname in ("other-writers", "langs") else 2
        o, kw = t.pick("options", opts[:k], opts[k:])
        before = snap(cs)

        def unchanged(label):
            t.check_eq(label, snap(cs), before)
        w = writer(wname, **o)
        out = attempt(t, w, cs, kw)
        t.observe("out", out)
        t.reach("raised" if isinstance(out, list) else "returned")
        unchanged("the set is unchanged" if not isinstance(out, list) else "the set is unchanged after the writer raised")
        t.check_eq("same writer, same set again", attempt(t, w, cs, kw), out)
        t.reach("again")
        # something else in between
        if oname == "other-writers":
            for x in WRITERS:
                if x != wname:
                    attempt(t, writer(x, **(DIM if x != "scc" else {})), cs, {})
            unchanged("the set is unchanged by every other writer")
        else:
            other = SETS[oname](t, "a")
            attempt(t, w, other, {})
            # the same writer class with other options, on the other set
            attempt(t, writer(wname), other, {})
            if t.tier != "quick":
                attempt(t, w, other, kw)
        t.reach("after-other")
        t.check_eq("same writer after other writes", attempt(t, w, cs, kw), out)
        t.check_eq("fresh writer after other writes", attempt(t, writer(wname, **o), cs, kw), out)
        unchanged("the set is unchanged at the end")
        t.hash_order(True)
        t.new_process()
        res = attempt(t, writer(wname, **o), cs, kw)
        t.hash_order(False)
        t.reach("hash-order")
        t.check_eq("the output does not depend on the hash seed", res, out)
    return run


def scenarios(tier):
    out = []
    deep = tier != "quick"
    for w in WRITERS:
        for s in SETS:
            if s == "scc" and not deep and w not in ("scc", "srt"):
                continue
            others = ["other-writers", "open-last"]
            if w.startswith("dfxp") or w in ("sami", "webvtt"):
                others += ["layout", "langs"]
            if w == "scc":
                others += ["scc"]
            if deep:
                others += [x for x in ("styled", "open", "units", "same", "vtt", "empty", "layout", "langs") if x not in others]
            for o in others:
                out.append((f"{w}-{s}-then-{o}-{tier}", run_set(w, s, o)))
    return out
