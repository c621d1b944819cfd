"""C12: positioning survives DFXP round trips and maps faithfully to WebVTT settings."""
from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, WebVTTReader, WebVTTWriter)
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum as H, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                VerticalAlignmentEnum as V)
from refs import ttml, vttp
from sx.charsets import CS

BOUNDS = ("percentage layouts with any subset of origin, extent, padding and alignment; three unrelated layouts A, B, C with symbolic "
          "coordinates (whole percents 10..49, thorough also two decimals) so that equal layouts are covered as well as distinct ones, attached in every "
          "combination to the language, the captions and up to four text nodes with and without style spans and line breaks; every "
          "alignment pair including missing components; padding arities 1..4 read from documents; relativize, fit-to-screen and inline "
          "positioning on and off; WebVTT: the same layouts, and documents whose cue settings are any printable text of up to 5 (thorough 8) characters")
OUTSIDE = ("layouts given to the caption set as a whole; text without a layout inside a style span that has one; "
           "fit-to-screen of boxes that do not fit (C13); WebVTT position, line and size of layouts without an origin")
ASSUMPTIONS = ["a layout is taken whole from the nearest of node, caption and language that has one",
               "percentages may be rounded to two decimals in WebVTT and DFXP output"]
REACH = ["from-node", "from-caption", "from-language", "none", "coincide", "distinct", "split", "joined", "verbatim", "align", "fit", "arity"]

HS = [H.START, H.LEFT, H.CENTER, H.RIGHT, H.END]
VS = [V.BOTTOM, V.TOP, V.CENTER]
PC = UnitEnum.PERCENT


def pc(v):
    return Size(v, PC)


def lay(t, name, kind, lo=10, hi=49):
    """a layout with the parts in kind: o origin, e extent, p padding, a alignment, h / v only one component of it"""
    o = e = p = a = None
    if "o" in kind:
        o = Point(pc(t.int(name + "x", lo, hi)), pc(t.int(name + "y", lo, hi)))
    if "e" in kind:
        # inside the screen whatever the origin is
        e = Stretch(pc(t.int(name + "w", 10, 40)), pc(t.int(name + "h", 10, 45)))
    if "p" in kind:
        p = Padding(*[pc(t.int(f"{name}p{k}", 1, 4)) for k in "0123"])
    if "a" in kind:
        a = Alignment(H.RIGHT, V.TOP)
    if "b" in kind:
        a = Alignment(H.CENTER, V.CENTER)
    return Layout(origin=o, extent=e, padding=p, alignment=a)


def val(s):
    return s.value


def parts(l):
    """the effective layout as plain data, defaults filled in"""
    if l is None:
        return [None, None, None, "start", "bottom"]
    o, e, p, a = l.origin, l.extent, l.padding, l.alignment
    units = [s.unit for q in ([o.x, o.y] if o else [], [e.horizontal, e.vertical] if e else [],
                              [p.before, p.after, p.start, p.end] if p else []) for s in q]
    assert all([u is PC for u in units])
    return [[val(o.x), val(o.y)] if o else None, [val(e.horizontal), val(e.vertical)] if e else None,
            [val(p.before), val(p.after), val(p.start), val(p.end)] if p else None,
            (a.horizontal if a and a.horizontal else H.START).value, (a.vertical if a and a.vertical else V.BOTTOM).value]


def num(t, a, b):
    """equal up to the rounding to two decimals"""
    return t.all([a - b <= 0.0051, b - a <= 0.0051])


def check_parts(t, label, got, want):
    for k, name in enumerate(["origin", "extent", "padding"]):
        g, w = got[k], want[k]
        if g is None or w is None:
            t.check(f"{label}: {name}", g is None and w is None, detail=lambda: [got, want])
        else:
            t.check(f"{label}: {name}", t.all([len(g) == len(w)] + [num(t, x, y) for x, y in zip(g, w)]), detail=lambda: [got, want])
    t.check(f"{label}: horizontal alignment", got[3] == want[3], detail=lambda: [got, want])
    t.check(f"{label}: vertical alignment", got[4] == want[4], detail=lambda: [got, want])


def pval(s):
    assert s.endswith("%"), s
    return float(s[:-1])


def region_parts(el):
    """the layout a region element states"""
    if el is None:
        return None
    o, e, p = (el.attrs.get("tts:" + k) for k in ("origin", "extent", "padding"))
    o, e, p = ([pval(x) for x in v.split()] if v is not None else None for v in (o, e, p))
    if p:       # before end after start
        p = {1: lambda a: [a, a, a, a], 2: lambda a, b: [a, a, b, b], 3: lambda a, b, c: [a, c, b, b],
             4: lambda a, b, c, d: [a, c, d, b]}[len(p)](*p)
    return [o, e, p, el.attrs.get("tts:textAlign") or "start",
            {"before": "top", "after": "bottom", "center": "center", None: "bottom"}[el.attrs.get("tts:displayAlign")]]


def written(t, doc):
    """-> per div, per p: list of (text, region element) by the nearest region reference"""
    d = ttml.parse(doc)

    def walk(el, ref, out):
        ref = el.attrs.get("region") or ref
        for k in el.kids:
            if isinstance(k, str):
                out.extend([(w, ref) for w in k.split()])
            else:
                walk(k, ref, out)
        return out
    res = []
    for _, cues, div in d.divs:
        res.append([walk(c.el, div.attrs.get("region"), []) for c in cues])
    for r in res:
        for c in r:
            for _, ref in c:
                t.check("the region referred to is defined", ref in d.regions, detail=lambda: ref)
    return [[[(x, d.regions.get(ref)) for x, ref in c] for c in r] for r in res]


def node_lists(S, texts, lays):
    """node lists of each structure; lays give one layout per text"""
    T, B, ST = CaptionNode.create_text, CaptionNode.create_break, CaptionNode.create_style
    it = {"italics": True}
    x, l = texts, lays
    if S == "break":
        return [T(x[0], layout_info=l[0]), B(layout_info=l[0]), T(x[1], layout_info=l[1])]
    if S == "adjacent":
        return [T(x[0] + " ", layout_info=l[0]), T(x[1], layout_info=l[1])]
    if S == "span-first":
        return [ST(True, it, layout_info=l[0]), T(x[0], layout_info=l[0]), ST(False, it, layout_info=l[0]), T(x[1], layout_info=l[1])]
    if S == "span-last":
        return [T(x[0], layout_info=l[0]), B(), ST(True, it, layout_info=l[1]), T(x[1], layout_info=l[1]),
                ST(False, it, layout_info=l[1])]
    if S == "span-mid":
        return [T(x[0], layout_info=l[0]), ST(True, it, layout_info=l[1]), T(x[1], layout_info=l[1]), B(layout_info=l[1]),
                T(x[2], layout_info=l[1]), ST(False, it, layout_info=l[1]), T(x[3], layout_info=l[0])]
    if S == "spans":
        return [ST(True, it, layout_info=l[0]), T(x[0], layout_info=l[0]), ST(False, it, layout_info=l[0]),
                ST(True, {"bold": True}, layout_info=l[1]), T(x[1], layout_info=l[1]), ST(False, {"bold": True}, layout_info=l[1])]
    raise KeyError(S)


TEXTS = {"span-mid": [0, 1, 1, 0]}
STRUCT = ["break", "adjacent", "span-first", "span-last", "span-mid", "spans"]


def build(t, S, lang, caption, n0, n1, second=None):
    """-> caption set and [(text, effective layout)] per caption"""
    order = TEXTS.get(S, [0, 1])
    xs = [f"{'mnop'[k]}{k}" for k in range(len(order))]
    caps = [Caption(1000000, 2000000, node_lists(S, xs, [n0, n1]), style={}, layout_info=caption)]
    eff = lambda n, c: n or c or lang       # noqa: E731
    want = [[(x, eff([n0, n1][k], caption)) for x, k in zip(xs, order)]]
    if second is not None:
        caps.append(Caption(3000000, 4000000, [CaptionNode.create_text("zz")], style={}, layout_info=second or None))
        want.append([("zz", second or lang)])
    for src, l in (("from-node", n0), ("from-caption", not n0 and caption), ("from-language", not n0 and not caption and lang),
                   ("none", not (n0 or caption or lang))):
        if l:
            t.reach(src)
    return CaptionSet({"en": CaptionList(caps, layout_info=lang)}, styles={}), want


def options(t, fit_ok=True):
    kw = dict(relativize=t.pick("relativize", [True, False]), fit_to_screen=False)
    if fit_ok and t.pick("fit", [False, True]):
        kw["fit_to_screen"] = True
        t.reach("fit")
    return kw


def judge_dfxp(t, doc, want):
    got = written(t, doc)
    t.check("one div with the captions", len(got) == 1 and len(got[0]) == len(want))
    for g, w in zip(got[0], want):
        t.check("the texts in order", [x for x, _ in g] == [x for x, _ in w], detail=lambda: [x for x, _ in g])
        for (x, r), (_, l) in zip(g, w):
            check_parts(t, "written region", region_parts(r), parts(l))
    back = DFXPReader().read(doc)
    caps = back.get_captions("en")
    t.check("captions read back", len(caps) == len(want))
    for c, w in zip(caps, want):
        texts = [(x, n.layout_info) for n in c.nodes if n.type_ == CaptionNode.TEXT for x in n.content.split()]
        t.check("texts read back", [x for x, _ in texts] == [x for x, _ in w], detail=lambda: [x for x, _ in texts])
        for (_, g), (_, l) in zip(texts, w):
            check_parts(t, "re-read layout", parts(g), parts(l))


def coincide(t, a, b):
    if a is not None and b is not None and a is not b:
        t.reach("coincide" if a == b else "distinct")


def dfxp_levels(S, kinds, inline=False):
    def fn(t):
        A, B, C = (lay(t, n, k) for n, k in zip("ABC", kinds))
        lang = [None, A][t.choice("language", 2)]
        cap = [None, A, B][t.choice("caption", 3)]
        n0 = [None, B, C][t.choice("n0", 3)]
        n1 = [None, A, B, C][t.choice("n1", 4)]
        coincide(t, n0 or cap or lang, n1 or cap or lang)
        cs, want = build(t, S, lang, cap, n0, n1)
        doc = DFXPWriter(relativize=False, fit_to_screen=False, write_inline_positioning=inline).write(cs)
        judge_dfxp(t, doc, want)
    return fn


def dfxp_two(kinds):
    """two captions, options"""
    def fn(t):
        A, B, C = (lay(t, n, k) for n, k in zip("ABC", kinds))
        kw = options(t, all(("e" in k) or ("o" not in k) for k in kinds))
        lang = [None, A][t.choice("language", 2)]
        cap = [None, B][t.choice("caption", 2)]
        second = [False, A, C][t.choice("second", 3)]
        coincide(t, cap or lang, second or lang)
        cs, want = build(t, "break", lang, cap, None, None, second)
        judge_dfxp(t, DFXPWriter(video_width=640, video_height=360, **kw).write(cs), want)
    return fn


def dfxp_langs(t):
    """two languages; the second one's captions never take the first one's layout"""
    A, B, C = lay(t, "A", "oe"), lay(t, "B", "oe"), lay(t, "C", "a")
    T = CaptionNode.create_text
    ls = {"en": [None, A, C][t.choice("en", 3)], "fr": [None, B][t.choice("fr", 2)]}
    c1 = [None, B][t.choice("c1", 2)]
    c2 = [None, A][t.choice("c2", 2)]
    cs = CaptionSet({"en": CaptionList([Caption(1000000, 2000000, [T("aa")], layout_info=c1)], layout_info=ls["en"]),
                     "fr": CaptionList([Caption(1000000, 2000000, [T("bb")], layout_info=c2)], layout_info=ls["fr"])})
    force = t.pick("force", ["", "fr"])
    doc = DFXPWriter(relativize=False, fit_to_screen=False).write(cs, force=force)
    want = {"en": c1 or ls["en"], "fr": c2 or ls["fr"]}
    back = DFXPReader().read(doc)
    langs = ["fr"] if force else ["en", "fr"]
    t.check("languages", list(back.get_languages()) == langs)
    for l, g in zip(langs, written(t, doc)):
        check_parts(t, "written region", region_parts(g[0][0][1]), parts(want[l]))
        n = [n for n in back.get_captions(l)[0].nodes if n.type_ == CaptionNode.TEXT][0]
        check_parts(t, "re-read layout", parts(n.layout_info), parts(want[l]))


def dfxp_partial(t):
    """layouts that share some parts and differ in one; missing alignment components"""
    x, y, z = t.int("x", 10, 49), t.int("y", 10, 49), t.int("z", 10, 49)
    P = lambda a, b: Point(pc(a), pc(b))        # noqa: E731
    S = lambda a, b: Stretch(pc(a), pc(b))      # noqa: E731
    D = lambda a, b, c, d: Padding(pc(a), pc(b), pc(c), pc(d))      # noqa: E731
    AB = t.pick("pair", [
        lambda: (Layout(origin=P(x, y)), Layout(origin=P(y, x))),
        lambda: (Layout(origin=P(x, y)), Layout(extent=S(x, y))),
        lambda: (Layout(origin=P(x, y)), Layout(origin=P(x, y), extent=S(z, z))),
        lambda: (Layout(origin=P(x, y), extent=S(z, 20)), Layout(origin=P(x, y), extent=S(20, z))),
        lambda: (Layout(origin=P(x, y)), Layout(origin=P(x, z))),
        lambda: (Layout(origin=P(x, y)), Layout(origin=P(z, y))),
        lambda: (Layout(padding=D(x, y, z, 10)), Layout(padding=D(y, x, z, 10))),
        lambda: (Layout(padding=D(x, y, z, 10)), Layout(padding=D(x, y, 10, z))),
        lambda: (Layout(padding=D(x, y, z, 10)), Layout(padding=D(x, 10, z, y))),
        lambda: (Layout(origin=P(x, y), alignment=Alignment(H.LEFT, V.TOP)), Layout(origin=P(x, z), alignment=Alignment(H.LEFT, V.CENTER))),
        lambda: (Layout(origin=P(x, y), alignment=Alignment(H.START, V.BOTTOM)), Layout(origin=P(x, z))),
        lambda: (Layout(origin=P(x, y), alignment=Alignment(None, V.TOP)), Layout(origin=P(x, z), alignment=Alignment(H.END, None))),
        lambda: (Layout(origin=P(x, y), alignment=Alignment(None, None)), Layout(padding=D(x, y, z, z))),
    ])()
    where = t.pick("where", ["nodes", "caption-node", "language-caption", "language-node"])
    a, b = AB
    args = {"nodes": (None, None, a, b), "caption-node": (None, a, None, b), "language-caption": (a, b, None, None),
            "language-node": (a, None, None, b)}[where]
    cs, want = build(t, "break", *args, second=a)
    judge_dfxp(t, DFXPWriter(relativize=False, fit_to_screen=False).write(cs), want)


def alignments(t):
    """every alignment pair, at every level, in both formats"""
    hh = [None] + HS
    vv = [None] + VS
    h, v = hh[t.choice("h", len(hh))], vv[t.choice("v", len(vv))]
    x, y = t.int("x", 10, 49), t.int("y", 10, 49)
    l = Layout(origin=Point(pc(x), pc(y)) if t.choice("origin", 2) else None, alignment=Alignment(h, v))
    level = t.choice("level", 3)
    args = [(l, None, None, None), (None, l, None, None), (None, None, l, l)][level]
    cs, want = build(t, "break", *args)
    t.reach("align")
    judge_dfxp(t, DFXPWriter(relativize=False, fit_to_screen=False).write(cs), want)
    judge_vtt(t, WebVTTWriter(relativize=False, fit_to_screen=False).write(cs), want, False)


def document(t):
    """layouts of a document: padding arities, alignment on region or p, region by style reference, on div, p or span"""
    n = 1 + t.choice("arity", 4)
    v = [t.int(f"p{k}", 1, 4) for k in range(4)]
    x, y = t.int("x", 10, 49), t.int("y", 10, 49)
    t.reach("arity")
    pad = " ".join([f"{k}%" for k in v[:n]])
    p = {1: [0, 0, 0, 0], 2: [0, 0, 1, 1], 3: [0, 2, 1, 1], 4: [0, 2, 3, 1]}[n]
    via = t.pick("via", ["attribute", "style-child", "style-ref", "style-chain"])
    attrs = f'tts:origin="{x}% {y}%" tts:padding="{pad}"'
    styles, ra, rc = "", attrs, ""
    if via == "style-child":
        ra, rc = "", f"<style {attrs}/>"
    elif via == "style-ref":
        styles, ra = f'<style xml:id="s1" {attrs}/>', 'style="s1"'
    elif via == "style-chain":
        styles, ra = f'<style xml:id="s0" tts:padding="{pad}"/><style xml:id="s1" style="s0" tts:origin="{x}% {y}%"/>', 'style="s1"'
    al = t.pick("align", ["", "region", "p"])
    want_h, want_v = ("start", "bottom") if not al else ("right", "top" if al == "region" else "bottom")
    if al == "region":
        ra += ' tts:textAlign="right" tts:displayAlign="before"'
    where = t.pick("where", ["div", "p", "span"])
    reg = {w: (' region="r1"' if w == where else "") for w in ("div", "p", "span")}
    ta = ' tts:textAlign="right"' if al == "p" else ""
    doc = ('<?xml version="1.0" encoding="utf-8"?>\n<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml" '
           'xmlns:tts="http://www.w3.org/ns/ttml#styling"><head><styling>' + styles + '</styling><layout>'
           f'<region xml:id="r1" {ra}>{rc}</region></layout></head><body><div xml:lang="en"{reg["div"]}>'
           f'<p begin="00:00:01.000" end="00:00:02.000"{reg["p"]}{ta}><span{reg["span"]}>abc</span></p></div></body></tt>')
    want = [[x, y], None, [v[k] for k in p], want_h, want_v]
    cs = DFXPReader().read(doc)
    for k in range(2):
        n = [n for n in cs.get_captions("en")[0].nodes if n.type_ == CaptionNode.TEXT][0]
        check_parts(t, "read layout" if k == 0 else "re-read layout", parts(n.layout_info), want)
        cs = DFXPReader().read(DFXPWriter(relativize=False, fit_to_screen=False).write(cs))


def decimals(fmt, places, part):
    """fractional percentages"""
    def fn(t):
        f = [t.dec(f"v{k}", 1, 49, places) for k in range(2)]
        if part == "origin":
            l = Layout(origin=Point(pc(f[0]), pc(f[1])))
        elif part == "extent":
            l = Layout(origin=Point(pc(20), pc(20)), extent=Stretch(pc(f[0]), pc(f[1])))
        else:
            l = Layout(origin=Point(pc(20), pc(20)), padding=Padding(pc(f[0]), pc(3), pc(f[1]), pc(4)))
        cs, want = build(t, "break", None, l, None, None)
        if fmt == "dfxp":
            judge_dfxp(t, DFXPWriter(relativize=False, fit_to_screen=False).write(cs), want)
        else:
            judge_vtt(t, WebVTTWriter(relativize=False, fit_to_screen=False).write(cs), want, False)
    return fn


# ---- WebVTT

def vtt_settings(l, fit):
    """the settings a layout with an origin must give"""
    out = {}
    p = parts(l)
    if p[3] != "center":
        out["align"] = p[3]
    o, e, pad = p[:3]
    if o:
        if fit and not e:
            e = [90 - o[0], 95 - o[1]]
        out["position"] = o[0] + (pad[2] if pad else 0)
        out["line"] = o[1] + (pad[0] if pad else 0)
        if e:
            out["size"] = e[0] - (pad[2] + pad[3] if pad else 0)
    return out


def same(a, b):
    return (a is b) or (a is not None and b is not None and a == b)


def judge_vtt(t, doc, want, fit):
    cues = vttp.parse(doc)
    flat = []
    for w in want:
        groups = []
        for x, l in w:
            if groups and same(groups[-1][1], l):
                groups[-1][0].append(x)
            else:
                groups.append(([x], l))
        t.reach("split" if len(groups) > 1 else "joined")
        flat.append(groups)
    t.check("one cue per layout", len(cues) == sum(len(g) for g in flat), detail=lambda: doc)
    k = 0
    for i, groups in enumerate(flat):
        for xs, l in groups:
            if k >= len(cues):
                return
            c = cues[k]
            k += 1
            t.check("the times of the caption", c.start == (1 + 2 * i) * 1000000 and c.end == (2 + 2 * i) * 1000000)
            t.check("the text of the nodes", "".join("".join(c.lines).split()) == "".join(xs), detail=lambda: doc)
            if l is None:
                continue
            w = vtt_settings(l, fit)
            got = c.settings
            t.check("align", got.get("align") == w.get("align"), detail=lambda: [c.raw, w])
            if l.origin:
                t.check("settings present", sorted(got) == sorted(w), detail=lambda: [c.raw, sorted(w)])
                for key in ("position", "line", "size"):
                    if key in w and key in got:
                        t.check(f"{key} is a percentage", got[key].endswith("%"))
                        t.check(key, num(t, pval(got[key]), w[key]), detail=lambda: [c.raw, w])


def vtt_levels(S, kinds):
    def fn(t):
        A, B, C = (lay(t, n, k) for n, k in zip("ABC", kinds))
        lang = [None, A][t.choice("language", 2)]
        cap = [None, A, B][t.choice("caption", 3)]
        n0 = [None, B, C][t.choice("n0", 3)]
        n1 = [None, A, B, C][t.choice("n1", 4)]
        coincide(t, n0 or cap or lang, n1 or cap or lang)
        cs, want = build(t, S, lang, cap, n0, n1)
        judge_vtt(t, WebVTTWriter(relativize=False, fit_to_screen=False).write(cs), want, False)
    return fn


def vtt_two(kinds):
    def fn(t):
        A, B, C = (lay(t, n, k) for n, k in zip("ABC", kinds))
        kw = options(t)
        lang = [None, A][t.choice("language", 2)]
        cap = [None, B][t.choice("caption", 2)]
        n1 = [None, C][t.choice("n1", 2)]
        second = [False, A, C][t.choice("second", 3)]
        cs, want = build(t, "break", lang, cap, None, n1, second)
        dims = t.pick("dims", [{}, dict(video_width=640, video_height=360)])
        judge_vtt(t, WebVTTWriter(**kw, **dims).write(cs), want, kw["fit_to_screen"])
    return fn


WORD = CS("printable", minus=" ")
WORDS = CS("printable", plus="\t")


def verbatim(n, inner):
    """cue settings of a document; inner: where a blank may stand"""
    def fn(t):
        s = t.text("s", n, WORDS if inner else WORD)
        t.assume(s[0] not in " \t" and s[-1] not in " \t")
        t.assume("-->" not in s)
        two = t.choice("two", 3)
        second = ["align:start", s, ""][two]
        sep = t.pick("sep", [" ", "  ", "\t"])
        trail = t.pick("trail", ["", " "])
        doc = f"WEBVTT\n\n00:01.000 --> 00:02.000{sep}{s}{trail}\nab\n<i>cd</i>\n\n00:03.000 --> 00:04.000{sep if second else ''}{second}\nef\n"
        cs = WebVTTReader().read(doc)
        kw = options(t)
        out = WebVTTWriter(**kw).write(cs)
        lines = out.split("\n")
        timing = [x for x in lines if " --> " in x]
        t.check("two cues", len(timing) == 2, detail=lambda: out)
        want = ["00:01.000 --> 00:02.000 " + s, "00:03.000 --> 00:04.000" + (" " + second if second else "")]
        for g, w in zip(timing, want):
            t.check("settings verbatim", g == w, detail=lambda: [g, w])
        t.reach("verbatim")
        again = WebVTTWriter(**kw).write(WebVTTReader().read(out))
        t.check_eq("settings verbatim once more", [x for x in again.split("\n") if " --> " in x], timing)
    return fn


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn):
        out.append((f"{name} {tier}", fn))
    add("dfxp partial", dfxp_partial)
    add("alignments", alignments)
    add("document", document)
    add("dfxp languages", dfxp_langs)
    for k in [("oe", "oe", "oe"), ("p", "e", "p"), ("oea", "pb", "a")]:
        add("dfxp two " + "-".join(k), dfxp_two(k))
    for k in [("o", "o", "o"), ("oep", "oa", "ob"), ("oea", "oepb", "p")]:
        add("vtt two " + "-".join(k), vtt_two(k))
    kinds = [("o", "o", "o"), ("a", "o", "b")] + ([("oe", "p", "oe"), ("oepa", "oepa", "oepa")] if thorough else [])
    for S in STRUCT:
        for k in kinds:
            add(f"dfxp {S} {'-'.join(k)}", dfxp_levels(S, k))
            add(f"vtt {S} {'-'.join(k)}", vtt_levels(S, k))
        add(f"dfxp {S} inline", dfxp_levels(S, ("o", "oe", "b"), True))
    for places in ([1, 2] if thorough else [1]):
        for part in ("origin", "extent", "padding"):
            for fmt in ("dfxp", "vtt"):
                add(f"decimals {fmt} {part} {places}", decimals(fmt, places, part))
    for n in ([1, 2, 3, 5, 8] if thorough else [1, 2, 3, 5]):
        add(f"verbatim {n}", verbatim(n, n > 2))
    return out
