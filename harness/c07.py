"""C07: DFXP output is well-formed XML and internally consistent."""
from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, MicroDVDReader, SAMIReader, SCCReader,
                       SRTReader, WebVTTReader)
from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.exceptions import RelativizationError
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum as H, Layout, Padding, Point, Size, Stretch, UnitEnum,
                                VerticalAlignmentEnum as V)
from refs import ttml
from sx.charsets import CS, PRINTABLE

BOUNDS = ("one to three symbolic printable characters (all of printable Unicode) in every place a string of the caption set reaches: text, "
          "each style key of caption, node and document styles, class names with and without a definition, language, force; document style ids equal to and unlike the "
          "region ids; every balanced sequence (nested too) of up to 5 (thorough 7) nodes over text, break and three kinds of style, of 3 (4) nodes "
          "with layouts (4 and 5 for one kind of style); layouts with symbolic coordinates in percent, px and cells at every level; 1..3 captions with symbolic times "
          "(equal or not) in 0..2 languages; the three DFXP writers with relativize, fit-to-screen, inline positioning, force and "
          "a given position; documents of all six readers whose styles, regions and text hold special characters")
OUTSIDE = ("characters that are not printable; style values that are not strings; settings the writer refuses (C13); SAMI style sheets are taken from a list "
           "(cssutils is not encoded symbolically)")
ASSUMPTIONS = ["an id is taken as valid if it is an XML name without colon"]
REACH = ["nested", "plain-span", "inline", "region", "shared", "run", "forced", "refused", "defined-class", "undefined-class", "clash",
         "sami", "dfxp", "webvtt", "scc", "srt", "microdvd", "empty"]

T, BR, ST = CaptionNode.create_text, CaptionNode.create_break, CaptionNode.create_style
WR = ["dfxp", "dfxp-inline", "single", "single-inline", "legacy"]
POS = Layout(origin=Point(Size(10, UnitEnum.PERCENT), Size(80, UnitEnum.PERCENT)), alignment=Alignment(H.CENTER, V.TOP))
DIMS = dict(video_width=640, video_height=360)


def make(w, **kw):
    if w == "legacy":
        return LegacyDFXPWriter()
    if w.startswith("single"):
        return SinglePositioningDFXPWriter(POS, write_inline_positioning=w.endswith("inline"), **kw)
    return DFXPWriter(write_inline_positioning=w.endswith("inline"), **kw)


START = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


def is_name(s):
    if s == "" or not (s[0] in START or ord(s[0]) >= 0xc0):
        return False
    for c in s[1:]:
        if not (c in START + "0123456789.-" or ord(c) >= 0xc0):
            return False
    return True


def expected(w, cs, langs):
    out = []
    for l in langs:
        n, last = 0, None
        for c in cs.get_captions(l):
            if w in ("dfxp", "dfxp-inline") or last is None or not (last.start == c.start and last.end == c.end):
                n += 1
            last = c
        out.append(n)
    return out


def judge(t, w, cs, doc, langs):
    try:
        d = ttml.parse(doc)
    except Exception as e:      # not well-formed, or not a TTML document
        t.fail("the output is not a well-formed TTML document", [str(e), doc])
        return
    body_refs = {"style": [], "region": []}
    for e in d.root.walk():
        for a in ("style", "region"):
            if e.attrs.get(a) is not None:
                body_refs[a].append(e.attrs[a])
    for i in d.ids:
        t.check("an id is a name", is_name(i), detail=lambda: repr(i))
    for k, i in enumerate(d.ids):
        for j in d.ids[:k]:
            t.check("ids are unique", i != j, detail=lambda: d.ids)
    for ref in body_refs["style"]:
        for r in ref.split() or [ref]:
            t.check("a style reference resolves", any([r == s for s in d.styles]), detail=lambda: [r, doc])
    for r in body_refs["region"]:
        t.check("a region reference resolves", r in d.regions, detail=lambda: [r, doc])
    for r in d.regions:
        t.check("a region is referred to", r in body_refs["region"], detail=lambda: [r, doc])
        t.reach("region")
    t.check("one div per language", len(d.divs) == len(langs), detail=lambda: doc)
    want = expected(w, cs, langs)
    for (lang, cues, _), l, n in zip(d.divs, langs, want):
        t.check("the language of the div", lang == l, detail=lambda: [lang, l])
        t.check("one p per caption", len(cues) == n, detail=lambda: [len(cues), n, doc])


def one(nodes, style=None, styles=None, layout=None, lang="en", lang_layout=None, set_layout=None):
    cap = Caption(1000000, 2000000, nodes, style=style or {}, layout_info=layout)
    return CaptionSet({lang: CaptionList([cap], layout_info=lang_layout)}, styles=styles or {}, layout_info=set_layout)


KEYS = ["color", "font-family", "font-size", "text-align", "display-align"]


def values(w, place, n):
    """a symbolic value of each style key"""
    def fn(t):
        v = t.text("v", n, PRINTABLE)
        key = t.pick("key", KEYS)
        st = {key: v}
        if place == "node":
            cs = one([T("a"), ST(True, st), T("b"), ST(False, st), T("c")])
        elif place == "caption":
            cs = one([T("a")], style=st)
        else:
            cs = one([T("a")], style={"class": "k"}, styles={"k": st, "m": {"color": "red", "class": "k"}})
        judge(t, w, cs, make(w).write(cs), ["en"])
    return fn


def texts(w, n):
    def fn(t):
        v = t.text("v", n, PRINTABLE)
        nodes = t.pick("nodes", [lambda: [T(v)], lambda: [T("a"), BR(), T(v)],
                                 lambda: [ST(True, {"italics": True}), T(v), ST(False, {"italics": True}), T("x")],
                                 lambda: [ST(True, {"bold": True}), T(v), ST(False, {"bold": True})]])()
        cs = one(nodes)
        judge(t, w, cs, make(w).write(cs), ["en"])
    return fn


def classes(w, n):
    """class names, defined or not, on captions, nodes and styles"""
    def fn(t):
        c = t.text("c", n, CS("printable", minus=" ") if n > 1 else PRINTABLE)
        place = t.pick("place", ["caption", "node", "style"])
        defs = t.pick("defined", ["same"] + (["other", "none", "empty", "bold"] if n == 1 or t.tier != "quick" else []))
        styles = {"same": {c: {"color": "red"}, "k": {"color": "blue"}}, "other": {"k": {"color": "red"}}, "none": {}, "empty": {c: {}},
                  "bold": {c: {"bold": True}}}[defs]
        t.reach("defined-class" if defs == "same" else "undefined-class")
        if place == "caption":
            cs = one([T("a")], style={"class": c}, styles=styles)
        elif place == "node":
            cs = one([ST(True, {"class": c, "classes": [c]}), T("a"), ST(False, {"class": c, "classes": [c]})], styles=styles)
        else:
            cs = one([T("a")], styles=dict(styles, z={"class": c, "color": "red"}))
        judge(t, w, cs, make(w).write(cs), ["en"])
    return fn


def two_classes(w):
    """two document styles whose names are alike"""
    def fn(t):
        c, d = t.text("c", 2, (CS("=ax_0#", plus="é") if t.tier == "quick" else CS("=ax_0#.:-", plus="é"))), t.text("d", 2, (CS("=ax_0#", plus="é") if t.tier == "quick" else CS("=ax_0#.:-", plus="é")))
        t.assume(c != d)
        cs = one([ST(True, {"class": d}), T("a"), ST(False, {"class": d})], style={"class": c},
                 styles={c: {"color": "red"}, d: {"color": "blue"}})
        doc = make(w).write(cs)
        judge(t, w, cs, doc, ["en"])
        dd = ttml.parse(doc)
        p = dd.divs[0][1][0].el
        for el, col in ((p, "red"), (p.children("span")[0], "blue")):
            ref = el.attrs.get("style")
            t.check("the reference names the right style", ref in dd.styles and dd.styles[ref].attrs.get("tts:color") == col, detail=lambda: doc)
    return fn


def languages(w, n):
    def fn(t):
        l = t.text("l", n, PRINTABLE)
        cs = CaptionSet({l: CaptionList([Caption(1000000, 2000000, [T("a")])]), "en": CaptionList([Caption(1000000, 2000000, [T("b")])])})
        force = t.pick("force", ["", "en", l])
        if force != "":
            t.reach("forced")
        doc = make(w).write(cs, force=force)
        judge(t, w, cs, doc, list(cs.get_languages()) if force == "" else [force])
    return fn


def clash(w):
    """style ids against region ids"""
    def fn(t):
        i, j = (t.pick(k, ["bottom", "r0", "r1", "default", "p", "bottom_", "r0_"]) for k in "ij")
        A, B = (Layout(origin=Point(Size(t.int(k, 10, 20), UnitEnum.PERCENT), Size(50, UnitEnum.PERCENT))) for k in "AB")
        n0, c = [None, A, B][t.choice("n0", 3)], [None, A, B][t.choice("c", 3)]
        cs = one([T("a", layout_info=n0), ST(True, {"class": j}), T("b"), ST(False, {"class": j})], style={"class": i}, layout=c,
                 styles={i: {"color": "red"}, j: {"color": "blue"}})
        t.reach("clash")
        judge(t, w, cs, make(w).write(cs), ["en"])
    return fn


STYLES = [{"italics": True}, {"bold": True}, {"class": "k", "text-align": "right"}]


def sequences(w, n, kinds, layouts):
    """every balanced sequence of n nodes"""
    def fn(t):
        A = Layout(origin=Point(Size(t.int("A", 10, 12), UnitEnum.PERCENT), Size(50, UnitEnum.PERCENT)))
        B = Layout(origin=Point(Size(t.int("B", 10, 12), UnitEnum.PERCENT), Size(50, UnitEnum.PERCENT)),
                   alignment=t.pick("al", [None] + ([Alignment(H.RIGHT, V.TOP)] if kinds > 1 else []))) if layouts else None
        pool = [None, A, B] if layouts else [None]
        lay = lambda k: pool[t.choice(f"L{k}", len(pool))] if layouts else None     # noqa: E731
        nodes, stack = [], []
        for k in range(n):
            left = n - k
            opts = []
            if left > len(stack):
                opts += ["text", "break"]
            if left > len(stack) + 1:
                opts += list(range(kinds))
            if stack:
                opts.append("close")
            o = opts[t.choice(f"o{k}", len(opts))]
            if o == "text":
                nodes.append(T(["a", " b ", "<"][k % 3], layout_info=lay(k)))
            elif o == "break":
                nodes.append(BR())
            elif o == "close":
                s, l = stack.pop()
                nodes.append(ST(False, s, layout_info=l))
            else:
                s, l = STYLES[o], lay(k)
                if stack:
                    t.reach("nested")
                if o == 1:
                    t.reach("plain-span")
                stack.append((s, l))
                nodes.append(ST(True, s, layout_info=l))
        cap = [None, A][t.choice("cap", 2)] if layouts else None
        cs = one(nodes, styles={"k": {"color": "red"}}, layout=cap)
        if w.endswith("inline"):
            t.reach("inline")
        judge(t, w, cs, make(w, fit_to_screen=False, relativize=False).write(cs), ["en"])
    return fn


def captions(w):
    """captions, runs, languages, layouts of two captions that share or do not share regions"""
    def fn(t):
        n = t.choice("n", 4)
        ts = [t.int(f"s{i}", 10, 12) for i in range(n)]
        te = [t.int(f"e{i}", 13, 14) for i in range(n)]
        for a, b in zip(ts, ts[1:]):
            t.assume(a <= b)
            if a == b:
                t.reach("run")
        A, B = (Layout(extent=Stretch(Size(t.int(k, 10, 30), UnitEnum.PERCENT), Size(50, UnitEnum.PERCENT))) for k in "AB")
        if A == B:
            t.reach("shared")
        ls = [None, A, B]
        caps = [Caption(s * 1000000, e * 1000000, [T(f"t{i}")], layout_info=ls[(i + 1) % 3]) for i, (s, e) in enumerate(zip(ts, te))]
        if n == 0:
            t.reach("empty")
        d = {"en": CaptionList(caps, layout_info=[None, A][t.choice("ll", 2)])}
        if t.choice("second", 2):
            d["fr"] = CaptionList([Caption(1000000, 2000000, [T("z")], layout_info=B)] if n else [], layout_info=B)
        langs = list(d)
        cs = CaptionSet(d, styles={})
        force = t.pick("force", ["", "en"])
        judge(t, w, cs, make(w).write(cs, force=force), ["en"] if force else langs)
    return fn


def options(w):
    """layouts in every unit under all options"""
    def fn(t):
        u = t.pick("unit", [UnitEnum.PERCENT, UnitEnum.PIXEL, UnitEnum.CELL])
        lo = 10 if t.tier == "quick" else 0
        k = t.int("k", lo, 60)
        m = t.int("m", lo, 60)
        S = lambda v: Size(v, u)    # noqa: E731
        lo = t.pick("layout", [
            lambda: Layout(origin=Point(S(k), S(m))), lambda: Layout(extent=Stretch(S(k), S(m))),
            lambda: Layout(padding=Padding(S(k), S(m), S(1), S(2))), lambda: Layout(alignment=Alignment(H.END, None)),
            lambda: Layout(alignment=Alignment(None, None)), lambda: Layout(webvtt_positioning="line:1"), lambda: Layout(),
            lambda: Layout(origin=Point(S(k), S(m)), extent=Stretch(S(10), S(10)), padding=Padding(S(1)), alignment=Alignment(H.LEFT, V.TOP))])()
        where = t.pick("where", ["set", "language", "caption", "node"])
        kw = dict(relativize=t.pick("relativize", [True, False]), fit_to_screen=t.pick("fit", [True, False]))
        if t.pick("dims", [True, False]):
            kw.update(DIMS)
        n = lo if where == "node" else None
        nodes = [ST(True, {"italics": True}, layout_info=n), T("a", layout_info=n), ST(False, {"italics": True}, layout_info=n),
                 T("b", layout_info=n)]
        cs = one(nodes, layout=lo if where == "caption" else None, lang_layout=lo if where == "language" else None,
                 set_layout=lo if where == "set" else None)
        try:
            doc = make(w, **kw).write(cs)
        except (RelativizationError, ValueError):
            t.reach("refused")
            return
        judge(t, w, cs, doc, ["en"])
    return fn


SAMI_CSS = [
    'P {font-family: Arial; color: white} .ENCC {Name: English; lang: en-US}',
    'P {font-family: "A & B", \'C<D\'; color: white} .ENCC {Name: English; lang: en-US} #Big {font-size: 20pt; color: red}',
    '.ENCC {lang: en-US; text-align: left; margin-left: 3%; margin-top: 2px} .big-1 {font-size: "x>y"} .a_x1 {color: blue}',
    '.bottom {color: red} .r0 {color: blue} .ENCC {lang: en-US; margin-left: 3%} .default {font-style: italic}',
]
SAMI_P = [
    '<P class="ENCC">a &amp; b &lt;c&gt;</P>',
    '<P class="ENCC" id="Big">a <span style="font-family:\'x&amp;y\';color:red">b</span> c</P>',
    '<P class="ENCC"><span class="big-1">a<i>b</i></span><br/>c</P>',
    '<P class="ENCC"><span class="bottom">a</span> <span class="r0" style="text-align:right">b</span></P>',
    '<P class="ENCC"><b>a</b><u>b</u></P>',
    '<P class="ENCC" style="text-align:right;color:&quot;red&quot;">a</P>',
]
SCC_DOCS = [
    "Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 94ae 9420 9420 9470 9470 91ae 91ae c1c2 9120 9120 43c4 942c 942c 942f 942f\n\n00:00:04:00\t942c 942c\n",
    "Scenarist_SCC V1.0\n\n00:00:01:00\t9420 91d0 2680 8080 92ce 92ce c1c2 94d0 bc80 3e80 942f\n\n00:00:04:00\t942c\n",
    "Scenarist_SCC V1.0\n\n00:00:01:00\t9425 9425 94ad 94ad 94ce 94ce c1c2 2643\n\n00:00:04:00\t942c 942c\n",
]


def documents(fmt, w):
    """what readers return"""
    def fn(t):
        kw = {}
        if fmt == "sami":
            css, p = t.pick("css", SAMI_CSS), t.pick("p", SAMI_P)
            doc = (f'<SAMI><HEAD><STYLE TYPE="text/css"><!--\n{css}\n--></STYLE></HEAD><BODY><SYNC start="1000">{p}</SYNC>'
                   '<SYNC start="2000"><P class="ENCC">&nbsp;</P></SYNC></BODY></SAMI>')
            cs = SAMIReader().read(doc)
            kw = DIMS
        elif fmt == "dfxp":
            v = t.text("v", 1, CS("printable", minus='"'))
            v = v.replace("&", "&amp;").replace("<", "&lt;")
            sid = t.pick("id", ["k", "bottom", "r0", "k.1", "1k"])
            where = t.pick("where", ["tts:color", "tts:fontFamily", "tts:textAlign", "style", "xml:lang"])
            span = "" if where == "xml:lang" else f'{where}="{v}"'
            lang = v if where == "xml:lang" else "en"
            reg = t.pick("region", ['', 'region="r1"', 'region="nope"'])
            doc = ('<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"><head><styling>'
                   f'<style xml:id="{sid}" tts:color="red" {"" if where in ("tts:color", "xml:lang", "style") else span}/></styling><layout>'
                   f'<region xml:id="r1" tts:origin="10% 20%" tts:textAlign="right"/></layout></head><body><div xml:lang="{lang}">'
                   f'<p begin="00:00:01.000" end="00:00:02.000" style="{sid}" {reg}>a <span {span}>b<span tts:fontStyle="italic">c</span></span></p>'
                   '</div></body></tt>')
            cs = DFXPReader().read(doc)
        elif fmt == "webvtt":
            a, b = t.text("a", 2, CS("printable", minus=" ")), t.pick("set", ["", " align:left", " line:1 x:&<"])
            t.assume("-->" not in a)
            cs = WebVTTReader().read(f"WEBVTT\n\n00:01.000 --> 00:02.000{b}\n{a}x\n<i>y</i> &amp;lt;\n")
        elif fmt == "srt":
            a = t.text("a", 2, CS("printable", minus=" "))
            cs = SRTReader().read(f"1\n00:00:01,000 --> 00:00:02,000\n{a}x\n<i>y</i>\n\n2\n00:00:01,000 --> 00:00:02,000\nz\n")
        elif fmt == "microdvd":
            a = t.text("a", 2, CS("printable", minus=" |"))
            cs = MicroDVDReader().read("{25}{50}" + a + "x|<i>y\n{25}{50}z")
        else:
            cs = SCCReader().read(t.pick("doc", SCC_DOCS))
        t.reach(fmt)
        judge(t, w, cs, make(w, **kw).write(cs), list(cs.get_languages()))
    return fn


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn):
        out.append((f"{name} {tier}", fn))
    for w in WR:
        lim = thorough or not w.endswith("inline")
        if lim:
            for n in ([1, 2, 3] if thorough else [1, 2]):
                for place in ("node", "caption", "document"):
                    add(f"values {w} {place} {n}", values(w, place, n))
                add(f"classes {w} {n}", classes(w, n))
            for n in ([1, 2, 3] if thorough else [2]):
                add(f"text {w} {n}", texts(w, n))
            for n in ([1, 2, 3] if thorough else [1, 2]):
                add(f"language {w} {n}", languages(w, n))
            add(f"two classes {w}", two_classes(w))
        add(f"clash {w}", clash(w))
        if not (w.endswith("inline")):
            add(f"sequences {w}", sequences(w, 7 if thorough else 5, 3, False))
        add(f"layout sequences {w}", sequences(w, 4 if thorough else 3, 3, True))
        if w == "dfxp":
            add(f"long layout sequences {w}", sequences(w, 5 if thorough else 4, 1, True))
        add(f"captions {w}", captions(w))
        if w.endswith("inline") or (thorough and w != "legacy"):
            add(f"options {w}", options(w))
        for fmt in ("sami", "dfxp", "webvtt", "srt", "microdvd", "scc"):
            add(f"{fmt} to {w}", documents(fmt, w))
    return out
