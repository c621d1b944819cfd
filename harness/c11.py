"""C11: italic, bold and underline spans survive conversion and stay balanced."""
from pycaption import (Caption, CaptionList, CaptionNode, CaptionReadNoCaptions, CaptionSet, DFXPReader, DFXPWriter, SAMIReader,
                       SAMIWriter, SCCReader, WebVTTWriter)
from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.exceptions import CaptionLineLengthError, CaptionReadError
from pycaption.geometry import Alignment, HorizontalAlignmentEnum as H, Layout, Point, Size, UnitEnum, VerticalAlignmentEnum as V
from refs import samip, ttml, vttp
from sx.charsets import CS

BOUNDS = ("every flat (balanced, not nested) sequence of up to 6 (thorough 8) nodes over text, break and style spans of seven kinds (each non-empty "
          "subset of italic, bold, underline), at line starts and ends, across breaks, adjacent, empty; with layouts at node and caption level (coinciding or not) up to "
          "5 (6) nodes; text of symbolic printable characters; spans styled by one or two classes of the document; chains DFXP-DFXP, SAMI-SAMI, "
          "DFXP-SAMI and SAMI-DFXP, WebVTT; every sequence of up to 5 (6) tags read by the DFXP and SAMI readers; every sequence of "
          "up to 4 (5) caption commands read by the SCC reader in pop-on, roll-up and paint-on mode")
OUTSIDE = ("nested spans given to the writers (DFXP: C07); spans over nodes of several layouts; italics of a whole caption's style; "
           "colours and fonts; SAMI classes (its reader keeps one class per span)")
ASSUMPTIONS = ["white space carries no style"]
REACH = ["adjacent", "empty-span", "across-break", "line-start", "bold-only", "split", "class", "scc-italics", "scc-many", "nested-read",
         "unclosed"]

T, BR, ST = CaptionNode.create_text, CaptionNode.create_break, CaptionNode.create_style
NAMES = ("italics", "bold", "underline")
KINDS = [{"italics": True}, {"bold": True}, {"underline": True}, {"italics": True, "bold": True}, {"bold": True, "underline": True},
         {"italics": True, "underline": True}, {"italics": True, "bold": True, "underline": True}]


def flags_of(style, styles=None, depth=0):
    out = set()
    if styles:
        for c in style.get("classes") or ([style["class"]] if "class" in style else []):
            for k, v in styles:
                if k == c and depth < 4:
                    out |= flags_of(v, styles, depth + 1)
    for n in NAMES:
        if n in style:
            out.discard(n)
            if style[n]:
                out.add(n)
    return out


def flags(t, caps, styles=None, label="balanced style nodes"):
    """[(visible char, flags)] of the captions; checks that the style nodes are balanced"""
    out = []
    for c in caps:
        stack = []
        for n in c.nodes:
            if n.type_ == CaptionNode.STYLE:
                if n.start:
                    stack.append(n.content)
                elif not stack:
                    t.check(label, False, detail=lambda: repr(c.nodes))
                else:
                    x = stack.pop()
                    t.check(label, {k: v for k, v in x.items()} == {k: v for k, v in n.content.items()}, detail=lambda: repr(c.nodes))
            elif n.type_ == CaptionNode.TEXT:
                f = frozenset()
                for s in stack:
                    f = f | flags_of(s, styles)
                for ch in n.content:
                    if not ch.isspace():
                        out.append((ch, f))
        t.check(label, not stack, detail=lambda: repr(c.nodes))
    return out


def only(fl, keep):
    return [(c, f & frozenset(keep)) for c, f in fl]


def same(t, label, got, want, keep=NAMES):
    g, w = only(got, keep), only(want, keep)
    t.check(label + ": the same characters", t.all([len(g) == len(w)] + [x[0] == y[0] for x, y in zip(g, w)]), detail=lambda: [g, w])
    t.check(label + ": the same marks", len(g) == len(w) and all([x[1] == y[1] for x, y in zip(g, w)]),
            detail=lambda: [[(a, sorted(b)) for a, b in g], [(a, sorted(b)) for a, b in w]])


# ---- outputs by independent parsers

def dfxp_marks(t, doc):
    try:
        d = ttml.parse(doc)
    except Exception as e:
        t.fail("DFXP: malformed markup", [str(e), doc])
        return []
    return [(ch, f) for _, cues, _ in d.divs for c in cues for l in c.chars for ch, f, _ in l if not ch.isspace()]


def sami_marks(t, doc):
    d = samip.parse(doc)
    out = []
    for _, ps in d.syncs:
        for p in ps:
            t.check("SAMI: balanced markup", p.balanced and not getattr(p, "unknown", False), detail=lambda: doc)
            out += [(ch, f) for l in p.lines for ch, f in l if not ch.isspace()]
    return out


MARK = {"i": "italics", "b": "bold", "u": "underline"}


def vtt_marks(t, doc):
    out = []
    for c in vttp.parse(doc):
        t.check("WebVTT: balanced markup", c.balanced and not c.unknown, detail=lambda: doc)
        out += [(ch, frozenset([MARK[x] for x in f])) for l in c.chars for ch, f in l if not ch.isspace()]
    return out


WRITE = {"dfxp": lambda cs: DFXPWriter(relativize=False, fit_to_screen=False).write(cs),
         "dfxp-inline": lambda cs: DFXPWriter(relativize=False, fit_to_screen=False, write_inline_positioning=True).write(cs),
         "dfxp-single": lambda cs: SinglePositioningDFXPWriter().write(cs),
         "dfxp-legacy": lambda cs: LegacyDFXPWriter().write(cs),
         "sami": lambda cs: SAMIWriter(relativize=False, fit_to_screen=False).write(cs),
         "vtt": lambda cs: WebVTTWriter(relativize=False, fit_to_screen=False).write(cs)}
PARSE = {"dfxp": dfxp_marks, "sami": sami_marks, "vtt": vtt_marks}
READ = {"dfxp": DFXPReader, "sami": SAMIReader}
KEEP = {"dfxp": ("italics",), "sami": NAMES, "vtt": NAMES}


def judge(t, cs, want, chains, styles=None):
    """write, look at the output, read it, and again for each link of a chain"""
    for chain in chains:
        cur, w, st, keep = cs, want, styles, set(NAMES)
        for k, fmt in enumerate(chain):
            base = fmt.split("-")[0]
            doc = WRITE[fmt](cur)
            keep = keep & set(KEEP[base])
            label = "->".join(chain[:k + 1])
            same(t, label + " output", PARSE[base](t, doc), w, keep)
            if base == "vtt" or fmt == "dfxp-legacy":
                break
            cur = READ[base]().read(doc)
            lang = cur.get_languages()[0]
            same(t, label + " re-read", flags(t, cur.get_captions(lang), cur.get_styles()), w, keep)


CHAINS = [("dfxp", "dfxp"), ("sami", "sami"), ("dfxp", "sami"), ("sami", "dfxp"), ("vtt",), ("dfxp-legacy",), ("dfxp-single",)]
TEXTS = ["a", " b", "c ", "d e", "<f"]


def build(nodes, styles=None, layout=None):
    return CaptionSet({"en": CaptionList([Caption(1000000, 2000000, nodes, style={}, layout_info=layout),
                                          Caption(2000000, 3000000, [T("zz")], style={})])}, styles=styles or {})


def flat(t, n, kinds, lay=None, text=None):
    """a flat sequence of n nodes"""
    nodes, cur = [], None
    for k in range(n):
        left = n - k
        opts = ["text", "break"] if left > (cur is not None) else []
        if cur is None and left >= 2:
            opts += list(range(len(kinds)))
        if cur is not None:
            opts.append("close")
        o = opts[t.choice(f"o{k}", len(opts))]
        prev = nodes[-1] if nodes else None
        if o == "text":
            l = cur[1] if cur else (lay(k) if lay else None)
            nodes.append(T(text(k) if text else TEXTS[k % len(TEXTS)], layout_info=l))
        elif o == "break":
            if cur:
                t.reach("across-break")
            nodes.append(BR(layout_info=cur[1] if cur else None))
        elif o == "close":
            if prev.type_ == CaptionNode.STYLE:
                t.reach("empty-span")
            nodes.append(ST(False, dict(cur[0]), layout_info=cur[1]))
            cur = None
        else:
            if prev is not None and prev.type_ == CaptionNode.STYLE:
                t.reach("adjacent")
            if prev is None or prev.type_ == CaptionNode.BREAK:
                t.reach("line-start")
            if kinds[o] == {"bold": True}:
                t.reach("bold-only")
            cur = (kinds[o], lay(k) if lay else None)
            nodes.append(ST(True, dict(cur[0]), layout_info=cur[1]))
    return nodes


def visible(nodes):
    return any([n.type_ == CaptionNode.TEXT for n in nodes])


def sequences(n, kinds, chains):
    def fn(t):
        nodes = flat(t, n, kinds)
        t.assume(visible(nodes))
        cs = build(nodes)
        want = flags(t, cs.get_captions("en"))
        judge(t, cs, want, chains)
    return fn


def with_layouts(n, kinds, chains):
    def fn(t):
        A, B = (Layout(origin=Point(Size(t.int(k, 10, 12), UnitEnum.PERCENT), Size(50, UnitEnum.PERCENT))) for k in "AB")
        pool = [None, A, B]
        lay = lambda k: pool[t.choice(f"L{k}", 3)]      # noqa: E731
        nodes = flat(t, n, kinds, lay)
        t.assume(visible(nodes))
        if A != B:
            t.reach("split")
        cs = build(nodes, layout=pool[t.choice("cap", 2)])
        judge(t, cs, flags(t, cs.get_captions("en")), chains)
    return fn


def symbolic_text(chain, k):
    """symbolic characters in and around a span"""
    def fn(t):
        b = t.text("b", k, CS("printable"))
        a, c = (t.text(x, 1, CS("= a<")) for x in "ac")
        kind = KINDS[t.choice("kind", 2) * 6]
        shape = t.choice("shape", 3)
        on, off = ST(True, dict(kind)), ST(False, dict(kind))
        nodes = [[T(a), on, T(b), off, T(c)], [on, T(a), BR(), T(b), off, BR(), T(c)], [T(a), BR(), on, T(b), off, T(c)]][shape]
        cs = build(nodes)
        judge(t, cs, flags(t, cs.get_captions("en")), [chain])
    return fn


def classes(t):
    """marks by document styles: one class, two classes, a class of a class, an undefined class, overridden"""
    styles = {"it": {"italics": True, "color": "red"}, "bo": {"bold": True, "italics": False}, "of": {"classes": ["it"], "class": "it", "bold": True},
              "no": {"color": "blue"}}
    node = t.pick("node", [{"class": "it"}, {"classes": ["it"], "class": "it"}, {"classes": ["no", "it"], "class": "no it"},
                           {"classes": ["it", "no"], "class": "it no"}, {"class": "of"}, {"classes": ["nope", "it"], "class": "nope it"},
                           {"class": "no", "italics": True}, {"class": "nope", "italics": True}, {"class": "no"}, {"italics": False},
                           {"italics": False, "bold": True}, {"class": "nope"}])
    pre = t.flag("pre")
    t.reach("class")
    nodes = ([T("a")] if pre else []) + [ST(True, dict(node)), T("b"), BR(), T("c"), ST(False, dict(node)), T("d")]
    cs = build(nodes, {k: dict(v) for k, v in styles.items()})
    st = cs.get_styles()
    for fmt in ("vtt", "dfxp", "dfxp-single"):
        base = fmt.split("-")[0]
        doc = WRITE[fmt](cs)
        want = flags(t, cs.get_captions("en"), st)
        same(t, fmt + " output", PARSE[base](t, doc), want, KEEP[base])
        if base == "dfxp":
            back = DFXPReader().read(doc)
            same(t, fmt + " re-read", flags(t, back.get_captions("en"), back.get_styles()), want, KEEP[base])
            same(t, fmt + " written again", dfxp_marks(t, WRITE[fmt](back)), want, KEEP[base])
            same(t, fmt + " as WebVTT", vtt_marks(t, WRITE["vtt"](back)), want, KEEP[base])


def quotes(k):
    return lambda t: _quotes(t, k)


def _quotes(t, k):
    """other style values next to the marks do not break the markup"""
    v = t.text("v", k, CS("printable"))
    key = t.pick("key", ["font-family", "color", "class", "text-align"])
    node = {"italics": True, key: v}
    cs = build([T("a"), ST(True, dict(node)), T("b"), ST(False, dict(node)), T("c")])
    want = flags(t, cs.get_captions("en"))
    for fmt in ("sami", "dfxp", "dfxp-legacy", "vtt"):
        base = fmt.split("-")[0]
        if not (base == "sami" and t.any([c == x for c in v for x in ";:"])):
            same(t, fmt + " output", PARSE[base](t, WRITE[fmt](cs)), want, KEEP[base])


# ---- readers

D_OPEN = ['<span tts:fontStyle="italic">', '<span tts:fontWeight="bold">', '<span tts:color="red">', '<span>',
          '<span tts:textDecoration="underline" tts:fontStyle="italic">', '<span style="it">']


def read_dfxp(n, opens):
    """every nesting of spans: balanced nodes, the marks of the document; written again with the same marks if flat"""
    def fn(t):
        out, depth, deepest = [], 0, 0
        for k in range(n):
            left = n - k
            opts = (["x", "<br/>"] if left > depth else []) + (list(range(opens)) if left > depth + 1 else []) + (["</span>"] if depth else [])
            o = opts[t.choice(f"o{k}", len(opts))]
            if o == "x":
                out.append("pqrstuvw"[k])
            elif o == "<br/>":
                out.append(o)
            elif o == "</span>":
                out.append(o)
                depth -= 1
            else:
                out.append(D_OPEN[o])
                depth += 1
                deepest = max(deepest, depth)
        body = "".join(out)
        t.assume(any([len(x) == 1 for x in out]))
        doc = ('<tt xml:lang="en" xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"><head><styling>'
               '<style xml:id="it" tts:fontStyle="italic"/></styling></head><body><div>'
               f'<p begin="00:00:01.000" end="00:00:02.000">{body}</p></div></body></tt>')
        cs = DFXPReader().read(doc)
        want = dfxp_marks(t, doc)
        same(t, "DFXP read", flags(t, cs.get_captions("en"), cs.get_styles()), want)
        if deepest > 1:
            t.reach("nested-read")
        else:
            same(t, "DFXP rewritten", dfxp_marks(t, WRITE["dfxp"](cs)), want, ("italics",))
            same(t, "DFXP to WebVTT", vtt_marks(t, WRITE["vtt"](cs)), want)
    return fn


S_TAGS = ["x", "<br>", "<i>", "</i>", "<b>", "</b>", '<span style="font-style:italic">', "</span>", "<u>", "<i/>", "<div>"]


def read_sami(n, tags):
    """any sequence of tags, closed or not: balanced nodes; well nested documents: the marks of the document"""
    def fn(t):
        out = [S_TAGS[t.choice(f"o{k}", tags)] for k in range(n)]
        out = [x if x != "x" else "pqrstuvw"[k] for k, x in enumerate(out)]
        body = "".join(out)
        doc = ('<SAMI><HEAD><STYLE TYPE="text/css"><!--\n.ENCC {lang: en-US; Name: English}\n--></STYLE></HEAD><BODY>'
               f'<SYNC start="1000"><P class="ENCC">o{body}</P></SYNC><SYNC start="2000"><P class="ENCC">zz</P></SYNC></BODY></SAMI>')
        cs = SAMIReader().read(doc)
        caps = cs.get_captions("en-US")
        got = flags(t, caps, cs.get_styles())
        depth, names, ok = 0, [], "<i/>" not in body and "<div>" not in body
        for x in out:
            if x.startswith("</"):
                if names and names[-1] == x[2:-1]:
                    names.pop()
                else:
                    ok = False
            elif x.startswith("<") and x != "<br>":
                nm = x[1:-1].split(" ")[0]
                if nm in names:
                    ok = False      # the same tag within itself closes the outer one
                names.append(nm)
        if names or not ok:
            t.reach("unclosed")
            return
        want = sami_marks(t, doc)
        same(t, "SAMI read", got, want)
    return fn


# ---- SCC

CODES = {"pac": "9140", "pac-i": "91ce", "mid-i": "91ae", "mid": "9120", "ab": "6162", "c.": "e3ae", "bs": "94a1", "tab": "97a1",
         "pac2": "94d0", "pac2-i": "944f", "und": "91a1", "uni": "912f", "spc": "9137", "sp": "2020"}
ORDER = ["mid-i", "ab", "mid", "pac-i", "pac2", "uni", "tab", "bs", "pac2-i", "c.", "spc", "sp"]
START = {"pop": "94ae 9420 ", "paint": "9429 ", "roll": "9425 94ad "}
END = {"pop": "942f", "paint": "942c", "roll": "94ad"}


def read_scc(mode, n, codes):
    def fn(t):
        seq = [ORDER[t.choice(f"o{k}", codes)] for k in range(n)]
        cmds = ["9140"] + [CODES[x] for x in seq]
        nxt = ORDER[t.choice("next", 3)]
        doc = ("Scenarist_SCC V1.0\n\n00:00:01:00\t" + START[mode] + " ".join(cmds) + " " + END[mode] + "\n\n"
               "00:00:04:00\t" + START[mode] + CODES[nxt] + " 6364 " + END[mode] + "\n\n00:00:08:00\t942c\n")
        try:
            cs = SCCReader().read(doc)
        except CaptionReadNoCaptions:
            return
        caps = cs.get_captions("en-US")
        if len(caps) > 1:
            t.reach("scc-many")
        got = flags(t, caps)
        if any([f for _, f in got]):
            t.reach("scc-italics")
        for c in caps:
            depth = 0
            for x in c.nodes:
                if x.type_ == CaptionNode.STYLE:
                    depth += 1 if x.start else -1
                    t.check("italics do not nest", depth in (0, 1), detail=lambda: repr(c.nodes))
        for fmt in ("dfxp", "sami", "vtt"):
            same(t, fmt + " output", PARSE[fmt](t, WRITE[fmt](cs)), got, ("italics",))
    return fn


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn):
        out.append((f"{name} {tier}", fn))
    add("classes", classes)
    for k in (1, 2) if thorough else (1,):
        add(f"quotes {k}", quotes(k))
    two = [KINDS[0], KINDS[4]]
    for ch in CHAINS:
        nm = "-".join(ch)
        for n in range(1, 8 if thorough else 6):
            add(f"flat {n} {nm}", sequences(n, two, [ch]))
        add(f"kinds {nm}", sequences(5 if thorough else 4, KINDS, [ch]))
        add(f"chars {nm}", symbolic_text(ch, 2 if thorough else 1))
    for ch in CHAINS + [("dfxp-inline",)]:
        if ch != ("dfxp-single",):
            add(f"layouts {'-'.join(ch)}", with_layouts(5 if thorough else 4 if len(ch) == 2 and ch[0] == ch[1] else 3, [KINDS[0], KINDS[1]] if thorough else [KINDS[0]], [ch]))
    for n in range(1, 7 if thorough else 6):
        add(f"read dfxp {n}", read_dfxp(n, 6 if n < 5 else 3))
    for n in range(1, 6 if thorough else 5):
        add(f"read sami {n}", read_sami(n, len(S_TAGS) if n < 4 else 8 if thorough else 6))
    for mode in START:
        for n in range(1, 5 if thorough else 4):
            add(f"scc {mode} {n}", read_scc(mode, n, len(ORDER) if n < 3 or thorough and n < 4 else 7))
    return out
