"""C03: written text survives a conformant parser (escaping and cue structure)."""
from pycaption import CaptionNode
from harness.common import WRITERS, mk, writer
from refs import samip, srtp, ttml, vttp
from refs.common import FormatError
from refs.xmlp import XMLError
from sx.charsets import CS, PRINTABLE

BOUNDS = ("one cue between two plain cues; its text: (a) one line of up to 3 (thorough 4) arbitrary printable characters, (b) 60 "
          "adversarial templates (entities, tags, arrows, comments, CDATA ends, timing lines, delimiters) with 1-2 arbitrary "
          "printable characters spliced in, (c) every sequence of up to 5 (thorough 6) text/break nodes, each text one or two "
          "arbitrary printable characters, (d) every sequence of up to 4 (thorough 5) nodes of text, break, style-on, style-off")
OUTSIDE = ("lines longer than the templates; text nodes holding control characters or line separators (not printable); '|' in MicroDVD; "
           "MicroDVD control codes such as {y:i} (the format has no escape for them)")
REACH = WRITERS + ["amp", "lt", "gt", "plain", "space"]

NOPIPE = CS("printable", minus="|")
SEC = 1000000


def read(name, doc):
    """-> [(start, end, stripped non-empty lines)]"""
    if name == "srt":
        cues = srtp.parse(doc)
    elif name == "webvtt":
        cues = vttp.parse(doc)
    elif name == "microdvd":
        cues = srtp.parse_microdvd(doc)
        for c in cues:
            c.start, c.end = c.start * 40000, c.end * 40000
    elif name == "sami":
        cues = samip.cues(samip.parse(doc), "en-us")
        if not cues:
            cues = samip.cues(samip.parse(doc), "en-US")
    else:
        divs = ttml.parse(doc).divs
        if len(divs) != 1:
            raise FormatError("one div expected")
        cues = divs[0][1]
    return [(c.start, c.end, strip(c.lines)) for c in cues]


def strip(lines):
    r = []
    for l in lines:
        x = l.strip()
        if x != "":
            r.append(x)
    return r


def squeeze(s):
    return "".join([c for c in s if not c.isspace()])


def judge(t, name, nodes, lines, loose=False):
    """nodes: the middle caption; lines: its display lines"""
    want = strip(lines)
    t.assume(len(want) > 0)
    caps = [(SEC, 2 * SEC, ["first"]), (2 * SEC, 3 * SEC, nodes), (4 * SEC, 5 * SEC, ["last"])]
    doc = writer(name).write(mk(caps))
    t.observe("doc", doc)
    try:
        got = read(name, doc)
    except (FormatError, XMLError) as e:
        t.fail(f"{name}: the document parses", str(e))
        return
    exp = [(SEC, 2 * SEC, ["first"]), (2 * SEC, 3 * SEC, want), (4 * SEC, 5 * SEC, ["last"])]
    t.check(f"{name}: number of cues", len(got) == 3, detail=str(len(got)))
    if len(got) != 3:
        return
    for i in range(3):
        t.check_eq(f"{name}: start of cue {i}", got[i][0], exp[i][0])
        if not (name == "sami" and i == 2):
            t.check_eq(f"{name}: end of cue {i}", got[i][1], exp[i][1])
        g, w = got[i][2], exp[i][2]
        if loose and i == 1:
            g, w = [squeeze(x) for x in g], [squeeze(x) for x in w]
        t.check(f"{name}: number of lines of cue {i}", len(g) == len(w))
        if len(g) == len(w):
            for a, b in zip(g, w):
                t.check_eq(f"{name}: line of cue {i}", a, b)
    t.reach(name)


def cs(name):
    return NOPIPE if name == "microdvd" else PRINTABLE


def feel(t, c):
    if c == "&":
        t.reach("amp")
    elif c == "<":
        t.reach("lt")
    elif c == ">":
        t.reach("gt")
    elif c == " ":
        t.reach("space")
    else:
        t.reach("plain")


def line(name, n):
    def run(t):
        s = t.text("s", n, cs(name))
        judge(t, name, [CaptionNode.create_text(s)], [s])
        feel(t, s[0])
    return run


TEMPLATES = [
    "&?", "&?;", "&?t;", "&l?;", "&lt?", "&am?;", "&amp?", "&amp;?", "&#?;", "&#x?;", "&#6?;", "&#x4?;", "&nbs?;", "&quo?;",
    "<?", "<?>", "</?>", "<?/>", "<b?>x", "<br?>", "<br/?", "</p?>", "<p?>", "</span?", "<!--?-->", "<!-?->", "<![CDATA[?]]>",
    "]]?", "]]>?", "??>", "<?xml ??>", "<i>?</i>", "<c.?>", "<00:00:?>", "<v ?>",
    "--?", "-?>", "?-->", "--?>", "a --> ?", "-->?", "00:00:01.000 --> 00:00:0?.000", "00:00:01,000 --> 00:00:02,00?",
    "WEBVTT?", "NOTE?", "STYLE?", "?\"?", "'?\"", "{1}{2?", "{?}{?}", "{y:i?", "//?", "\\N?", "1?", "2?", "{\\an?}", "MULTI-LANGUAGE SRT?",
    ";>?", "?;>", "<i/>?", "no closed captioning?", "<html?", "%?", "a  ?", "?  b", "\u00e9?\U0001F600",
]


def template(name, group, ngroups):
    def run(t):
        tm = t.pick("template", TEMPLATES[group::ngroups])
        parts = tm.split("?")
        s = parts[0]
        for i, p in enumerate(parts[1:]):
            s = s + t.char(f"c{i}", cs(name)) + p
        if name == "microdvd":
            t.assume("|" not in s)
        judge(t, name, [CaptionNode.create_text(s)], [s])
    return run


def structure(name, n):
    """Every sequence of up to n text/break nodes (at least one text, texts never adjacent)."""
    def run(t):
        nodes, lines = [], [""]
        last = None
        k = t.choice("len", n) + 1
        texts = 0
        for i in range(k):
            kind = "break" if last == "text" else t.pick("kind", ["text", "break"])
            if kind == "text":
                if texts == 0:
                    s = "x" + t.char(f"c{i}", cs(name))
                elif texts == 1:
                    s = t.char(f"c{i}", cs(name))
                else:
                    s = t.pick("fixed", ["&", " ", "3"])
                texts += 1
                nodes.append(CaptionNode.create_text(s))
                lines[-1] = lines[-1] + s
            else:
                nodes.append(CaptionNode.create_break())
                lines.append("")
            last = kind
        t.assume(texts > 0)
        judge(t, name, nodes, lines)
    return run


def mixed(name, n):
    """Adjacent text nodes and style nodes inside a line."""
    def run(t):
        nodes, lines = [], [""]
        texts = 0
        spans = False
        on = None
        k = t.choice("len", n - 1) + 2
        for i in range(k):
            kind = t.pick("kind", ["text", "break", "style"])
            if kind == "text":
                s = t.pick("txt", ["--", ">", "a b"], more=["&", "lt;", "<"]) if texts else t.char("c", cs(name))
                texts += 1
                nodes.append(CaptionNode.create_text(s))
                lines[-1] = lines[-1] + s
            elif kind == "break":
                nodes.append(CaptionNode.create_break())
                lines.append("")
            else:
                spans = True
                if on is None:
                    on = t.pick("style", ["italics", "bold"], more=["underline"])
                    nodes.append(CaptionNode.create_style(True, {on: True}))
                else:
                    nodes.append(CaptionNode.create_style(False, {on: True}))
                    on = None
        t.assume(texts > 0)
        if on is not None:
            nodes.append(CaptionNode.create_style(False, {on: True}))
        judge(t, name, nodes, lines, loose=True)
    return run


def two_nodes(name):
    """A line made of two text nodes whose meeting point could read as markup."""
    def run(t):
        a = t.char("a", cs(name))
        b = t.char("b", cs(name))
        pre, post = t.pick("pair", [("", ""), ("-", ">"), ("&", ";"), ("&l", ";"), ("", "p>"), ("]", ">"), ("--", "")])
        judge(t, name, [CaptionNode.create_text(pre + a), CaptionNode.create_text(b + post)], [pre + a + b + post], loose=True)
    return run


def join(name):
    """Two text nodes make one word."""
    def run(t):
        c = t.char("c", CS("printable", minus="<>&-|] "))
        mid = t.pick("mid", ["none", "style", "after"])
        nodes = [CaptionNode.create_text("a" + c), CaptionNode.create_text("b")]
        if mid == "style":
            nodes[1:] = [CaptionNode.create_style(True, {"italics": True}), nodes[1],
                         CaptionNode.create_style(False, {"italics": True})]
        elif mid == "after":
            nodes = [CaptionNode.create_style(True, {"italics": True}), nodes[0],
                     CaptionNode.create_style(False, {"italics": True}), nodes[1]]
        doc = writer(name).write(mk([(SEC, 2 * SEC, nodes), (3 * SEC, 4 * SEC, ["last"])]))
        t.observe("doc", doc)
        got = read(name, doc)
        t.check_eq(f"{name}: characters", squeeze("".join(got[0][2])), "a" + c + "b")
        t.check_eq(f"{name}: adjacent text nodes", got[0][2], ["a" + c + "b"])
    return run


def two_caps(name):
    """Two captions with the same times: nothing may be lost, whether or not the writer merges them."""
    def run(t):
        a = t.char("a", cs(name))
        b = t.pick("b", ["b", "&"])
        t.assume(a != " ")
        la = t.pick("la", [[a], [a, ""], ["", a], [a, "", "x"]])
        lb = t.pick("lb", [[b], ["", b], [b, ""], ["y", "", b]])
        same = t.pick("times", ["same", "touching"])
        e = 3 * SEC
        caps = [(2 * SEC, e, la), (2 * SEC if same == "same" else e, e if same == "same" else e + SEC, lb), (4 * SEC + SEC, 6 * SEC, ["last"])]
        if name == "sami":
            t.assume(same != "same")
        doc = writer(name).write(mk(caps))
        t.observe("doc", doc)
        try:
            got = read(name, doc)
        except (FormatError, XMLError) as ex:
            t.fail(f"{name}: the document parses", str(ex))
            return
        flat = [l for c in got for l in c[2]]
        t.check_eq(f"{name}: lines of all cues", flat, strip(la) + strip(lb) + ["last"])
        mergeable = name in ("srt", "dfxp-legacy", "dfxp-single") and same == "same"
        t.check(f"{name}: cue count", len(got) == 3 or (mergeable and len(got) == 2))
    return run


def scenarios(tier):
    out = []
    deep = tier == "thorough"
    for w in WRITERS:
        for n in ((1, 2, 3, 4) if deep else (1, 3)):
            out.append((f"line{n}-{w}", line(w, n)))
        for g in range(2):
            out.append((f"template{g}-{w}", template(w, g, 2)))
        out.append((f"structure-{w}", structure(w, 6 if deep else 5)))
        out.append((f"mixed-{w}", mixed(w, 5 if deep else 3)))
        out.append((f"nodes-{w}", two_nodes(w)))
        out.append((f"pair-{w}", two_caps(w)))
        out.append((f"join-{w}", join(w)))
    return out
