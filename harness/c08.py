"""C08: any chain of conversions preserves the cue timeline and text."""
from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, MicroDVDReader, MicroDVDWriter, SAMIReader, SAMIWriter, SRTReader, SRTWriter,
                       WebVTTReader, WebVTTWriter)
from pycaption.geometry import (Alignment, HorizontalAlignmentEnum, Layout, Padding, Point, Size, Stretch, UnitEnum, VerticalAlignmentEnum)
from harness.common import mk, node_text
from refs.common import norm_line
from sx.charsets import CS

BOUNDS = ("all 25 pairs of formats and (thorough) all 125 chains of three, each run twice; one and two cues with symbolic times over the day "
          "(every digit count), touching and apart; one and two symbolic printable characters in 20 (thorough 30) surroundings that look like "
          "markup, entities, timing lines or delimiters; every sequence of up to 4 (5) text, break and style nodes; two and three languages "
          "through DFXP and SAMI; positions of four kinds at caption, node and language level with symbolic coordinates; five chains of four to "
          "six formats")
OUTSIDE = ("cues that truncation to the coarsest resolution of the chain makes empty; '|' and control codes through MicroDVD; SAMI in the "
           "last five seconds of the day; texts of the known findings of C03 and C04; other chains of more than three formats")
ASSUMPTIONS = ["SRT, WebVTT and MicroDVD carry one language"]
REACH = ["twice", "touching", "apart", "languages", "styled", "frames", "sami-end", "placed"]
FORMATS = ["srt", "vtt", "dfxp", "sami", "mdv"]
W = {"srt": SRTWriter, "vtt": WebVTTWriter, "dfxp": DFXPWriter, "sami": SAMIWriter, "mdv": MicroDVDWriter}
R = {"srt": SRTReader, "vtt": WebVTTReader, "dfxp": DFXPReader, "sami": SAMIReader, "mdv": MicroDVDReader}
T, BR, ST = CaptionNode.create_text, CaptionNode.create_break, CaptionNode.create_style
P = UnitEnum.PERCENT


class At:
    """an instant as whole frames of 40 ms, milliseconds within the frame, and microseconds within the millisecond: what each format keeps of it
    is a linear expression of the same symbols"""
    def __init__(self, f, m, r):
        self.f, self.m, self.r = f, m, r
        self.us = f * 40000 + m * 1000 + r

    def kept(self, fmt):
        return At(self.f, 0, 0) if fmt == "mdv" else At(self.f, self.m, 0)

    def plus4s(self):
        return At(self.f + 100, self.m, self.r)


def at(us):
    return At(us // 40000, us % 40000 // 1000, us % 1000)


def timeline(cs):
    return {l: [[c.start, c.end, norm_line(node_text(c.nodes))] for c in cs.get_captions(l)] for l in cs.get_languages()}


def same(t, what, cs, want, doc):
    """cs against the expected timeline {language: [[At, At or None, text]]}; once they agree, the times of cs are written as the expected
    expressions (equal by the check just made), and ends the format leaves open as what the reader made of them"""
    langs = list(cs.get_languages())
    if len(want) == 1:
        t.check(f"{what}: one language", len(langs) == 1)
        pairs = list(zip(langs, want))[:1]
    else:
        t.check(f"{what}: the languages", sorted(langs) == sorted(want), detail=lambda: [langs, sorted(want), doc])
        pairs = [(l, l) for l in want]
    for l, wl in pairs:
        got, w = cs.get_captions(l), want[wl]
        t.check(f"{what}: the cues", len(got) == len(w), detail=lambda: [timeline(cs), doc])
        for c, x in zip(got, w):
            s = norm_line(node_text(c.nodes))
            t.check(f"{what}: the text", len(s) == len(x[2]) and s == x[2], detail=lambda: [s, x[2], doc])
            t.check(f"{what}: the start", c.start == x[0].us, detail=lambda: [c.start, x[0].us, doc])
            c.start = x[0].us
            if x[1] is None:
                x[1] = x[0].plus4s()
                t.check(f"{what}: an open end is later than the start", c.end > x[0].us, detail=lambda: [c.start, c.end, doc])
                if not c.end == x[1].us:
                    x[1] = at(c.end)
            else:
                t.check(f"{what}: the end", c.end == x[1].us, detail=lambda: [c.end, x[1].us, doc])
            c.end = x[1].us


def run_chain(t, cs, chain, want):
    for n in ("", "second pass: "):
        first = {l: [list(x) for x in v] for l, v in want.items()}
        for k, f in enumerate(chain):
            doc = W[f]().write(cs)
            cs = R[f]().read(doc)
            if f == "mdv":
                t.reach("frames")
            want = {l: [[s.kept(f), e.kept(f), x] for s, e, x in v] for l, v in want.items()}
            if f == "sami":
                t.reach("sami-end")
                for v in want.values():
                    v[-1][1] = None
            same(t, f"{n}{'->'.join(chain[:k + 1])}", cs, want, doc)
        if n:
            t.reach("twice")
            for l in want:
                for x, y in zip(want[l], first[l]):
                    t.check(f"the second pass changes nothing: {'->'.join(chain)}", t.all([x[0].us == y[0].us, x[1].us == y[1].us]),
                            detail=lambda: [x[0].us, x[1].us, y[0].us, y[1].us, doc])


def sized(t, name, size, frames):
    """an instant whose hours have the given number of digits, whose milliseconds and frames have a fixed number of digits"""
    lo, hi = {0: (0, 24), 1: (250, 999), 2: (1000, 2499), 3: (2500, 9999), 4: (10000, 24999), 5: (25000, 99999), 6: (100000, 249999),
              7: (250000, 999999), 8: (1000000, 2159800)}[size]
    return At(t.int(name, lo, hi), t.int(name + "m", 0, 39), t.int(name + "r", 0, 999)) if frames else \
        At(0, t.int(name, lo * 40, hi * 40 + 39), t.int(name + "r", 0, 999))


def times(chain, n, sizes):
    frames = "mdv" in chain

    def before(a, b):
        return a.f < b.f if frames else a.m < b.m

    def fn(t):
        d = sizes[t.choice("size", len(sizes))] if len(sizes) > 1 else sizes[0]
        tm = []
        for k in range(n):
            s = sized(t, f"s{k}", d, frames)
            if tm:
                if t.flag(f"touch{k}"):
                    t.reach("touching")
                    s = tm[-1][1]
                else:
                    t.reach("apart")
                    t.assume(before(tm[-1][1], s))
            e = sized(t, f"e{k}", d, frames)
            t.assume(before(s, e))
            tm.append((s, e))
        run_chain(t, mk([(s.us, e.us, ["abc"[k] + "x"]) for k, (s, e) in enumerate(tm)]), chain,
                  {"en-US": [[s, e, "abc"[k] + "x"] for k, (s, e) in enumerate(tm)]})
    return fn


def run_plain(t, cs, chain):
    run_chain(t, cs, chain, {l: [[at(s), at(e), x] for s, e, x in v] for l, v in timeline(cs).items()})


AROUND = ["?", "a?b", "a ?", "? b", "&?;", "&l?;", "&lt?", "&am?;", "&#6?;", "<?", "<?>", "</?>", "<b?>x", "--?", "-?>", "a --> ?", "{?}x", "1?",
          "NOTE?", "00:00:01,000 --> 00:00:02,00?"]
MORE = ["&amp;?", "&#x?;", "<!--?-->", "]]?", "??", "a?\u00e9", "<v ?>x", "\\N?", "??x", "x  ?", "STYLE ?", "?\"'"]


def text(chain, templates):
    def fn(t):
        tpl = templates[t.choice("template", len(templates))]
        parts = tpl.split("?")
        cs = CS("printable", minus="|") if "mdv" in chain else CS("printable")
        s = parts[0]
        for k, p in enumerate(parts[1:]):
            s = s + t.char(f"c{k}", cs) + p
        t.assume(t.any([not c.isspace() for c in s]))
        run_plain(t, mk([(1000000, 2000000, ["first"]), (2000000, 3000000, [s]), (4000000, 5000000, ["z", s + " w"])]), chain)
    return fn


def nodes(chain, n, kinds):
    """text, breaks and styles in any order"""
    def fn(t):
        ns, on, texts = [], None, 0
        for k in range(t.choice("len", n) + 1):
            x = kinds[t.choice(f"k{k}", len(kinds))]
            if x == "text":
                t.assume(not ns or ns[-1].type_ != CaptionNode.TEXT)
                ns.append(T([" a ", "b", " c d ", " ", "e "][k % 5] if k else t.char("c", CS("=a<&")) + " "))
                texts += ns[-1].content != " "
            elif x == "break":
                ns.append(BR())
            elif on is None:
                on = {x: True}
                ns.append(ST(True, dict(on)))
                t.reach("styled")
            else:
                ns.append(ST(False, dict(on)))
                on = None
        if on:
            ns.append(ST(False, dict(on)))
        t.assume(texts > 0)
        run_plain(t, mk([(1000000, 2000000, ["first"]), (2000000, 3000000, ns), (4000000, 5000000, ["last"])]), chain)
    return fn


LANGS = [["en-US", "fr-FR"], ["fr-FR", "en-US"], ["en", "de"], ["en-US", "fr-FR", "de-DE"], ["es"]]


def languages(chain):
    def fn(t):
        ls = LANGS[t.choice("langs", len(LANGS))]
        t.reach("languages")
        off = t.int("off", 0, 2) * 500000
        caps = {}
        for k, l in enumerate(ls):
            b = 10000000 + k * off
            caps[l] = [(b, b + 500000, ["abc"[k] + t.char(f"c{k}", CS("=x<"))]), (b + 1000000 + (k % 2) * 500000, b + 2000000, ["second", "line"])]
        run_plain(t, mk(caps), chain)
    return fn


LONG = [("srt", "vtt", "dfxp", "sami", "mdv"), ("sami", "dfxp", "vtt", "srt"), ("mdv", "sami", "vtt", "dfxp", "srt"), ("vtt", "sami", "dfxp", "vtt"),
        ("dfxp", "mdv", "dfxp", "sami", "srt", "vtt")]


def long_chain(chains):
    def fn(t):
        chain = t.pick("chain", chains)
        body = [T("a " + t.char("c", CS("=a<&-")) + " b"), BR(), ST(True, {"italics": True}), T(" c d "), ST(False, {"italics": True})]
        run_plain(t, mk([(1000000, 2000000, ["first"]), (2000000, 3000000, body), (4000000, 5000000, ["z"])]), chain)
    return fn


def placed(chain):
    """captions with a position: by caption, by node, by caption and language"""
    def fn(t):
        n = t.int("x", 10, 20)
        lay = [None, Layout(origin=Point(Size(n, P), Size(15, P))), Layout(alignment=Alignment(HorizontalAlignmentEnum.RIGHT, VerticalAlignmentEnum.TOP)),
               Layout(origin=Point(Size(n, P), Size(60, P)), extent=Stretch(Size(30, P), Size(20, P)),
                      padding=Padding(Size(1, P), Size(2, P), Size(3, P), Size(4, P)),
                      alignment=Alignment(HorizontalAlignmentEnum.LEFT, VerticalAlignmentEnum.BOTTOM))]
        a, b = lay[t.choice("first", len(lay))], lay[t.choice("second", len(lay))]
        where = t.choice("where", 3)
        caps = []
        for k, (x, words) in enumerate([(a, "one two"), (b, "three")]):
            nl = x if where != 1 else None
            ns = [T(words, layout_info=nl), BR(layout_info=nl), T("end", layout_info=nl)]
            caps.append(Caption(1000000 + 2000000 * k, 2000000 + 2000000 * k, ns, layout_info=x if where != 0 else None))
        t.reach("placed")
        run_plain(t, CaptionSet({"en-US": CaptionList(caps, layout_info=a if where == 2 else None)}), chain)
    return fn


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn):
        out.append((f"{name} {tier}", fn))
    pairs = [(a, b) for a in FORMATS for b in FORMATS]
    for p in pairs:
        nm = "-".join(p)
        add(f"times 1 {nm}", times(p, 1, [2, 8] if not thorough else list(range(1, 9))))
        add(f"times 2 {nm}", times(p, 2, [4] if not thorough else [2, 4, 6, 8]))
        add(f"text {nm}", text(p, AROUND + MORE if thorough else AROUND))
        add(f"nodes {nm}", nodes(p, 5 if thorough else 3, ["text", "break", "italics"]))
        add(f"placed {nm}", placed(p))
        if not {"srt", "vtt", "mdv"} & set(p):
            add(f"languages {nm}", languages(p))
    for k, c in enumerate(LONG):
        add(f"long chain {k}", long_chain([c]))
    if thorough:
        for a, b in pairs:
            for c in FORMATS:
                p = (a, b, c)
                add(f"times 2 {'-'.join(p)}", times(p, 2, [6]))
                add(f"text {'-'.join(p)}", text(p, AROUND[:12]))
    return out
