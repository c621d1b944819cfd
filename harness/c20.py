"""C20: format detection is total, consistent and recognises pycaption's own output."""
import pycaption
from pycaption import (CaptionNode, CaptionReadNoCaptions, DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader,
                       WebVTTReader, detect_format)
from harness.common import mk, writer
from sx.charsets import ANY, CS, PRINTABLE, chars

BOUNDS = ("(a) every string of 1..3 (thorough 1..5) characters over all of Unicode up to U+1FFFF except surrogates, control and line-break "
          "characters included; (b) sequences of up to 4 (thorough 5) pieces out of every format's marker, near-miss markers, line "
          "breaks, '-->', digits and two arbitrary characters, and every subset of whole markers; (c) the output of every writer for one to two captions with times "
          "symbolic over the whole day (1 ms grid; MicroDVD on the frame grid, SCC four fixed starts) and text made of two arbitrary printable characters around marker-like fragments, "
          "for one and two languages, with and without positioning and styles")
OUTSIDE = ("strings longer than the bounds; surrogates and NUL; caption sets without visible text; SCC writing of captions that are "
           "less than four seconds apart (C17)")
REACH = ["none", "dfxp", "microdvd", "webvtt", "sami", "srt", "scc", "out-dfxp", "out-microdvd", "out-webvtt", "out-sami",
         "out-srt", "out-scc", "empty"]

ORDER = [("dfxp", DFXPReader), ("microdvd", MicroDVDReader), ("webvtt", WebVTTReader), ("sami", SAMIReader),
         ("srt", SRTReader), ("scc", SCCReader)]
BY_NAME = {"dfxp": DFXPReader, "dfxp-legacy": DFXPReader, "dfxp-single": DFXPReader, "microdvd": MicroDVDReader,
           "webvtt": WebVTTReader, "sami": SAMIReader, "srt": SRTReader, "scc": SCCReader}


def consistent(t, s):
    """detect_format(s) is the first reader in the documented order whose detect accepts s; nothing raises"""
    want = None
    for name, cls in ORDER:
        if cls().detect(s):
            want = (name, cls)
            break
    got = detect_format(s)
    t.observe("got", got.__name__ if got is not None else None)
    t.check("first accepting reader", got is (want[1] if want else None),
            detail=f"got {got}, expected {want}")
    t.reach(want[0] if want else "none")
    # the remaining readers' detect must be total as well
    for name, cls in ORDER:
        r = cls().detect(s)
        t.check(f"{name}.detect answers with a truth value", r is True or r is False, detail=repr(r))


def short(n):
    def run(t):
        consistent(t, t.text("s", n, ANY))
    return run


PIECES = ["</tt>", "{1}{2}", "WEBVTT", "<sami", "1", "\n", "-->", "Scenarist_SCC V1.0", "c"]
MORE = ["</TT>", "<SAMI", "webvtt", "{1}", "\r\n", "\u2028", "\u00b2", "00:00:01,000 --> 00:00:02,000", "\x0c"]


def pieces(n):
    def run(t):
        out = []
        for i in range(n):
            p = t.pick(f"p{i}", PIECES, MORE)
            out.append(t.char(f"c{i}", ANY) if p == "c" else p)
        consistent(t, "".join(out))
    return run


def marker(i):
    """one marker with one arbitrary character inserted, replaced or cut at any position"""
    marks = ["</tt>", "{1}{22}", "WEBVTT", "<sami>", "1\n00:00:01,000 --> 00:00:02,000", "Scenarist_SCC V1.0"]
    m = marks[i]

    def run(t):
        k = t.choice("at", len(m) + 1)
        kind = t.pick("kind", ["insert", "replace", "cut"])
        c = t.char("c", ANY)
        if kind == "insert":
            s = m[:k] + c + m[k:]
        elif kind == "replace":
            s = m[:k] + c + m[k + 1:]
        else:
            s = m[:k]
            t.assume(s != "")
        pre, post = t.pick("around", [("", ""), ("\n", ""), ("", "\nx")], [("x", "\n"), ("x", ""), ("", "\n"), ("\n", "\n")])
        s = pre + s + post
        consistent(t, s)
    return run


def mixed(t):
    """documents that several formats accept: every subset of whole markers, in both orders"""
    s = t.pick("head", ["", "{1}{22}", "1\n00:00:01,000 --> 00:00:02,000", "Scenarist_SCC V1.0"])
    c = t.char("c", ANY)
    tail = [m for m in ("</tt>", "WEBVTT", "<sami>") if t.flag(m)]
    if t.flag("reversed"):
        tail.reverse()
    consistent(t, s + c + "x\n".join(tail) + "z")


def empty(t):
    try:
        r = detect_format("")
    except CaptionReadNoCaptions:
        t.reach("empty")
        return
    t.fail("the empty string raises the no-captions error", repr(r))


# ---- output recognition ---------------------------------------------------

FRAG = ["", "12", "webvtt", "< sami>", "<tt>", "{1", "--> x", "}{2}", "Scenarist"]
FRAG_MORE = ["WEB VTT", "&lt;sami", "</t t>", "1\u2028-->", "{}{}"]
DISPLAY = {"microdvd": CS("printable", minus="|")}


def marker_free(t, s):
    low = s.lower()
    t.assume("</tt>" not in low)
    t.assume("<sami" not in low)
    t.assume("WEBVTT" not in s)


def judge_output(t, name, caps):
    out = writer(name).write(mk(caps))
    t.observe("out", out)
    got = detect_format(out)
    t.check(f"{name}: own output is recognised", got is BY_NAME[name], detail=lambda: repr(got))
    cset = BY_NAME[name]().read(out)
    langs = cset.get_languages()
    n = sum([len(cset.get_captions(l)) for l in langs])
    t.check(f"{name}: own output is read back", n == len(caps), detail=f"{n} captions of {len(caps)}")
    t.reach("out-" + name.split("-")[0])


def charset(name):
    if name == "scc":
        return chars("abzAZ019 ,.-")
    return DISPLAY.get(name, PRINTABLE)


def own(name):
    """two arbitrary characters"""
    def run(t):
        text = t.text("s", 2, charset(name))
        if t.flag("visible around"):
            text = "x" + text + "y"
        t.assume(text.strip() != "")
        judge_output(t, name, [(3000000, 6000000, [text])])
    return run


def frag(name):
    """marker-like fragments, one arbitrary character, one or two lines and captions"""
    def run(t):
        f = t.pick("frag", FRAG, FRAG_MORE) if name != "scc" else t.pick("frag", ["", "12", "Scenarist_SCC V1.0"])
        c = t.char("c", charset(name))
        text = c + f if t.flag("before") else f + c
        t.assume(text.strip() != "")
        marker_free(t, text)
        if name == "microdvd":
            t.assume("|" not in text)
        lines = [text]
        if t.flag("two lines"):
            lines.append("12")
        caps = [(3600000000, 3603000000, lines)]
        if t.flag("two captions"):
            caps.append((3609000000, 3612000000, ["second"]))
        judge_output(t, name, caps)
    return run


def timed(name):
    """symbolic times over the whole day"""
    unit = 1000 if name != "microdvd" else 40000

    def run(t):
        if name == "scc":
            start = t.pick("start", [3000000, 59999999, 3600000000, 86000000000])
        else:
            start = t.int("start", 0, (86400 * 1000000 - 20000000) // unit) * unit
        length = t.pick("length", [3000000, 40000, 1000000])
        if name == "scc":
            t.assume(length >= 1000000)
        judge_output(t, name, [(start, start + length, ["12"]), (start + 9000000, start + 12000000, ["12", "x"])])
    return run


def bilingual(name):
    def run(t):
        a = t.char("a", DISPLAY.get(name, PRINTABLE))
        ls = t.pick("langs", [("en-US", "fr-FR"), ("fr", "de"), ("zz", "aa")])
        start = t.int("start", 0, 80000) * 1000000
        d = {ls[0]: [(start, start + 2000000, ["x" + a + "y"])],
             ls[1]: [(start + t.pick("shift", [0, 1000000]), start + 4000000, ["z"])]}
        out = writer(name).write(mk(d))
        t.observe("out", out)
        got = detect_format(out)
        t.check(f"{name}: own bilingual output is recognised", got is BY_NAME[name], detail=lambda: repr(got))
        cset = BY_NAME[name]().read(out)
        t.check(f"{name}: own bilingual output is read back", not cset.is_empty())
        t.reach("out-" + name.split("-")[0])
    return run


def scenarios(tier):
    q = tier == "quick"
    out = [("empty", empty)]
    for n in range(1, 4 if q else 6):
        out.append((f"short-{n}", short(n)))
    for n in range(2, 4 if q else 5):
        out.append((f"pieces-{n}", pieces(n)))
    for i in range(6):
        out.append((f"marker-{i}", marker(i)))
    out.append(("mixed", mixed))
    for name in ["srt", "webvtt", "dfxp", "dfxp-legacy", "dfxp-single", "sami", "microdvd", "scc"]:
        out.append((f"own-{name}", own(name)))
        out.append((f"frag-{name}", frag(name)))
        out.append((f"timed-{name}", timed(name)))
    for name in ["srt", "webvtt", "dfxp", "dfxp-legacy", "dfxp-single", "sami", "microdvd"]:
        out.append((f"bilingual-{name}", bilingual(name)))
    return out
