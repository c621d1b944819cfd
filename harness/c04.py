"""C04: read text equals authored text (references decoded once, markup stripped)."""
from harness.common import node_text, reader
from refs.common import norm_line
from sx.charsets import CS, PRINTABLE

BOUNDS = ("one cue of interest between plain ones. (a) up to 3 (thorough 4) arbitrary printable characters of raw text; (b) every "
          "reference spelling (named, decimal, hexadecimal) before/after entity-looking literals and arbitrary characters, and a "
          "two-digit decimal / hexadecimal reference with symbolic digits; (c) sequences of up to 4 (thorough 5) pieces out of words, source line wraps, "
          "br markup, opening/closing style tags, comments, CDATA; (d) for WebVTT every tag kind with annotations, classes, timestamps, unknown tags")
OUTSIDE = ("SRT tags (SRT has no inline markup of its own; its text is taken literally); MicroDVD control codes; WebVTT tags "
           "that span source lines; documents that are not well-formed; prefixed TTML element names")
REACH = ["srt", "webvtt", "dfxp", "sami", "microdvd", "entity", "wrap", "br", "tag", "numeric"]

RAW = {"srt": PRINTABLE, "microdvd": CS("printable", minus="|"),
       "webvtt": CS("printable", minus="<&"), "dfxp": CS("printable", minus="<&"), "sami": CS("printable", minus="<&")}
PIECE = {"dfxp": [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'), ("&apos;", "'")],
         "sami": [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'), ("&eacute;", "\u00e9"), ("&nbsp;", "\u00a0"),
                  ("&hellip;", "\u2026"), ("&apos;", "'")],
         "webvtt": [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&lrm;", "\u200e"), ("&rlm;", "\u200f"), ("&nbsp;", "\u00a0"),
                    ("&quot;", '"')]}
NUMERIC = [("&#38;", "&"), ("&#60;", "<"), ("&#62;", ">"), ("&#x26;", "&"), ("&#x3c;", "<"), ("&#x3C;", "<"), ("&#x3E;", ">"),
           ("&#233;", "\u00e9"), ("&#xe9;", "\u00e9"), ("&#160;", "\u00a0"), ("&#x1F600;", "\U0001F600"), ("&#0065;", "A")]


def norm(text):
    """lines, each trimmed with white space collapsed, without empty lines at the ends"""
    ls = [norm_line(l) for l in text.split("\n")]
    while ls and ls[0] == "":
        ls.pop(0)
    while ls and ls[-1] == "":
        ls.pop()
    return ls


def document(name, body):
    """a document whose second cue's source text is body"""
    if name == "srt":
        return ("1\n00:00:01,000 --> 00:00:02,000\nfirst\n\n2\n00:00:03,000 --> 00:00:04,000\n" + body +
                "\n\n3\n00:00:05,000 --> 00:00:06,000\nlast\n")
    if name == "webvtt":
        return ("WEBVTT\n\n00:01.000 --> 00:02.000\nfirst\n\n00:03.000 --> 00:04.000\n" + body +
                "\n\n00:05.000 --> 00:06.000\nlast\n")
    if name == "microdvd":
        return "{25}{50}first\n{75}{100}" + body + "\n{125}{150}last\n"
    if name == "dfxp":
        return ('<?xml version="1.0" encoding="utf-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" '
                'xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en">\n <head>\n  <styling>\n   <style xml:id="s1" '
                'tts:fontStyle="italic"/>\n  </styling>\n </head>\n <body>\n  <div xml:lang="en">\n'
                '   <p begin="00:00:01.000" end="00:00:02.000">first</p>\n   <p begin="00:00:03.000" end="00:00:04.000">' +
                body + '</p>\n   <p begin="00:00:05.000" end="00:00:06.000">last</p>\n  </div>\n </body>\n</tt>\n')
    return ('<SAMI>\n<HEAD>\n<STYLE TYPE="text/css">\n<!--\nP { font-family: Arial; }\n.ENCC { Name: English; lang: en-US; }\n-->\n'
            '</STYLE>\n</HEAD>\n<BODY>\n<SYNC Start=1000><P Class=ENCC>first</P></SYNC>\n<SYNC Start=3000><P Class=ENCC>' + body +
            '</P></SYNC>\n<SYNC Start=5000><P Class=ENCC>last</P></SYNC>\n</BODY>\n</SAMI>\n')


def judge(t, name, body, want):
    doc = document(name, body)
    t.observe("doc", doc)
    exp = norm(want)
    cs = reader(name).read(doc)
    langs = cs.get_languages()
    t.check(f"{name}: one language", len(langs) == 1)
    caps = cs.get_captions(langs[0])
    got = [norm(node_text(c.nodes)) for c in caps]
    t.observe("got", got)
    # a cue without visible characters may be dropped or kept empty
    empty = all(l == "" for l in exp)
    if empty:
        got = [g for g in got if g != []]
        t.check_eq(f"{name}: other cues", got, [["first"], ["last"]])
        return
    t.check(f"{name}: cue count", len(got) == 3, detail=str(len(got)))
    if len(got) != 3:
        return
    t.check_eq(f"{name}: first", got[0], ["first"])
    t.check_eq(f"{name}: last", got[2], ["last"])
    t.check(f"{name}: line count", len(got[1]) == len(exp), detail=f"{len(got[1])} lines, expected {len(exp)}")
    if len(got[1]) == len(exp):
        for a, b in zip(got[1], exp):
            t.check_eq(f"{name}: text", a, b)
    # get_text must agree with the nodes
    t.check_eq(f"{name}: get_text", norm(caps[1].get_text()), got[1])
    t.reach(name)


def raw(name, n):
    def run(t):
        s = t.text("s", n, RAW[name])
        if name in ("srt", "webvtt"):
            t.assume(s[0] != " " or n > 1)
        if name == "webvtt":
            t.assume("-->" not in s)
        if name == "dfxp":
            t.assume("]]>" not in s)
        if name == "srt":
            # only lines with visible text belong to a block
            t.assume(norm_line(s) != "")
        judge(t, name, s, s)
    return run


def multi(name):
    """several source lines, line-break markup"""
    seps = {"srt": ["\n", "\r\n"], "webvtt": ["\n", "\r\n", "\r"], "microdvd": ["|"], "dfxp": ["<br/>", "<br />", "<br></br>"],
            "sami": ["<br>", "<BR>", "<br/>", "<br />"]}[name]

    def run(t):
        a = t.char("a", RAW[name])
        b = t.char("b", RAW[name])
        if name in ("srt", "webvtt"):
            t.assume(a != " ")
            t.assume(b != " ")
        sep = t.pick("sep", seps)
        tail = t.pick("tail", ["", "2", "c d"])
        body = "x" + a + sep + b + "y" + (sep + tail if tail else "")
        t.reach("br")
        judge(t, name, body, "x" + a + "\n" + b + "y" + ("\n" + tail if tail else ""))
    return run


def follow(name):
    out = ["", "lt;", "amp;", "#60;", ";", "x", "#x3C;", "apos;"]
    return out


def named(name):
    """a reference, then literal text that looks like the rest of one"""
    def run(t):
        src, val = t.pick("ref", PIECE[name])
        lit = t.pick("follow", follow(name))
        c = t.char("c", RAW[name])
        t.reach("entity")
        judge(t, name, "x" + src + lit + c, "x" + val + lit + c)
    return run


def numeric(name):
    def run(t):
        src, val = t.pick("ref", NUMERIC)
        lit = t.pick("follow", follow(name)[:5])
        c = t.char("c", RAW[name])
        t.reach("numeric")
        judge(t, name, "x" + src + lit + c, "x" + val + lit + c)
    return run


def numeric_sym(name):
    def run(t):
        hexa = t.flag("hex")
        d = t.digits("d", 2)
        if hexa:
            v = int(d[0]) * 16 + int(d[1])
        else:
            v = int(d[0]) * 10 + int(d[1])
        t.assume(v >= 33)
        # references to C1 controls: HTML reads them as windows-1252
        t.assume(v < 128 or v >= 160)
        body = "x&#" + ("x" if hexa else "") + d + ";y"
        judge(t, name, body, "x" + chr(v) + "y")
    return run


def two_refs(name):
    def run(t):
        refs = PIECE[name][:4] + NUMERIC[:4]
        a = t.pick("a", refs)
        b = t.pick("b", refs)
        mid = t.pick("mid", ["", " ", "l"])
        judge(t, name, a[0] + mid + b[0] + "t;", a[1] + mid + b[1] + "t;")
    return run


WRAPS = {"dfxp": [("\n      ", " "), ("\r\n", " "), (" \n ", " "), ("\t", " ")],
         "sami": [("\n      ", " "), ("\r\n", " "), (" \n ", " "), ("\t", " ")]}
OPEN = {"dfxp": ['<span tts:fontStyle="italic">', '<span>', '<span style="s1" tts:color="red">'],
        "sami": ["<i>", "<b>", "<u>", '<span style="font-style:italic;">', '<font color="#ff0000">', "<I>"]}


def close_tag(tag):
    return "</" + tag[1:].split(">")[0].split(" ")[0] + ">"


def layout(name, n, group):
    """sequences of words, wraps, breaks and style tags"""
    def run(t):
        k = t.choice("len", n - 1) + 2
        body, want, stack = "", "", []
        words = 0
        kinds = ["word", "wrap", "br", "tag"]
        last = None
        for i in range(k):
            # DFXP: a wrap at the edge of a tag is looked at in wraptag-dfxp
            never = {"wrap": "tag", "tag": "wrap"}.get(last) if name == "dfxp" else None
            kind = kinds[group] if i == 0 else t.pick("kind", [x for x in kinds if (x != last or x == "tag") and x != never])
            last = kind
            if kind == "word":
                w = "abcdefgh"[words]
                if words == 1:
                    w = w + t.char("c", RAW[name])
                body += w
                want += w
                words += 1
            elif kind == "wrap":
                s, v = t.pick("wrap", WRAPS[name][:2], more=WRAPS[name][2:])
                body += s
                want += v
                t.reach("wrap")
            elif kind == "br":
                body += "<br/>"
                want += "\n"
                t.reach("br")
            else:
                t.reach("tag")
                if stack and t.flag("close"):
                    body += close_tag(stack.pop())
                else:
                    tag = t.pick("open", OPEN[name][:2] if stack else OPEN[name][:4], more=OPEN[name][4:])
                    stack.append(tag)
                    body += tag
        while stack:
            body += close_tag(stack.pop())
        judge(t, name, body, want)
    return run


def special_dfxp(t):
    c = t.char("c", RAW["dfxp"])
    body, want = t.pick("doc", [
        ("x<!-- hidden -->?", "x?"), ("<!--a-->?x", "?x"), ("x<![CDATA[&amp;<i>]]>?", "x&amp;<i>?"), ("<![CDATA[?]]>z", "?z"),
        ("x<metadata ttm:title=\"t\"/>?", "x?"), ("&#x26;apos;?", "&apos;?"), ("&amp;apos;?", "&apos;?"), ("'?\"", "'?\""),
        ("a\n   b\n   ?\n  ", "a b ?"), ("\n a\n<br/>\n ?\n", "a\n?"), ("a <span>\n b </span> ?", "a b ?"),
        ("a <span> b</span>?", "a b?"), ("<span>a\n<br/>b</span> ?", "a\nb ?"), ("<span>a</span>\n <span>b</span>?", "a b?"), ("a<?pi data?>?", "a?")])
    if "<![CDATA[?" in body:
        t.assume(c != "]")
    judge(t, "dfxp", body.replace("?", c), want.replace("?", c)) if "<?" not in body else \
        judge(t, "dfxp", "a<?pi data?>" + c, "a" + c)


def wraptag(t):
    """DFXP: source line breaks at the edges of inline tags"""
    c = t.char("c", RAW["dfxp"])
    body, want = t.pick("doc", [("a\n<span>b</span>?", "a b?"), ("<span>a</span>\n b?", "a b?"), ("<span>a\n</span>b?", "a b?"),
                                ("a<span>\n b</span>?", "a b?"), ("a\n   <span tts:fontStyle=\"italic\">b</span>\n   ?", "a b ?")])
    body, want = body.replace("?", c), want.replace("?", c)
    doc = document("dfxp", body)
    t.observe("doc", doc)
    caps = reader("dfxp").read(doc).get_captions("en")
    got = norm(node_text(caps[1].nodes))
    t.observe("got", got)
    t.check_eq("dfxp: characters", "".join(got).replace(" ", ""), "".join(norm(want)).replace(" ", ""))
    t.check_eq("dfxp: words at a wrapped tag edge", got, norm(want))


def html5_sami(t):
    """references that HTML 4 did not know"""
    c = t.char("c", RAW["sami"])
    src, val = t.pick("ref", [("&starf;", "\u2605"), ("&AMP;", "&"), ("&comma;", ","), ("&check;", "\u2713"), ("&unknown;", "&unknown;")])
    doc = document("sami", "x" + src + " " + c)
    t.observe("doc", doc)
    cs = reader("sami").read(doc)
    got = norm(node_text(cs.get_captions(cs.get_languages()[0])[1].nodes))
    t.check_eq("sami: HTML 5 reference", got, norm("x" + val + " " + c))


def special_sami(t):
    c = t.char("c", RAW["sami"])
    body, want = t.pick("doc", [
        ("x<!-- hidden -->?", "x?"), ("AT & ?", "AT & ?"), ("a\n   b\n   ?\n  ", "a b ?"), ("\n a\n<br>\n ?\n", "a\n?"),
        ("a<font color=\"red\">\n b </font>\n ?", "a b ?"), ("a <i> b</i>?", "a b?"), ("<i>a\n<br>b</i>\n?", "a\nb ?"),
        ("a;>?", "a;>?"), ("<span class=\"q\">a</span>?", "a?"), ("a<div>b</div>", "ab"),
        ("&#X41;?", "A?"), ("a &lt;i/&gt; ?", "a <i/> ?"), ("1 < 2 ?", "1 < 2 ?"), ("<i>x<b>y</b>z</i>?", "xyz?"),
        ("a &copy ?", "a \u00a9 ?"), ("<b>a<b>b</b>c</b>?", "abc?")])
    judge(t, "sami", body.replace("?", c), want.replace("?", c))


def sami_bare_amp(t):
    """an ampersand that starts no reference is itself"""
    c = t.char("c", CS("printable", minus="<&#;ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"))
    d = t.char("d", RAW["sami"])
    judge(t, "sami", "x&" + c + d, "x&" + c + d)


def vtt_tags(t):
    c = t.char("c", RAW["webvtt"])
    t.assume(c != " ")
    body, want = t.pick("doc", [
        ("<i>?</i>", "?"), ("<b>?</b>z", "?z"), ("<u>?</u>", "?"), ("<c.yellow.bg>?</c>", "?"), ("<c>?</c>", "?"),
        ("<lang en-GB>?</lang>", "?"), ("<ruby>?<rt>r</rt></ruby>", "?r"), ("a<00:00:03.500>?", "a?"), ("a<00:03.500>?", "a?"),
        ("<v Ann>?</v>", "Ann: ?"), ("<v Ann>?", "Ann: ?"), ("<v.loud Ann Lee>?</v>", "Ann Lee: ?"), ("<v.a.b-c Ann>?", "Ann: ?"),
        ("<v A&amp;B>?", "A&B: ?"), ("<v\tAnn>?", "Ann: ?"), ("<v Ann>?</v>\n<v Bob>z</v>", "Ann: ?\nBob: z"), ("<i.foo>?</i>", "?"),
        ("<custom>?</custom>", "<custom>?</custom>"), ("<bold>?</bold>", "<bold>?</bold>"), ("<x>?</x>", "<x>?</x>"),
        ("<img>?", "<img>?"), ("<voice Ann>?", "<voice Ann>?"), ("<language>?", "<language>?"), ("<under>?</under>", "<under>?</under>"),
        ("&lt;i&gt;?", "<i>?"), ("&amp;lt;?", "&lt;?"), ("&amp;amp;?", "&amp;?"), ("&lt;v Ann&gt;?", "<v Ann>?"),
        ("<i>a</i>&lt;b&gt;?", "a<b>?"), ("<b><i>?</i></b>", "?"), ("<b>x\n?</b>", "x\n?"), ("a &gt; ?", "a > ?"), ("2 > ?", "2 > ?"),
        ("<i></i>?", "?"), ("<v  Ann >?", "Ann : ?"), ("<c.v Ann>?", "?"), ("<rt>?</rt>", "?"), ("- a <i>b</i> ?", "- a b ?")])
    t.reach("tag")
    if body == "<v  Ann >?":
        # the annotation is trimmed by the tokenizer; only the words are fixed here
        judge(t, "webvtt", "<v Ann>" + c, "Ann: " + c)
        return
    judge(t, "webvtt", body.replace("?", c), want.replace("?", c))


def vtt_unknown(t):
    """a tag whose name is one symbolic letter: known names vanish, the others stay"""
    c = t.char("c", CS("", plus="abcdefghijklmnopqrstuvwxyzABCI"))
    t.assume(c != "v")
    end = t.flag("end")
    tag = "<" + ("/" if end else "") + c + ">"
    judge(t, "webvtt", "x" + tag + "y", "xy" if c in "cibu" else "x" + tag + "y")


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for w in ("srt", "webvtt", "dfxp", "sami", "microdvd"):
        for n in ((1, 2, 3, 4) if deep else (1, 3)):
            out.append((f"raw{n}-{w}", raw(w, n)))
        out.append((f"multi-{w}", multi(w)))
    for w in ("webvtt", "dfxp", "sami"):
        out.append((f"named-{w}", named(w)))
        out.append((f"numeric-{w}", numeric(w)))
        out.append((f"symref-{w}", numeric_sym(w)))
        out.append((f"tworefs-{w}", two_refs(w)))
    for w in ("dfxp", "sami"):
        for g in range(4):
            out.append((f"layout{g}-{w}", layout(w, 5 if deep else 4, g)))
    out += [("special-dfxp", special_dfxp), ("special-sami", special_sami), ("wraptag-dfxp", wraptag), ("html5-sami", html5_sami), ("bareamp-sami", sami_bare_amp),
            ("tags-webvtt", vtt_tags), ("unknown-webvtt", vtt_unknown)]
    return out
