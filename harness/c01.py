"""C01: reading preserves every cue's start and end instant (text formats)."""
from pycaption import SRTReader, WebVTTReader, DFXPReader, SAMIReader, MicroDVDReader

BOUNDS = ("documents of 1-3 cues; every digit of every timestamp symbolic; SRT/DFXP hours 1-4 digits, WebVTT hours "
          "absent or 2-4 digits; SRT fraction missing or 3 digits, DFXP fraction missing or 1-9 digits, time counts "
          "of 1-6 digits with 0-4 decimals; SAMI starts of 1-8 digits; MicroDVD frames of 1-7 digits; listed "
          "frame rates; time shift -10^7..10^7 ms")
OUTSIDE = ("tick metrics, ttp:* parameter attributes other than the one listed finding, time containers on body/div, "
           "SRT fractions of other lengths (not well-formed SRT), NUL and lone surrogates")
REACH = ["srt", "vtt", "dfxp-clock", "dfxp-frames", "dfxp-offset", "dfxp-dur", "sami", "sami-last", "microdvd",
         "microdvd-fps"]
H, M, S = 3600000000, 60000000, 1000000


def sixty(t, nm):
    return t.char(nm, "012345") + t.digits(nm + "u", 1)


def hms(t, p, hlen):
    """symbolic hh:mm:ss pieces -> (list of strings, microseconds)"""
    h = t.digits(p + "h", hlen) if hlen else ""
    m = sixty(t, p + "m")
    s = sixty(t, p + "s")
    us = (int(h) if hlen else 0) * H + int(m) * M + int(s) * S
    return h, m, s, us


def times(t, cs, lang=None):
    langs = cs.get_languages()
    return [(c.start, c.end) for c in cs.get_captions(lang or langs[0])]


def texts(cs, lang=None):
    return [c.get_text() for c in cs.get_captions(lang or cs.get_languages()[0])]


def ints(caps):
    return all(isinstance(x, int) and not isinstance(x, bool) for c in caps for x in c)


def verdict(t, got, exp, gottexts, exptexts):
    t.observe("times", got)
    t.check_eq("cue count", len(got), len(exp))
    t.check_eq("cue order", gottexts, exptexts)
    t.check("integer microseconds", ints(got))
    t.check_eq("starts", [g[0] for g in got], [e[0] for e in exp])
    t.check_eq("ends", [g[1] for g in got], [e[1] for e in exp])


# ---------------------------------------------------------------- SRT
def srt_stamp(t, p, hlen, frac):
    h, m, s, us = hms(t, p, hlen)
    if not frac:
        return f"{h}:{m}:{s}", us
    f = t.digits(p + "f", 3)
    return f"{h}:{m}:{s},{f}", us + int(f) * 1000


def srt_forms(t):
    a, ua = srt_stamp(t, "a", t.pick("hl", [2, 1, 3, 4]), t.flag("fa"))
    b, ub = srt_stamp(t, "b", t.pick("hl2", [2, 3]), t.flag("fb"))
    nl = t.pick("nl", ["\n", "\r\n"])
    doc = nl.join(["1", f"{a} --> {b}", "hello", ""])
    cs = SRTReader().read(doc)
    verdict(t, times(t, cs), [(ua, ub)], texts(cs), ["hello"])
    t.reach("srt")


def srt_doc(t):
    """Several cues, empty cues, extra blank lines, numeric texts, any index numbering."""
    cues, exp, et = [], [], []
    for i in range(3):
        a, ua = srt_stamp(t, f"a{i}", 2, True)
        b, ub = srt_stamp(t, f"b{i}", 2, True)
        body = "last"
        if i < 2:
            body = t.pick("body", ["text", "", "l1\nl2"] if i == 0 else ["12", "l1\nl2"], ["34", ""][:2 - i])
        if i == 2:
            gap = t.pick("tail", [0, 1, 3])
        else:
            gap = t.pick("gap", [1, 3], [2]) if body else 1
        idx = t.pick("idx", [str(i + 1), "7"]) if i == 0 else str(i + 1)
        cues.append(f"{idx}\n{a} --> {b}\n" + (body + "\n" if body else "") + "\n" * gap)
        if body:
            exp.append((ua, ub))
            et.append(body)
    cs = SRTReader().read("".join(cues))
    verdict(t, times(t, cs), exp, texts(cs), et)


def srt_empty_extra_blank(t):
    """A cue without text followed by more than one blank line yields no caption."""
    a, ua = srt_stamp(t, "a", 2, True)
    b, ub = srt_stamp(t, "b", 2, True)
    cs = SRTReader().read(f"1\n{a} --> {b}\n\n\n2\n{a} --> {b}\nlast\n")
    t.check_eq("no caption for an empty cue", len(times(t, cs)), 1)


# ---------------------------------------------------------------- WebVTT
def vtt_stamp(t, p, hlen):
    h, m, s, us = hms(t, p, hlen)
    f = t.digits(p + "f", 3)
    return (f"{h}:" if hlen else "") + f"{m}:{s}.{f}", us + int(f) * 1000


def vtt_forms(t):
    a, ua = vtt_stamp(t, "a", t.pick("hl", [0, 2, 3, 4]))
    b, ub = vtt_stamp(t, "b", t.pick("hl2", [2, 0]))
    sep = t.pick("sep", [" --> ", "\t-->\t", "  -->  "])
    settings = t.pick("set", ["", " align:left", " position:10% line:5%", " "])
    shift = t.int("shift", -10000000, 10000000) if t.flag("shifted") else 0
    strict = t.flag("strict")
    if strict:
        t.assume(ua <= ub)
        t.assume(ua + shift * 1000 >= 0)
    doc = f"WEBVTT\n\n{a}{sep}{b}{settings}\nhello\n"
    cs = WebVTTReader(ignore_timing_errors=not strict, time_shift_milliseconds=shift).read(doc)
    verdict(t, times(t, cs), [(ua + shift * 1000, ub + shift * 1000)], texts(cs), ["hello"])
    t.reach("vtt")


def vtt_doc(t):
    head = t.pick("head", ["WEBVTT\n\n", "WEBVTT - title\nKind: captions\n\nNOTE a --comment\nof two lines\n\n",
                           "\ufeffWEBVTT\r\n\r\nSTYLE\r\n::cue { color: red }\r\n\r\n"])
    nl = t.pick("nl", ["\n", "\r\n"]) if head.startswith("WEBVTT\n") else "\n"
    out, exp, et = head, [], []
    shift = t.int("shift", -10000, 10000000)
    for i in range(2):
        a, ua = vtt_stamp(t, f"a{i}", [2, 0][i])
        b, ub = vtt_stamp(t, f"b{i}", [0, 2][i])
        ident = t.pick("id", ["", "id", "1"])
        body = t.pick("body", ["text", "", "l1\nl2"]) if i == 0 else "last"
        gap = t.pick("gap", [1, 2])
        out += (ident + nl if ident else "") + f"{a} --> {b}" + nl
        out += (body.replace("\n", nl) + nl if body else "") + nl * gap
        if body:
            exp.append((ua + shift * 1000, ub + shift * 1000))
            et.append(body)
    cs = WebVTTReader(time_shift_milliseconds=shift).read(out)
    verdict(t, times(t, cs), exp, texts(cs), et)


# ---------------------------------------------------------------- DFXP
def dfxp(ps, lang="en", extra=""):
    return (f'<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="{lang}"{extra}><head/><body><div>'
            + ps + "</div></body></tt>")


def floor_div(a, b):
    return a // b


def dfxp_clock(t, p, full):
    h, m, s, us = hms(t, p, t.pick(p + "hl", [2, 1, 3, 4]) if full else t.pick(p + "hl", [2], [1, 3]))
    kind = t.pick(p + "kind", ["none", "sub", "frames"])
    if kind == "none":
        return f"{h}:{m}:{s}", us
    if kind == "frames":
        f = t.char(p + "ft", "012") + t.digits(p + "f", 1)
        t.reach("dfxp-frames")
        return f"{h}:{m}:{s}:{f}", us + floor_div(int(f) * 1000000, 30)
    n = t.pick(p + "fl", [1, 2, 3, 4, 6, 9] if full else [2, 4])
    f = t.digits(p + "f", n)
    t.reach("dfxp-clock")
    return f"{h}:{m}:{s}.{f}", us + int((f + "000000")[:6])


UNIT = {"h": H, "m": M, "s": S, "ms": 1000}


def dfxp_offset(t, p):
    unit = t.pick(p + "unit", ["h", "m", "s", "ms", "f"])
    n = t.pick(p + "n", {"h": [1, 3], "m": [1, 4], "s": [1, 3, 6], "ms": [1, 4, 8], "f": [1, 3, 6]}[unit])
    w = t.digits(p + "w", n)
    k = t.pick(p + "k", [0, 1, 3, 4])
    t.reach("dfxp-offset")
    if k:
        f = t.digits(p + "f", k)
        num, text = int(w + f), f"{w}.{f}{unit}"
    else:
        num, text = int(w), f"{w}{unit}"
    if unit == "f":
        return text, floor_div(num * 1000000, 30 * 10 ** k)
    return text, floor_div(num * UNIT[unit], 10 ** k)


def dfxp_clock_forms(t):
    a, ua = dfxp_clock(t, "a", True)
    if t.flag("dur"):
        b, ub = dfxp_clock(t, "b", False)
        attrs, ub = f'begin="{a}" dur="{b}"', ua + ub
        t.reach("dfxp-dur")
    else:
        b, ub = "99:59:59.999", 99 * H + 59 * M + 59 * S + 999000
        attrs = f'end="{b}" begin="{a}"'
    cs = DFXPReader().read(dfxp(f"<p {attrs}>hello</p>"))
    verdict(t, times(t, cs), [(ua, ub)], texts(cs), ["hello"])


def dfxp_offset_forms(t):
    a, ua = dfxp_offset(t, "a")
    if t.flag("dur"):
        b, ub = "1.5s", 1500000
        attrs, ub = f'begin="{a}" dur="{b}"', ua + ub
    else:
        attrs, ub = f'begin="1s" end="{a}"', ua
        ua = 1000000
    cs = DFXPReader().read(dfxp(f"<p {attrs}>hello</p>"))
    verdict(t, times(t, cs), [(ua, ub)], texts(cs), ["hello"])


def dfxp_doc(t):
    out, exp, et = "", [], []
    for i in range(3):
        a = t.digits(f"a{i}", 3)
        b = t.digits(f"b{i}", 2)
        body = t.pick("body", ["text", "", "  \n ", "<br/>", "a<br/>b"])
        both = t.flag("both") if i == 0 else False
        ua = int(a) * 1000000
        ub = int(b) * 60000000
        if i == 1 and t.flag("dur"):
            at, end = f'begin="{a}s" dur="{b}m"', ua + ub
        else:
            at, end = f'begin="{a}s" end="{b}m"', ub
        out += f"<p {at}>{body}</p>\n"
        if body in ("text", "a<br/>b"):
            exp.append((ua, end))
            et.append(body.replace("<br/>", "\n"))
    if not exp:
        t.assume(False)
    cs = DFXPReader().read(dfxp(out))
    verdict(t, times(t, cs), exp, texts(cs), et)


def dfxp_two_divs(t):
    """Two divs of one language: all cues, in document order."""
    a, b, c = (t.digits(n, 2) for n in "abc")
    d1 = t.pick("l1", ["", ' xml:lang="en"'])
    d2 = t.pick("l2", ["", ' xml:lang="en"'])
    doc = ('<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="en"><body>'
           f'<div{d1}><p begin="{a}s" end="{b}s">x</p></div>'
           f'<div{d2}><p begin="{b}s" end="{c}s">y</p></div></body></tt>')
    cs = DFXPReader().read(doc)
    u = [int(x) * 1000000 for x in (a, b, c)]
    verdict(t, times(t, cs), [(u[0], u[1]), (u[1], u[2])], texts(cs), ["x", "y"])


def dfxp_frame_rate(t):
    f = t.char("ft", "01") + t.digits("f", 1)
    cs = DFXPReader().read(dfxp(f'<p begin="00:00:01:{f}" end="9s">x</p>',
                                extra=' xmlns:ttp="http://www.w3.org/ns/ttml#parameter" ttp:frameRate="25"'))
    t.check_eq("starts under ttp:frameRate", times(t, cs)[0][0], 1000000 + int(f) * 40000)


# ---------------------------------------------------------------- SAMI
SAMI = ('<SAMI><HEAD><STYLE TYPE="text/css"><!--\n P {{ margin-left: 8%; }}\n .ENCC {{ name: "E"; lang: en-US; }}\n'
        ' .FRCC {{ name: "F"; lang: fr-FR; }}\n--></STYLE></HEAD><BODY>{}</BODY></SAMI>')


def sami_chain(t):
    """One language: text and blank syncs in order."""
    n = t.pick("n", [1, 2, 3])
    starts, bodies, out = [], [], ""
    for i in range(n):
        d = t.digits(f"s{i}", t.pick("len", [4, 1, 8]) if i == 0 else (5 if n < 3 else 4))
        v = int(d)
        if i:
            t.assume(v > starts[-1])
        body = t.pick("body", ["text", "&nbsp;", "", "two"]) if i else t.pick("b0", ["text", "&nbsp;"])
        starts.append(v)
        bodies.append(body)
        q = t.pick("quote", ['', '"']) if i == 0 else ""
        close = "</SYNC>" if i == 0 and t.flag("close") else ""
        out += f"<SYNC Start={q}{d}{q}><P Class=ENCC>{body}" + ("</P>" + close if close else "") + "\n"
    exp, et = [], []
    for i in range(n):
        if bodies[i] in ("text", "two"):
            end = starts[i + 1] * 1000 if i + 1 < n else (starts[i] + 4000) * 1000
            if i + 1 == n:
                t.reach("sami-last")
            exp.append((starts[i] * 1000, end))
            et.append(bodies[i])
    t.assume(bool(exp))
    cs = SAMIReader().read(SAMI.format(out))
    verdict(t, times(t, cs, "en-US"), exp, texts(cs, "en-US"), et)
    t.reach("sami")


def sami_two_langs(t):
    """Two languages interleaved over three syncs; a cue lasts until the next sync of its language."""
    starts, out = [], ""
    exp = {"en-US": [], "fr-FR": []}
    lines = {"en-US": [], "fr-FR": []}
    for i in range(3):
        d = t.digits(f"s{i}", 5)
        v = int(d)
        if i:
            t.assume(v > starts[-1])
        starts.append(v)
        out += f"<SYNC Start={d}>"
        for cls, lang in (("ENCC", "en-US"), ("FRCC", "fr-FR")):
            k = t.pick(f"k{lang}", ["text", "absent", "&nbsp;"]) if i else "text"
            if k != "absent":
                out += f"<P Class={cls}>{k if k != 'text' else lang[:2] + str(i)}</P>"
                lines[lang].append((v, k))
        out += "</SYNC>\n"
    cs = SAMIReader().read(SAMI.format(out))
    for lang in exp:
        es, et = [], []
        for i, (v, k) in enumerate(lines[lang]):
            if k == "text":
                end = lines[lang][i + 1][0] * 1000 if i + 1 < len(lines[lang]) else (v + 4000) * 1000
                es.append((v * 1000, end))
        got = times(t, cs, lang)
        t.observe(lang, got)
        t.check_eq("times " + lang, got, es)


def sami_same_sync(t):
    """Two paragraphs of one language in one sync share start and end."""
    a, b = t.digits("a", 4), t.digits("b", 5)
    t.assume(int(b) > int(a))
    last = t.flag("last")
    out = f"<SYNC Start={a}><P Class=ENCC>x</P><P Class=ENCC>y</P></SYNC>"
    if not last:
        out += f"<SYNC Start={b}><P Class=ENCC>&nbsp;</P></SYNC>"
    cs = SAMIReader().read(SAMI.format(out))
    e = (int(a) + 4000) * 1000 if last else int(b) * 1000
    verdict(t, times(t, cs, "en-US"), [(int(a) * 1000, e)] * 2, texts(cs, "en-US"), ["x", "y"])


# ---------------------------------------------------------------- MicroDVD
FPS = [None, ("25", 1, 25), ("23.976", 1000, 23976), ("29.97", 100, 2997), ("30", 1, 30), ("23.98", 100, 2398),
       ("24", 1, 24), ("12.5", 2, 25), ("59.940", 50, 2997), ("50.0", 1, 50)]


def microdvd(t):
    r = t.pick("fps", FPS)
    n = t.pick("n", [1, 3, 5, 7])
    a, b = t.digits("a", n), t.digits("b", t.pick("m", [2, 6]))
    c = t.digits("c", 4)
    t.assume(int(b) > 0)
    if r is None:
        head, num, den = "", 1, 25
    else:
        head, num, den = "{0}{0}" + r[0] + "\n", r[1], r[2]
        t.reach("microdvd-fps")
    nl = t.pick("tail", ["\n", ""])
    empty = "{5}{9}\n" if t.flag("empty") else ""
    cs = MicroDVDReader().read(head + f"{{{a}}}{{{b}}}hello\n{empty}{{{b}}}{{{c}}}one|two{nl}")
    us = [floor_div(int(x) * 1000000 * num, den) for x in (a, b, c)]
    verdict(t, times(t, cs), [(us[0], us[1]), (us[1], us[2])], texts(cs), ["hello", "one\ntwo"])
    t.reach("microdvd")


def scenarios(tier):
    return [("srt-forms", srt_forms), ("srt-doc", srt_doc),
            ("srt-empty-extra-blank", srt_empty_extra_blank), ("vtt-forms", vtt_forms), ("vtt-doc", vtt_doc),
            ("dfxp-clock", dfxp_clock_forms), ("dfxp-offset", dfxp_offset_forms), ("dfxp-doc", dfxp_doc),
            ("dfxp-two-divs", dfxp_two_divs), ("dfxp-frame-rate", dfxp_frame_rate),
            ("sami-chain", sami_chain), ("sami-two-langs", sami_two_langs), ("sami-same-sync", sami_same_sync),
            ("microdvd", microdvd)]
