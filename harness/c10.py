"""C10: reading is a deterministic, isolated function of document and options."""
from pycaption import CaptionNode, DFXPReader, MicroDVDReader, SAMIReader, SCCReader, SRTReader, WebVTTReader
from refs import cea608 as c6
from harness.common import writer
from harness.snap import snap

# the exploration starts from a process in which pycaption has read and written nothing
WARM = False
BOUNDS = ("histories of up to four operations (read B; read A with the same or another reader object, A possibly failing; edit the "
          "result or write it with any writer; read B again; edit that; read B a third time in a process whose hash sets iterate in "
          "any order) over documents of all six formats, several variants each (styles, layouts, languages, open buffers and modes "
          "left at the end of the document), with symbolic text characters, digits and SCC word data, reader options included")
OUTSIDE = ("documents longer than two or three cues; histories longer than the bound; editing geometry objects in place; interpreter "
           "hash seeds enter as an arbitrary iteration order of every set the readers build (dict order is insertion order)")
REACH = ["error", "reused", "edited", "written", "hash-order", "srt", "webvtt", "dfxp", "sami", "microdvd", "scc"]

AL = "abcdefghijklmnopqrstuvwxyz"


def srt_doc(t, n, v):
    if v == "bad":
        return f"1\n00:00:0{t.digits(n, 1)},000 --> 00:00:xx\nq\n"
    return (f"1\n00:00:0{t.digits(n, 1)},000 --> 00:00:10,500\n{t.text(n, 2, AL)}\nsecond\n\n2\n00:00:11,000 --> 00:00:12,000\n"
            f"{t.text(n, 1, AL)}\n")


def vtt_doc(t, n, v):
    if v == "bad":
        return f"WEBVTT\n\n00:0{t.digits(n, 1)}.000 --> 00:00.000\nq\n"
    sett = " align:left position:10%" if v == "pos" else ""
    return (f"WEBVTT\n\nid\n00:0{t.digits(n, 1)}.000 --> 00:10.500{sett}\n<v Ann>{t.text(n, 2, AL)}</v> <i>x</i>\nsecond\n\n"
            f"00:11.000 --> 00:12.000\n{t.text(n, 1, AL)}\n")


def dfxp_doc(t, n, v):
    ns = 'xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"'
    k, x = t.digits(n, 1), t.text(n, 2, AL)
    if v == "bad":
        return (f'<tt {ns}><body><div><p begin="1s" end="2s"><span tts:fontStyle="italic">{x}</span></p>'
                f'<p begin="nope" end="3s">q</p></div></body></tt>')
    if v == "plain":
        return f'<tt {ns}><body><div><p begin="{k}s" end="12s">{x}</p></div></body></tt>'
    if v == "inline":
        return (f'<tt {ns}><body><div><p begin="{k}s" end="12s" tts:origin="1{k}% 20%" tts:textAlign="left">{x}</p>'
                f'<p begin="13s" end="14s">q</p></div></body></tt>')
    return (f'<tt {ns} xml:lang="en"><head><styling><style xml:id="s1" tts:color="red" tts:fontStyle="italic"/>'
            f'<style xml:id="s2" tts:textAlign="right"/></styling><layout><region xml:id="r1" tts:origin="1{k}% 20%" '
            f'tts:extent="30% 40%" tts:displayAlign="before"/><region xml:id="r2" style="s2"/></layout></head><body>'
            f'<div xml:lang="fr"><p begin="{k}s" end="11s" region="r1" style="s1">{x}<br/><span tts:fontWeight="bold" '
            f'region="r2">b</span></p></div><div><p begin="12s" end="13s" region="r2">q</p></div></body></tt>')


def sami_doc(t, n, v):
    k, x = t.digits(n, 1), t.text(n, 2, AL)
    if v == "bad":
        return f"<SAMI><HEAD></HEAD><BODY><SYNC Start=1{k}00><P lang=en><i>{x}<SYNC><P lang=en>q</BODY></SAMI>"
    if v == "plain":
        return f"<SAMI><HEAD></HEAD><BODY><SYNC Start=1{k}00><P>{x}</BODY></SAMI>"
    if v == "langs":
        return ("<SAMI><HEAD><STYLE TYPE=\"text/css\"><!--\nP { margin-left: 8%; }\n.A { lang: en-US; margin-top: 2%; }\n.B { lang: "
                f"fr-FR; color: red; }}\n.C {{ lang: de; }}\n--></STYLE></HEAD><BODY><SYNC Start=1{k}00><P Class=B>{x}<P Class=A>q"
                f"<P Class=C>z<SYNC Start=2500><P Class=A>&nbsp;<P lang=es>w</BODY></SAMI>")
    return (f"<SAMI><HEAD><STYLE TYPE=\"text/css\"><!--\nP {{ text-align: left; }}\n.A {{ lang: en-US; }}\n--></STYLE></HEAD><BODY>"
            f"<SYNC Start=1{k}00><P Class=A style=\"text-align:right;color:blue\">{x}<br><span style=\"text-align:center;font-style:italic\">"
            f"u</span><SYNC Start=2500><P Class=A ID=Source><b>v</BODY></SAMI>")


def mdv_doc(t, n, v):
    k = t.digits(n, 1)
    if v == "bad":
        return f"{{0}}{{0}}2{k}\n{{10}}{{20}}a\nnonsense"
    return ("{0}{0}23.976\n" if v == "fps" else "") + f"{{1{k}}}{{20}}{t.text(n, 2, AL)}|second\n{{30}}{{40}}{t.text(n, 1, AL)}\n"


def scc_doc(t, n, v):
    words = c6_words()
    if t.tier == "quick":
        words = words[:2]
    a, b = t.entry(n, words), t.entry(n, words)
    tcs = ["00:00:01:00", "00:00:05:00", "00:00:09:15"]
    d = lambda x: [x, x]      # noqa: E731
    if v == "pop":
        ws = [d(c6.ENM) + d(c6.RCL) + d(c6.pac(14, 4)) + d(c6.tab(2)) + [a, b] + d(c6.EOC), d(c6.EDM)]
    elif v == "pop-open":          # loaded but never shown, after a shown caption, italics switched on
        ws = [d(c6.RCL) + d(c6.pac(15, 0)) + [a] + d(c6.EOC), d(c6.RCL) + d(c6.pac(2, italics=True)) + [b]]
    elif v == "paint":
        ws = [d(c6.RDC) + d(c6.pac(13, 8)) + [a, b], d(c6.EDM) + d(c6.RDC) + d(c6.pac(1, italics=True)) + [b]]
    elif v == "roll2":
        ws = [d(c6.RU2) + d(c6.CR) + d(c6.pac(15, 0)) + [a], d(c6.CR) + [b]]
    elif v == "roll3-open":
        ws = [d(c6.RU3) + d(c6.CR) + d(c6.pac(12, 0)) + [a], d(c6.CR) + [b], d(c6.CR) + [a]]
    elif v == "single":
        ws = [[c6.RCL, c6.pac(15, 0), a, c6.EOC], [c6.EDM]]
    elif v == "mode-less":         # no mode command: the document relies on the reader's initial mode
        ws = [[c6.pac(15, 0), a, c6.EOC], [b, c6.EOC]]
    elif v == "text-only":
        ws = [[a, b, c6.EOC], [c6.EDM]]
    elif v == "cr-first":
        ws = [d(c6.CR) + d(c6.pac(15, 0)) + [a], d(c6.CR)]
    else:                          # bad: a line that is too long
        ws = [d(c6.RCL) + d(c6.pac(15, 0)) + [a] * 17 + d(c6.EOC)]
    return c6.doc(list(zip(tcs, ws)))


_words = []


def c6_words():
    if not _words:
        _words.extend(c6.bytes_of(c6.enc(x))[0] for x in ("ab", "cd", "A ", "? "))
    return _words


DOCS = {"srt": srt_doc, "webvtt": vtt_doc, "dfxp": dfxp_doc, "sami": sami_doc, "microdvd": mdv_doc, "scc": scc_doc}
MAKE = {
    "srt": [lambda: SRTReader()], "webvtt": [lambda: WebVTTReader(), lambda: WebVTTReader(ignore_timing_errors=False)],
    "dfxp": [lambda: DFXPReader(), lambda: DFXPReader(read_invalid_positioning=True)], "sami": [lambda: SAMIReader()],
    "microdvd": [lambda: MicroDVDReader()], "scc": [lambda: SCCReader()]}
KW = {"scc": [{}, {"simulate_roll_up": True}, {"offset": 1}, {"lang": "fr"}], "srt": [{}, {"lang": "fr"}],
      "webvtt": [{}, {"lang": "fr"}], "microdvd": [{}, {"lang": "fr"}], "dfxp": [{}], "sami": [{}]}
VARIANTS = {"srt": ["x"], "webvtt": ["pos", "plain"], "dfxp": ["full", "inline", "plain"], "sami": ["styled", "langs", "plain"],
            "microdvd": ["fps", "x"], "scc": ["pop", "pop-open", "paint", "roll2", "roll3-open", "single", "mode-less", "text-only",
                                               "cr-first"]}


def edit(t, cs, what):
    t.reach("edited")
    if what == "set-style":
        cs.add_style("zz", {"color": "green"})
        for k in list(cs.get_styles()):
            k[1]["edited"] = "1"
        return
    for l in cs.get_languages():
        caps = cs.get_captions(l)
        if what == "captions":
            for c in caps:
                c.style["color"] = "green"
                c.style["classes"] = ["zz"]
                c.start = c.start + 7
                c.end = c.end + 9
                for n in c.nodes:
                    if n.type_ == CaptionNode.STYLE:
                        n.content["edited"] = True
                        n.start = not n.start
                    elif n.type_ == CaptionNode.TEXT:
                        n.content = "edited"
                    n.layout_info = None
                c.nodes.append(CaptionNode.create_text("more"))
                c.layout_info = None
        else:
            caps.layout_info = None
            if len(caps):
                caps.append(caps[0])
                del caps[0]
    cs.layout_info = None
    cs.add_style("p", {"color": "green"})


def history(fb, vb, fa, va):
    def run(t):
        b = DOCS[fb](t, "b", vb)
        a = DOCS[fa](t, "a", va)
        mb = t.pick("make", MAKE[fb][:1], MAKE[fb][1:]) if fa != fb else t.pick("make", MAKE[fb])
        if fa == fb:
            kb, ka = t.pick("kw", [(KW[fb][0], KW[fb][0])] + [(KW[fb][0], k) for k in KW[fb][1:]],
                            [(x, y) for x in KW[fb][1:] for y in KW[fb]])
        else:
            kb, ka = t.pick("kwb", KW[fb][:1], KW[fb][1:]), KW[fa][0]
        r = mb()
        err = None
        try:
            s1 = r.read(b, **kb)
            d1 = snap(s1)
        except Exception as e:
            s1, err = None, type(e).__name__
            d1 = ["raised", err]
        t.observe("first", d1)
        t.reach(fb)
        reuse = fa == fb and t.flag("reuse")
        ra = r if reuse else t.pick("makea", MAKE[fa][:1], MAKE[fa][1:])()
        if reuse:
            t.reach("reused")
        sa = None
        try:
            sa = ra.read(a, **ka)
        except Exception:
            t.reach("error")
        ops = ["captions", "set-style", "list", "write"]
        if fa != fb:
            ops = ["captions"] if fa == "scc" or fb == "scc" else ["write"]
        elif fb == "scc":
            ops = ["captions"] if va != vb else ["captions", "write"]
        op = t.pick("op", ops, [x for x in ["captions", "set-style", "list", "write"] if x not in ops])
        if sa is not None:
            if op == "write":
                t.reach("written")
                for w in ("srt", "webvtt", "dfxp", "dfxp-legacy", "sami", "microdvd"):
                    try:
                        writer(w).write(sa)
                    except Exception:
                        t.reach("error")
            else:
                edit(t, sa, op)
        if s1 is not None:
            t.check_eq("an earlier result is untouched by a later read and its editing", snap(s1), d1)

        def again(label, rd):
            try:
                s = rd.read(b, **kb)
                d = snap(s)
            except Exception as e:
                s, d = None, ["raised", type(e).__name__]
            t.check_eq(label, d, d1)
            return s
        s2 = again("reading again gives the same result", r if reuse or fa != fb else mb())
        if s2 is not None:
            edit(t, s2, op if op != "write" else "captions")
            if s1 is not None:
                t.check_eq("editing the second result leaves the first alone", snap(s1), d1)
        again("reading a third time gives the same result", mb())
    return run


def order(fb, vb):
    """the result in a process whose sets iterate in another order"""
    def run(t):
        b = DOCS[fb](t, "b", vb)
        mb = t.pick("make", MAKE[fb])
        d1 = snap(mb().read(b))
        t.observe("first", d1)
        t.hash_order(True)
        t.new_process()
        t.reach("hash-order")
        d2 = snap(mb().read(b))
        t.hash_order(False)
        t.check_eq("the result does not depend on the hash seed", d2, d1)
    return run


def scenarios(tier):
    out = []
    deep = tier != "quick"
    for f, vs in VARIANTS.items():
        for v in vs:
            out.append((f"order-{f}-{v}-{tier}", order(f, v)))
            for w in vs + ["bad"]:
                if f == "scc" and not deep and w not in ("pop-open", "paint", "roll3-open", "bad", v):
                    continue
                out.append((f"same-{f}-{v}-after-{w}-{tier}", history(f, v, f, w)))
            for g, ws in VARIANTS.items():
                if g != f:
                    for w in (ws if deep else ws[:1]) + ["bad"]:
                        out.append((f"cross-{f}-{v}-after-{g}-{w}-{tier}", history(f, v, g, w)))
    return out
