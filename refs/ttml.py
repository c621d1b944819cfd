"""TTML (DFXP) document reader on top of the strict XML parser."""
from refs import xmlp
from refs.common import Cue, FormatError, clock

TT = "http://www.w3.org/ns/ttml"
TTS = "http://www.w3.org/ns/ttml#styling"


class Doc:
    pass


def get(el, name):
    return el.attrs.get(name)


def flatten(p, styles):
    """-> list of lines; each line a list of (char, frozenset(styles), element)"""
    lines = [[]]

    def rec(el, st):
        for k in el.kids:
            if isinstance(k, str):
                for ch in k:
                    lines[-1].append((" " if ch in "\t\n\r" else ch, st, el))
            elif k.local() == "br":
                lines.append([])
            elif k.local() == "span":
                rec(k, st | marks(k, styles))
            elif k.local() in ("metadata", "set"):
                pass
            else:
                raise FormatError("unexpected element " + k.name + " in p")
    rec(p, marks(p, styles))
    return lines


def marks(el, styles, depth=0):
    out = set()
    for ref in (el.attrs.get("style") or "").split():
        if ref in styles and depth < 5:
            out |= marks(styles[ref], styles, depth + 1)
    v = el.attrs.get("tts:fontStyle")
    if v is not None:
        out.discard("italics")
        if v == "italic":
            out.add("italics")
    if el.attrs.get("tts:fontWeight") == "bold":
        out.add("bold")
    if "underline" in (el.attrs.get("tts:textDecoration") or "").split():
        out.add("underline")
    return frozenset(out)


def parse(s, strict_times=True):
    root = xmlp.parse(s)
    if root.local() != "tt" or root.ns != TT:
        raise FormatError("the root element is not tt in the TTML namespace")
    d = Doc()
    d.root = root
    d.lang = root.attrs.get("xml:lang")
    heads, bodies = root.children("head"), root.children("body")
    if len(heads) > 1 or len(bodies) != 1:
        raise FormatError("tt must hold one body and at most one head")
    d.head = heads[0] if heads else None
    d.body = bodies[0]
    d.styles, d.regions, d.ids = {}, {}, []
    for e in root.walk():
        i = e.attrs.get("xml:id")
        if i is None:
            i = e.attrs.get("id")
        if i is not None:
            d.ids.append(i)
    if d.head is not None:
        for e in d.head.walk():
            if e.local() == "style" and e.attrs.get("xml:id") is not None:
                d.styles[e.attrs["xml:id"]] = e
            elif e.local() == "region" and e.attrs.get("xml:id") is not None:
                d.regions[e.attrs["xml:id"]] = e
    d.divs = []
    for div in d.body.children("div"):
        cues = []
        for p in div.children("p"):
            b, e = p.attrs.get("begin"), p.attrs.get("end")
            if b is None or e is None:
                raise FormatError("p without begin or end")
            if strict_times:
                b, e = clock(b, "."), clock(e, ".")
            lines = flatten(p, d.styles)
            cues.append(Cue(b, e, ["".join(c for c, _, _ in l) for l in lines], chars=lines, el=p))
        lang = div.attrs.get("xml:lang")
        d.divs.append((lang if lang is not None else d.lang, cues, div))
    return d
