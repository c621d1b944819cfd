"""The native library boundary: lxml's HTML parser (SAMIReader parses with features="lxml").

Symbolic characters are passed through lxml as opaque text characters.  That is only right for characters the
HTML tokenizer does not treat specially, so every symbolic character is first split: in text, '<' and '&', white
space and '>' become concrete paths; behind an '&' or inside a tag the characters become concrete altogether."""
from . import core

WS = " \t\n\r\x0b\x0c"


def prepare(c, s):
    if not core.has_ph(s):
        return s
    s = c.norm(s)
    out = []
    state = "text"
    quote = None
    alnum = core.mask_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789#;")

    def split(ch, chars):
        for x in chars:
            if c.ch_may(ch, 1 << ord(x)) and c.ch_in(ch, 1 << ord(x)):
                return x
        return ch
    for ch in s:
        ph = core.PH_BASE <= ord(ch) <= core.PH_LAST
        if ph:
            if state == "text":
                ch = split(ch, "<&" + WS)
            elif state == "amp":
                if c.ch_in(ch, alnum):
                    ch = c.concretize_ch(ch, 70, "lxml entity")
                else:
                    ch = split(ch, "<&" + WS)
            elif state == "lt":
                ch = split(ch, "/!?<&>" + WS)
                if core.has_ph(ch) and c.ch_may(ch, alnum) and c.ch_in(ch, alnum):
                    ch = c.concretize_ch(ch, 70, "lxml tag name")
            elif state == "tag":
                ch = c.concretize_ch(ch, 130, "lxml tag")
            elif state == "value":
                ch = split(ch, quote + "&<>" + WS)
            elif state == "comment":
                ch = split(ch, "->")
        out.append(ch)
        if state in ("text", "amp", "lt"):
            if ch == "<":
                state = "lt"
            elif ch == "&":
                state = "amp"
            elif state == "lt" and ch == "!":
                state = "comment"
            elif state == "lt" and (ch.isalpha() or ch in "/?") and not core.has_ph(ch):
                state = "tag"
            elif state == "amp" and (core.has_ph(ch) or not (ch.isalnum() or ch in "#")):
                state = "text"
            elif state == "lt":
                state = "text"
        elif state == "tag":
            if ch == ">":
                state = "text"
            elif ch in "\"'":
                state, quote = "value", ch
        elif state == "value":
            if ch == quote:
                state = "tag"
        elif state == "comment":
            if ch == ">":
                state = "text"
    return "".join(out)


def setup():
    try:
        from bs4.builder import _lxml
    except ImportError:
        return
    orig = _lxml.LXMLTreeBuilder.feed

    def feed(self, markup):
        if isinstance(markup, str):
            markup = prepare(core.CTX, markup)
        return orig(self, markup)
    _lxml.LXMLTreeBuilder.feed = feed
    orig_xml = _lxml.LXMLTreeBuilderForXML.feed

    def feed_xml(self, markup):
        if isinstance(markup, str) and core.has_ph(markup):
            markup = prepare(core.CTX, markup)
        return orig_xml(self, markup)
    _lxml.LXMLTreeBuilderForXML.feed = feed_xml
