"""Structural snapshots of caption sets, for comparisons before and after an operation."""
from pycaption import CaptionNode


def size(s):
    return None if s is None else [s.value, str(s.unit)]


def layout(l):
    if l is None:
        return None
    o, e, p, a = l.origin, l.extent, l.padding, l.alignment
    return [None if o is None else [size(o.x), size(o.y)],
            None if e is None else [size(e.horizontal), size(e.vertical)],
            None if p is None else [size(p.before), size(p.after), size(p.start), size(p.end)],
            None if a is None else [str(a.horizontal), str(a.vertical)],
            getattr(l, "webvtt_positioning", None)]


def style(s):
    """a style dict, in a canonical order"""
    if isinstance(s, dict):
        return sorted([[str(k), style(v)] for k, v in s.items()], key=lambda kv: kv[0])
    if isinstance(s, (list, tuple)):
        return [style(x) for x in s]
    return s


def node(n):
    c = n.content
    return [n.type_, style(c) if n.type_ == CaptionNode.STYLE else c, n.start, layout(n.layout_info), n.position]


def caption(c):
    return [c.start, c.end, [node(n) for n in c.nodes], style(c.style), layout(c.layout_info)]


def snap(cs):
    """languages in order, captions, nodes, styles and layouts"""
    langs = list(cs.get_languages())
    return [langs, [[layout(cs.get_layout_info(l)) if len(cs.get_captions(l)) else None,
                     layout(getattr(cs.get_captions(l), "layout_info", None)),
                     [caption(c) for c in cs.get_captions(l)]] for l in langs],
            [[k, style(v)] for k, v in cs.get_styles()], layout(cs.layout_info)]
