"""Helpers shared by the harnesses."""
from pycaption import (Caption, CaptionList, CaptionNode, CaptionSet, DFXPReader, DFXPWriter, MicroDVDReader,
                       MicroDVDWriter, SAMIReader, SAMIWriter, SCCReader, SCCWriter, SRTReader, SRTWriter,
                       WebVTTReader, WebVTTWriter)
from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter
from pycaption.geometry import Layout, Alignment, Point, Stretch, Padding, Size, UnitEnum
from refs.common import clean_lines, norm_line

DAY = 86400 * 1000000


def lines_to_nodes(lines):
    nodes = []
    for i, l in enumerate(lines):
        if i:
            nodes.append(CaptionNode.create_break())
        if l is not None:
            nodes.append(CaptionNode.create_text(l))
    return nodes


def mk(caps, lang="en-US"):
    """caps: list of (start, end, lines-or-nodes) or {lang: list}"""
    if not isinstance(caps, dict):
        caps = {lang: caps}
    out = {}
    for l, cs in caps.items():
        lst = CaptionList()
        for c in cs:
            nodes = c[2]
            if nodes and (nodes[0] is None or isinstance(nodes[0], str)):
                nodes = lines_to_nodes(nodes)
            lst.append(Caption(c[0], c[1], nodes, style={}))
        out[l] = lst
    return CaptionSet(out, styles={})


def writer(name, **kw):
    if name == "srt":
        return SRTWriter(**kw)
    if name == "webvtt":
        return WebVTTWriter(**kw)
    if name == "dfxp":
        return DFXPWriter(**kw)
    if name == "dfxp-legacy":
        return LegacyDFXPWriter(**kw)
    if name == "dfxp-single":
        return SinglePositioningDFXPWriter(Layout(), **kw)
    if name == "sami":
        return SAMIWriter(**kw)
    if name == "microdvd":
        return MicroDVDWriter(**kw)
    if name == "scc":
        return SCCWriter(**kw)
    raise KeyError(name)


def reader(name):
    return {"srt": SRTReader, "webvtt": WebVTTReader, "dfxp": DFXPReader, "sami": SAMIReader,
            "microdvd": MicroDVDReader, "scc": SCCReader}[name]()


WRITERS = ["srt", "webvtt", "dfxp", "dfxp-legacy", "dfxp-single", "sami", "microdvd"]
DFXPS = ["dfxp", "dfxp-legacy", "dfxp-single"]


def node_text(nodes):
    """display text of a node list, lines joined with newlines"""
    out = []
    for n in nodes:
        if n.type_ == CaptionNode.TEXT:
            out.append(n.content)
        elif n.type_ == CaptionNode.BREAK:
            out.append("\n")
    return "".join(out)


def cap_lines(cap):
    return clean_lines(node_text(cap.nodes).split("\n"))
