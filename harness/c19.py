"""C19: timing adjustment and concurrent-caption merging keep all text in order."""
from pycaption import Caption, CaptionList, CaptionNode, CaptionSet
from pycaption.base import merge_concurrent_captions
from harness.common import DAY
from pycaption.geometry import Layout, Alignment, Point, Size, UnitEnum

BOUNDS = ("1..4 captions (thorough 1..5) in one language and 2+3 in two, every start and end symbolic over the whole day in "
          "microseconds (so every pattern of equal and different times is covered), node lists drawn from six shapes "
          "(text, breaks, styles, layouts, leading/trailing breaks, empty text, style only); rate skew symbolic k/8 in 0..4 "
          "(including 0) and as constants, offset symbolic over +-1 day, each alone and together, keyword and positional; two "
          "adjustments in a row; the merge repeated")
OUTSIDE = ("adjusted starts whose exact value is zero under an inexact skew (1.1, 24/25, 1.001); "
           "negative rate skews")
REACH = ["adjust", "dropped", "kept", "merge", "run2", "run3", "single", "bilingual", "twice"]


def shape(i, tag):
    T, B, S = CaptionNode.create_text, CaptionNode.create_break, CaptionNode.create_style
    lay = Layout(alignment=Alignment.from_horizontal_and_vertical_align("left", "top"))
    if i == 0:
        return [T(tag)]
    if i == 1:
        return [S(True, {"italics": True}), T(tag), S(False, {"italics": True})]
    if i == 2:
        return [T(tag), B(), T(tag + "b", layout_info=lay)]
    if i == 3:
        return [B(), T(tag)]
    if i == 4:
        return [T(tag), B()]
    if i == 5:
        return [T("")]
    return [S(True, {"class": tag}), S(False, {"class": tag})]


def desc(n):
    return (n.type_, n.content, n.start, n.layout_info)


def build(t, spec, shapes, lang_shift=""):
    """spec: number of captions; returns (CaptionList, [(start, end, [node descriptions])])"""
    lst = CaptionList()
    model = []
    for i in range(spec):
        s = t.int("start", 0, DAY)
        e = t.int("end", 0, DAY)
        nodes = shape(shapes[i], f"w{lang_shift}{i}")
        cap = Caption(s, e, nodes, style={"class": f"c{i}"})
        lst.append(cap)
        model.append((s, e, [desc(n) for n in nodes]))
    return lst, model


def compare(t, label, caps, want):
    t.check(f"{label}: caption count", len(caps) == len(want), detail=f"{len(caps)} captions, expected {len(want)}")
    if len(caps) != len(want):
        return
    for c, (s, e, ns) in zip(caps, want):
        t.check_eq(f"{label}: start", c.start, s)
        t.check_eq(f"{label}: end", c.end, e)
        t.check(f"{label}: nodes", [desc(n) for n in c.nodes] == ns, detail=lambda: repr([desc(n) for n in c.nodes]))


def adjusted(t, model, skew, off):
    want = []
    for s, e, ns in model:
        ns_, ne = s * skew + off, e * skew + off
        if ns_ >= 0:
            want.append((ns_, ne, ns))
            t.reach("kept")
        else:
            t.reach("dropped")
    return want


def adjust(n, mode):
    def run(t):
        k = t.choice("shapes", 3)
        lst, model = build(t, n, [(k * 2 + i) % 7 for i in range(n)])
        cs = CaptionSet({"en": lst}, styles={})
        skew, off = 1.0, 0
        if mode in ("skew", "both", "positional"):
            skew = t.int("skew", 0, 32) / 8
        if mode == "const":
            skew, p, q = t.pick("skew", [(1.1, 11, 10), (24 / 25, 24, 25), (1001 / 1000.0, 1001, 1000), (2, 2, 1), (0, 0, 1)])
        if mode in ("offset", "both", "positional", "const"):
            off = t.int("offset", -DAY, DAY)
        if mode == "const" and q > 1:
            # which side of zero an inexact skew rounds to is not part of the property (the exact skews cover zero itself)
            for s, e, _ in model:
                t.assume(s * p + off * q != 0)
        if mode == "none":
            cs.adjust_caption_timing()
        elif mode == "skew":
            cs.adjust_caption_timing(rate_skew=skew)
        elif mode == "offset":
            cs.adjust_caption_timing(offset=off)
        elif mode == "positional":
            cs.adjust_caption_timing(off, skew)
        else:
            cs.adjust_caption_timing(offset=off, rate_skew=skew)
        want = adjusted(t, model, skew, off)
        compare(t, "adjust", cs.get_captions("en"), want)
        t.reach("adjust")
    return run


def adjust_twice(t):
    lst, model = build(t, 2, [0, 2])
    cs = CaptionSet({"en": lst}, styles={})
    o1 = t.int("o1", -DAY, DAY)
    o2 = t.int("o2", -DAY, DAY)
    k = t.pick("skew", [1.0, 1.25])
    cs.adjust_caption_timing(offset=o1, rate_skew=k)
    cs.adjust_caption_timing(offset=o2)
    want = adjusted(t, adjusted(t, model, k, o1), 1.0, o2)
    compare(t, "adjust twice", cs.get_captions("en"), want)
    t.reach("twice")


def adjust_bilingual(t):
    a, ma = build(t, 2, [0, 1], "a")
    b, mb = build(t, 1, [2], "b")
    cs = CaptionSet({"fr": a, "en": b}, styles={})
    off = t.int("offset", -DAY, DAY)
    cs.adjust_caption_timing(off)
    t.check("languages", cs.get_languages() == ["fr", "en"])
    compare(t, "fr", cs.get_captions("fr"), adjusted(t, ma, 1.0, off))
    compare(t, "en", cs.get_captions("en"), adjusted(t, mb, 1.0, off))
    t.reach("bilingual")


def merged(t, model):
    want = []
    i = 0
    while i < len(model):
        j = i + 1
        while j < len(model) and model[j][0] == model[i][0] and model[j][1] == model[i][1]:
            j += 1
        nodes = list(model[i][2])
        for k in range(i + 1, j):
            nodes = nodes + [desc(CaptionNode.create_break())] + model[k][2]
        want.append((model[i][0], model[i][1], nodes))
        t.reach({1: "single", 2: "run2"}.get(j - i, "run3"))
        i = j
    return want


def merge(n):
    def run(t):
        k = t.choice("shapes", 7)
        lst, model = build(t, n, [(k + i * 2) % 7 for i in range(n)])
        cs = CaptionSet({"en": lst}, styles={})
        out = merge_concurrent_captions(cs)
        want = merged(t, model)
        t.check("merge returns a caption set", isinstance(out, CaptionSet))
        compare(t, "merge", out.get_captions("en"), want)
        again = merge_concurrent_captions(out)
        compare(t, "merge again", again.get_captions("en"), want)
        t.reach("merge")
    return run


def merge_bilingual(t):
    a, ma = build(t, 2, [0, 3], "a")
    b, mb = build(t, 2, [2, 4], "b")
    cs = CaptionSet({"fr": a, "de": CaptionList(), "en": b}, styles={})
    out = merge_concurrent_captions(cs)
    t.check("languages", out.get_languages() == ["fr", "de", "en"])
    compare(t, "fr", out.get_captions("fr"), merged(t, ma))
    compare(t, "en", out.get_captions("en"), merged(t, mb))
    compare(t, "de", out.get_captions("de"), [])
    t.reach("bilingual")


def both(t):
    """adjusting and merging in either order gives the same cues when nothing is dropped"""
    lst, model = build(t, 2, [0, 1])
    cs = CaptionSet({"en": lst}, styles={})
    off = t.int("offset", -DAY, DAY)
    k = t.pick("skew", [1.0, 0.5])
    cs.adjust_caption_timing(off, k)
    out = merge_concurrent_captions(cs)
    compare(t, "adjust, merge", out.get_captions("en"), merged(t, adjusted(t, model, k, off)))


def scenarios(tier):
    q = tier == "quick"
    out = []
    for mode in ("none", "skew", "offset", "both", "positional", "const"):
        n = {"both": 2, "positional": 2, "const": 1}.get(mode, 3) + (0 if q else 1)
        out.append((f"adjust-{mode}-{n}", adjust(n, mode)))
    n = 4 if q else 6
    out.append((f"adjust-long-{n}", adjust(n, "offset")))
    out += [("adjust-twice", adjust_twice), ("adjust-bilingual", adjust_bilingual), ("merge-bilingual", merge_bilingual),
            ("adjust-merge", both)]
    for n in range(1, 5 if q else 7):
        out.append((f"merge-{n}", merge(n)))
    return out
