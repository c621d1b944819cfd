"""C06: SCC captions appear and disappear at the frames their commands are sent."""
from pycaption import SCCReader
from pycaption.exceptions import CaptionReadTimingError
from refs import cea608 as c6
from harness.common import node_text

BOUNDS = ("streams of 1..3 pop-on cues (thorough 1..4); timecodes symbolic (hours 0..23, minutes, seconds, frames 0..29, drop "
          "and non-drop; hour and minute common to all lines, except for single cues and in the thorough tier), lines not overlapping in transmission; the cue cleared by a separate EDM line, by EDM in the next cue's line, "
          "by the next EOC, by a standalone EOC, or never; codes single or doubled; loading and EOC in one or in two lines; "
          "offset symbolic -2 h .. 2 h (whole, half, eighth and quarter seconds); cues with two captions (rows far apart)")
OUTSIDE = ("timecodes whose line starts before the words of the previous line are all sent; cues whose end lies at or before the "
           "configured offset; a gap of exactly five frames (the statement says shorter; frames differ by 1/1000 between the time bases)")
ASSUMPTIONS = ["times are compared with a tolerance of 1 microsecond (the reader computes in floats)"]
REACH = ["edm", "edm-same", "eoc", "never", "floored", "flash", "closed", "kept-gap", "two-lines", "standalone", "fraction"]
TOL = 1


def tc(t, i, sep, hm):
    """a symbolic timecode -> (text, total frames); hm: the hour and minute shared by all lines, or None"""
    h, m = hm or (t.int(f"h{i}", 0, 23), t.int(f"m{i}", 0, 59))
    s, f = t.int(f"s{i}", 0, 59), t.int(f"f{i}", 0, 29)
    return f"{h:02}:{m:02}:{s:02}{sep}{f:02}", ((h * 60 + m) * 60 + s) * 30 + f


def load(t, i, dbl, two, nk):
    d = (lambda x: [x, x]) if dbl else (lambda x: [x])
    k = t.pick(f"text{i}", [2, 1] if i == 0 and nk < 3 else [2], [9])
    name = "abcdefgh"[i]
    ws = d(c6.RCL) + d(c6.ENM) + d(c6.pac(14, 0)) + c6.bytes_of(c6.enc(name * 2 * k))
    if two:
        ws += d(c6.pac(3, 4)) + c6.bytes_of(c6.enc(name + "2"))
    return ws


def near(x, num, den, tol=TOL):
    """|x - num/den| <= tol"""
    d = x * den - num
    return (d <= tol * den) and (-tol * den <= d)


def run_stream(kinds, dbl, split, two, free):
    """kinds: how cue i is cleared: edm | same | eoc | never | standalone"""
    def run(t):
        sep, with_off = t.pick("sep", 
                               [(":", True), (";", False)], [(":", False), (";", True)])
        d = (lambda x: [x, x]) if dbl else (lambda x: [x])
        lines = []          # (timecode, words, F)
        events = []         # ("on"/"off", line index, word index)
        nt = 0
        hm = None if free else (t.int("h", 0, 23), t.int("m", 0, 59))

        def add(ws, evs):
            nonlocal nt
            stamp, F = tc(t, nt, sep, hm)
            nt += 1
            if lines:
                t.assume(F >= lines[-1][2] + len(lines[-1][1]))
            lines.append((stamp, ws, F))
            for kind, ix in evs:
                events.append((kind, F + ix))
        for i, kind in enumerate(kinds):
            ws = load(t, i, dbl, two, len(kinds))
            same = i > 0 and kinds[i - 1] == "same"
            if split:
                add(ws, [])
                ws = []
                t.reach("two-lines")
            evs = []
            if same:
                evs.append(("off", len(ws)))
                ws = ws + d(c6.EDM)
            evs.append(("on", len(ws)))
            ws = ws + d(c6.EOC)
            add(ws, evs)
            if kind == "edm":
                add(d(c6.EDM), [("off", 0)])
                t.reach("edm")
            elif kind == "standalone":
                add([c6.RCL] * 2 + d(c6.EOC), [("off", 2)])
                t.reach("standalone")
            elif kind == "same":
                t.reach("edm-same")
            elif kind == "eoc":
                t.reach("eoc")
            else:
                t.reach("never")
        off = whole = t.int("offset", -7200, 7200) if with_off else 0
        part = t.pick("part", [0, 0.5] if len(kinds) == 1 else [0], [0.125, 0.75]) if with_off else 0
        if part:
            off = off + part
            t.reach("fraction")
        # instants in units of 1/3 microsecond: frame = 100100/3 us (non-drop) or 100000/3 us (drop)
        unit = 100100 if sep == ":" else 100000

        def at(F):
            return F * unit - whole * 3000000 - int(part * 3000000)

        def floor0(v):
            t.assume(v < -6 or v > 6)
            if v < 0:
                t.reach("floored")
                return 0
            return v
        cues = []
        shown = None
        for kind, F in events:
            T = floor0(at(F))
            if shown is not None:
                shown[1] = T
                t.assume(T > 0)
            shown = None
            if kind == "on":
                shown = [T, None]
                cues.append(shown)
        five = 5 * unit
        for a, b in zip(cues, cues[1:]):
            if a[1] is not None:
                gap = b[0] - a[1]
                # exactly five frames may go either way, whichever time base is used for the frame
                t.assume(gap < 500000 - 3 or gap > 500500 + 6)
                if gap < 500000:
                    if gap > 0:
                        t.reach("closed")
                    a[1] = b[0]
                else:
                    t.reach("kept-gap")
        flash = False
        for a in cues:
            if a[1] is not None:
                dur = a[1] - a[0]
                t.assume(dur < 150000 - 6 or dur > 150000 + 6)
                t.assume(dur > 6)
                if dur < 150000:
                    flash = True
        doc = c6.doc([(s, w) for s, w, _ in lines])
        err = None
        caps = []
        try:
            caps = SCCReader().read(doc, offset=off).get_captions("en-US")
        except CaptionReadTimingError as e:
            err = e
        if flash:
            t.reach("flash")
            t.check("a displayed duration under 0.05 s is rejected", err is not None)
            return
        t.check("no timing error", err is None, detail=lambda: repr(err))
        if err is not None:
            return
        per = 2 if two else 1
        t.check("one caption per cue and position", len(caps) == per * len(cues),
                detail=lambda: [(c.start, c.end, node_text(c.nodes)) for c in caps])
        if len(caps) != per * len(cues):
            return
        for j, c in enumerate(caps):
            S, E = cues[j // per]
            if E is None:
                E = S + 12000000
            t.check("captions come out in transmission order", node_text(c.nodes)[:1] == "abcdefgh"[j // per],
                    detail=lambda: [node_text(c.nodes) for c in caps])
            t.check("start is the instant of EOC", near(c.start, S, 3), detail=lambda: f"{c.start!r} expected {S}/3")
            t.check("end is the instant of the clearing code", near(c.end, E, 3), detail=lambda: f"{c.end!r} expected {E}/3")
            t.check("start <= end", c.start <= c.end, detail=lambda: f"{c.start!r} {c.end!r}")
    return run


def scenarios(tier):
    out = []
    ks = ["edm", "same", "eoc", "never", "standalone"]

    def add(kinds, dbl, split=False, two=False, free=False):
        nm = "-".join(kinds) + ("-dbl" if dbl else "-sgl") + ("-split" if split else "") + ("-two" if two else "")
        out.append((f"{nm}{'-free' if free else ''}-{tier}", run_stream(kinds, dbl, split, two, free)))
    for dbl in (False, True):
        add(["never"], dbl, free=True)
        add(["edm"], dbl, free=True)
        add(["edm"], dbl)
        add(["edm", "never"], dbl)
        add(["same", "edm"], dbl)
        add(["eoc", "never"], dbl)
    add(["standalone", "edm"], True)
    add(["edm", "eoc", "never"], True)
    add(["same", "eoc", "edm"], False)
    add(["edm", "never"], True, split=True)
    add(["same", "never"], False, split=True)
    add(["edm", "never"], True, two=True)
    add(["eoc", "edm"], False, two=True)
    if True:
        for dbl in (False, True):
            add(["edm", "never"], dbl, free=True)
            add(["same", "edm"], dbl, free=True)
            add(["eoc", "never"], dbl, free=True)
    if tier != "quick":
        for a in ("edm", "same", "eoc", "standalone"):
            for b in ("edm", "same", "eoc"):
                for c in ("never", "edm"):
                    for dbl in (False, True):
                        if a == "standalone" and not dbl:
                            continue
                        add([a, b, c], dbl)
        add(["edm", "same", "eoc", "never"], True)
        add(["edm", "edm", "edm", "edm"], False)
        add(["eoc", "eoc", "same", "never"], True, split=True, two=True)
    seen, res = set(), []
    for n, f in out:
        if n not in seen:
            seen.add(n)
            res.append((n, f))
    return res
