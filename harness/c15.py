"""C15: SCC lines longer than 32 characters are never returned silently."""
from pycaption import SCCReader
from pycaption.exceptions import CaptionLineLengthError, CaptionReadTimingError
from refs import cea608 as c6
from harness.common import node_text

BOUNDS = ("streams of 1..3 cues (pop-on, paint-on, roll-up with and without simulation), each with one or two rows on adjacent or "
          "distant screen rows; row lengths over {1, 31, 32, 33, 34, 45} in every combination; first and last character of "
          "each row symbolic over the CEA-608 basic set; the seconds and frames of each timecode symbolic or chosen so that "
          "starts collide (equal timecodes, offset flooring to zero, one cue split into captions); mid-row italics, "
          "special and extended characters and backspaces inside the counted line; one to four blanks at the left of a row")
OUTSIDE = "streams with more than three cues; the wording of the error beyond containing every offending line"
REACH = ["long", "short", "both", "paint", "roll", "sim", "mixed", "leading"]
CODES = [k for k, v in c6.BASIC.items() if v not in " █"]
CHARS = [c6.BASIC[k] for k in CODES]
LENS = [32, 33, 1, 45]
MORE = [31, 34]


def row(t, i, n):
    """n characters, the first and last symbolic -> (byte codes, text)"""
    a, ca = t.entries(f"first{i}", CODES, CHARS)
    if n == 1:
        return [a], ca
    b, cb = t.entries(f"last{i}", CODES, CHARS)
    fill = ("abcdefghij"[i % 10] + "klm nop q") * 6
    mid = fill[:n - 2]
    return [a] + c6.enc(mid) + [b], ca + mid + cb


def read(t, doc, **kw):
    err = None
    caps = []
    try:
        caps = SCCReader().read(doc, **kw).get_captions("en-US")
    except CaptionLineLengthError as e:
        err = e.args[0]
    except CaptionReadTimingError:
        t.reach("timing")
        return None, None
    return caps, err


def verdict(t, rows, caps, err, exact=True):
    """rows: the transmitted rows"""
    if caps is None:
        bad = [r for r in rows if len(r) > 32]
        t.check("a long line is reported as too long", not bad, detail=lambda: repr(bad))
        return
    if err is None:
        for c in caps:
            for l in node_text(c.nodes).split("\n"):
                t.check("returned line has at most 32 characters", len(l) <= 32, detail=lambda: repr(l))
        t.reach("short")
    if not exact:
        return
    bad = [r for r in rows if len(r) > 32]
    t.check("a line longer than 32 raises the line length error", not (bad and err is None), detail=lambda: repr(bad))
    if not bad:
        t.check("no error for lines of at most 32", err is None, detail=lambda: repr(err))
        return
    t.reach("long")
    if len(bad) < len(rows):
        t.reach("both")
    if err is not None:
        named = err.split("\n")
        for b in bad:
            t.check("every offending line is named", t.any([b in m for m in named]), detail=lambda: f"{b!r} not in {err!r}")
        for r in rows:
            if len(r) <= 32 and len(r) > 1:
                t.check("only offending lines are named", not t.any([r in m for m in named]),
                        detail=lambda: f"{r!r} in {err!r}")


def positions(t, i, n):
    if n == 1:
        return [(14, 0)]
    return t.pick(f"pos{i}", [[(14, 0), (15, 0)], [(3, 4), (12, 0)]], [[(1, 0), (2, 8)]])


def pop(ncues, nrows, times):
    def run(t):
        lines, rows = [], []
        tcs = []
        for i in range(ncues):
            ws = [c6.RCL, c6.RCL, c6.ENM, c6.ENM]
            ps = positions(t, i, nrows)
            for j in range(nrows):
                n = t.pick(f"len{i}.{j}", LENS if ncues * nrows < 3 else LENS[:2], MORE if ncues * nrows < 3 else LENS[2:])
                b, txt = row(t, i * 2 + j, n)
                p = c6.pac(ps[j][0], ps[j][1])
                ws += [p, p] + c6.bytes_of(b)
                rows.append(txt)
            ws += [c6.EDM, c6.EOC]
            if times == "sym":
                s = t.digits(f"sec{i}", 1)
                tcs.append("00:00:1" + s + ":" + t.pick(f"fr{i}", ["00", "07"], ["29"]))
            elif times == "same":
                tcs.append("00:00:01;00")
            else:
                tcs.append(f"00:00:{10 * (ncues - i):02}:00")
            lines.append((tcs[i], ws))
        off = 3600 if times == "offset" else 0
        caps, err = read(t, c6.doc(lines), offset=off)
        verdict(t, rows, caps, err)
    return run


def split(order):
    """one cue whose rows are far apart: several captions with one start"""
    def run(t):
        rs = [(2, 0), (7, 0), (12, 0)]
        ws = [c6.RCL, c6.RCL]
        rows = []
        for j, (r, c) in enumerate(rs):
            n = t.pick(f"len{j}", [32, 33, 40])
            b, txt = row(t, j, n)
            ws += [c6.pac(r, c)] * 2 + c6.bytes_of(b)
            rows.append(txt)
        ws += [c6.EOC, c6.EOC]
        lines = [("00:00:02:00", ws), ("00:00:09:00", [c6.EDM, c6.EDM])]
        if order:
            b, txt = row(t, 5, t.pick("len5", [32, 33]))
            rows.append(txt)
            lines.insert(1, ("00:00:06:00", [c6.RCL, c6.pac(15, 0)] + c6.bytes_of(b) + [c6.EOC]))
        caps, err = read(t, c6.doc(lines))
        verdict(t, rows, caps, err)
    return run


def paint(n):
    def run(t):
        lines, rows = [], []
        for i in range(n):
            ws = [c6.RDC, c6.RDC]
            b, txt = row(t, i, t.pick(f"len{i}", LENS, MORE))
            ws += [c6.pac(14 if i % 2 else 3, 0)] * 2 + c6.bytes_of(b)
            rows.append(txt)
            lines.append(("00:00:0" + t.digits(f"sec{i}", 1) + ":00", ws))
        caps, err = read(t, c6.doc(lines))
        t.reach("paint")
        verdict(t, rows, caps, err)
    return run


def roll(ru, sim, n):
    def run(t):
        lines, rows = [], []
        for i in range(n):
            b, txt = row(t, i, t.pick(f"len{i}", LENS, MORE))
            ws = [ru, ru] if i == 0 else []
            ws += [c6.CR, c6.CR] + [c6.pac(15, 0)] * 2 + c6.bytes_of(b)
            rows.append(txt)
            lines.append((f"00:00:{3 * i + 1:02}:00", ws))
        caps, err = read(t, c6.doc(lines), simulate_roll_up=sim)
        t.reach("sim" if sim else "roll")
        verdict(t, rows, caps, err, exact=not sim)
        if sim:
            t.check("a line longer than 32 raises the line length error",
                    not (err is None and caps is not None and any(len(r) > 32 for r in rows)))
    return run


SP_CODES, SP_CHARS = list(c6.SPECIAL), list(c6.SPECIAL.values())
SP_CODES.remove(c6.w(0x11, 0x39)), SP_CHARS.remove(" ")
EX_CODES = [k for k, v in c6.EXT.items() if v not in "'’|¦"]
EX_CHARS = [c6.EXT[k] for k in EX_CODES]


def mixed(kind):
    """the 32 characters include other codes"""
    def run(t):
        n = t.pick("n", [14, 15, 16])
        head, htxt = c6.enc("a" * 15 + "b"), "a" * 15 + "b"
        tail = c6.enc("c" * n)
        if kind == "italics":
            mid, mtxt = [c6.midrow(italics=True)], " "
            plus = 1
        elif kind == "special":
            s, ch = t.entries("sp", SP_CODES, SP_CHARS)
            mid, mtxt = [s, s], ch
        elif kind == "extended":
            s, ch = t.entries("ex", EX_CODES, EX_CHARS)
            mid, mtxt = ["61" + "80", s, s], ch
        elif kind == "bs":
            x, _ = t.entries("x", CODES, CHARS)
            mid, mtxt = [x + "80", c6.BS, c6.BS], ""
        else:
            mid, mtxt = ["20" + "20"], "  "
            tail = c6.enc(" " * n)
        txt = (htxt + mtxt + "c" * n) if kind != "trail" else htxt
        ws = [c6.RCL, c6.RCL, c6.pac(13, 0)] + c6.bytes_of(head) + mid + c6.bytes_of(tail) + [c6.EOC, c6.EOC]
        caps, err = read(t, c6.doc([("00:00:01:00", ws), ("00:00:05:00", [c6.EDM, c6.EDM])]))
        t.reach("mixed")
        bad = len(txt) > 32
        t.check("error exactly when the decoded line is too long", (err is not None) == bad,
                detail=lambda: f"{len(txt)} {txt!r} {err!r}")
        if err is not None and bad:
            t.check("every offending line is named", t.any([txt in m for m in err.split("\n")]), detail=lambda: repr(err))
        if err is None:
            for c in caps:
                for l in node_text(c.nodes).split("\n"):
                    t.check("returned line has at most 32 characters", len(l) <= 32, detail=lambda: repr(l))
    return run


def leading(kind):
    """blanks at the left of a row take columns like every other character"""
    def run(t):
        k = t.pick("blanks", [2, 1], [0, 4])
        n = t.pick("len", [32, 31, 33, 30], [28, 29])
        b, txt = row(t, 0, n)
        other, otxt = row(t, 1, 10)
        rows = [" " * k + txt, otxt] if kind == "first" else [otxt, " " * k + txt]
        codes = [["20"] * k + b, other] if kind == "first" else [other, ["20"] * k + b]
        mode = {"first": c6.RCL, "second": c6.RCL, "paint": c6.RDC}[kind]
        ws = [mode, mode]
        for j, c in enumerate(codes):
            p = c6.pac(13 + j, 0)
            ws += [p, p] + c6.bytes_of(c)
        lines = [("00:00:01:00", ws + [c6.EOC, c6.EOC] * (kind != "paint")), ("00:00:05:00", [c6.EDM, c6.EDM])]
        caps, err = read(t, c6.doc(lines))
        t.reach("leading")
        verdict(t, rows, caps, err)
    return run


def scenarios(tier):
    out = [(f"leading-{k}-{tier}", leading(k)) for k in ("first", "second", "paint")]
    for n, r, tm in [(1, 1, "sym"), (2, 1, "sym"), (2, 1, "same"), (2, 1, "rev"), (2, 1, "offset"), (1, 2, "sym"), (2, 2, "sym"),
                     (2, 2, "same")]:
        out.append((f"pop-{n}x{r}-{tm}-{tier}", pop(n, r, tm)))
    if tier != "quick":
        out.append((f"pop-3x1-offset-{tier}", pop(3, 1, "offset")))
        out.append((f"pop-3x2-same-{tier}", pop(3, 2, "same")))
    out.append((f"split-{tier}", split(False)))
    out.append((f"split-between-{tier}", split(True)))
    out.append((f"paint2-{tier}", paint(2)))
    for ru, nm in ((c6.RU2, "ru2"), (c6.RU4, "ru4")):
        for sim in (False, True):
            out.append((f"roll-{nm}-{'sim' if sim else 'plain'}-{tier}", roll(ru, sim, 2 if tier == "quick" else 3)))
    for k in ("italics", "special", "extended", "bs", "trail"):
        out.append((f"mixed-{k}-{tier}", mixed(k)))
    return out
