"""C02: every writer writes each caption's start and end, truncated to the format's resolution."""
from harness.common import DAY, WRITERS, mk, writer
from refs import samip, srtp, ttml, vttp
from refs.common import clean_lines

BOUNDS = ("1 caption with fully symbolic integer start and end in [0, 24h) per writer; chains of 3 captions with symbolic "
          "times (equal, touching, gapped) and 2 languages; non-integer times in hundredths of a microsecond")
OUTSIDE = ("SAMI with captions of one language that overlap in time (the format cannot express them); float times "
           "other than k/100")
REACH = WRITERS + ["merged", "blank", "noblank", "hour"]


def ms(us):
    return us // 1000 * 1000


def read_cues(name, doc):
    """-> list of lists of cues (one list per language), times in microseconds (MicroDVD: frames)."""
    if name == "srt":
        return srtp.parse_multi(doc)
    if name == "webvtt":
        return [vttp.parse(doc)]
    if name == "microdvd":
        return [srtp.parse_microdvd(doc)]
    return [c for _, c, _ in ttml.parse(doc).divs]


def frames(us):
    return us * 25 // 1000000


def match(t, name, cues, caps, conv, may_merge):
    """caps: list of (start, end, text line)"""
    i = 0
    for cue in cues:
        lines = clean_lines(cue.lines)
        n = len(lines)
        t.check(f"{name}: one cue per caption, in order",
                n >= 1 and lines == [c[2] for c in caps[i:i + n]] and (n == 1 or may_merge))
        if not (n >= 1 and i + n <= len(caps)):
            return
        t.check_eq(f"{name}: start", cue.start, conv(caps[i][0]))
        t.check_eq(f"{name}: end", cue.end, conv(caps[i][1]))
        for k in range(1, n):
            t.check(f"{name}: merged captions share their times",
                    t.all([caps[i + k][0] == caps[i][0], caps[i + k][1] == caps[i][1]]))
            t.reach("merged")
        i += n
    t.check(f"{name}: every caption is written", i == len(caps))


def check_sami(t, doc, caps):
    d = samip.parse(doc)
    got = []
    for tm, ps in d.syncs:
        for p in ps:
            txt = clean_lines(samip.par_text(p))
            got.append([tm, txt[0] if txt else ""])
    exp = []
    for i, (s, e, x) in enumerate(caps):
        exp.append([s // 1000, x])
        if i + 1 < len(caps) and e // 1000 != caps[i + 1][0] // 1000:
            exp.append([e // 1000, ""])
            t.reach("blank")
        elif i + 1 < len(caps):
            t.reach("noblank")
    t.check_eq("sami: paragraphs", [g[1] for g in got], [g[1] for g in exp])
    t.check_eq("sami: sync times", [g[0] for g in got], [g[0] for g in exp])


def verify(t, name, doc, caps):
    t.observe("doc", doc)
    if name == "sami":
        check_sami(t, doc, caps)
    else:
        conv = frames if name == "microdvd" else ms
        got = read_cues(name, doc)
        t.check(f"{name}: one list", len(got) == 1)
        match(t, name, got[0], caps, conv, name in ("srt", "dfxp-legacy", "dfxp-single"))
    t.reach(name)


def single(name):
    def run(t):
        s = t.int("s", 0, DAY - 1)
        e = t.int("e", 0, DAY - 1)
        t.assume(s <= e)
        if name == "microdvd":
            # symbolic digit counts are explored through the interval of the start
            lo, hi = t.pick("mag", [(0, 400000), (400000, 40000000), (40000000, 4000000000), (4000000000, DAY)])
            t.assume(s >= lo)
            t.assume(s < hi)
        caps = [(s, e, "x")]
        if name == "sami":
            # a second caption makes the first one's end visible
            s2 = t.int("s2", 0, DAY - 1)
            t.assume(s2 >= e)
            caps.append((s2, s2, "y"))
            for v in (s, e, s2):
                lo, hi = t.pick("mag", [(0, DAY)])
                t.assume(v >= lo)
        doc = writer(name).write(mk([(a, b, [x]) for a, b, x in caps]))
        verify(t, name, doc, caps)
        t.reach("hour")
    return run


def chain(name):
    """Three captions, symbolic times; each successor equal to, touching, or after its predecessor."""
    def run(t):
        caps = []
        for i, x in enumerate("xyz"):
            if caps:
                rel = t.pick("rel", ["same", "touch", "gap", "near"])
                if rel == "same" and name == "sami":
                    rel = "touch"
                ps, pe, _ = caps[-1]
                if rel == "same":
                    s, e = ps, pe
                else:
                    if rel == "touch":
                        s = pe
                    elif rel == "near":
                        s = pe + t.int(f"g{i}", 0, 1500)
                    else:
                        s = pe + t.int(f"g{i}", 0, 10 ** 9)
                    e = s + t.int(f"d{i}", 0, 10 ** 9)
            else:
                s = t.int("s", 0, 3 * 10 ** 9)
                e = s + t.int("d", 0, 10 ** 9)
            caps.append((s, e, x))
        if name == "microdvd":
            t.assume(caps[0][0] >= 40000000)
            t.assume(caps[-1][1] < 400000000)
        if name == "sami":
            t.assume(caps[0][0] >= 100000000)
            t.assume(caps[-1][1] < 1000000000)
        doc = writer(name).write(mk([(a, b, [x]) for a, b, x in caps]))
        verify(t, name, doc, caps)
    return run


def sami_zero(t):
    """The first caption ends in the first millisecond."""
    e = t.int("e", 0, 1999)
    s2 = t.int("s2", 2000, 9999)
    caps = [(0, e, "x"), (s2, s2 + 1000000, "y")]
    verify(t, "sami", writer("sami").write(mk([(a, b, [x]) for a, b, x in caps])), caps)


def fractional(name):
    """Times that are not whole microseconds (as SCC reading returns them)."""
    def run(t):
        # MicroDVD: whole-valued floats (two roundings on k/100 are beyond the solver)
        pl = 0 if name == "microdvd" else 2
        s = t.dec("s", 10 ** 6 * 10 ** pl, 9 * 10 ** 8 * 10 ** pl, pl)
        e = t.dec("e", 9 * 10 ** 8 * 10 ** pl, 9 * 10 ** 9 * 10 ** pl, pl)
        doc = writer(name).write(mk([(s, e, ["x"]), (e, e + 1000000, ["y"])]))
        t.observe("doc", doc)
        if name == "sami":
            try:
                d = samip.parse(doc)
            except samip.FormatError as ex:
                t.fail("sami: integer fields", str(ex))
                return
            got = [tm * 1000 for tm, ps in d.syncs]
        else:
            got = [c.start for c in read_cues(name, doc)[0]]
        t.check(f"{name}: cue count", len(got) == 2)
        for v, g in zip((s, e), got):
            if name == "microdvd":
                t.check(f"{name}: fractional time", t.all([g * 40000 <= v, v < g * 40000 + 40000]))
            else:
                # truncation, after rounding to a whole microsecond at most
                t.check(f"{name}: fractional time", t.all([g * 1 <= v + 1, v < g + 1000]))
        t.reach(name)
    return run


def two_langs(name):
    def run(t):
        a = [t.int("a0", 0, 10 ** 9), t.int("a1", 10 ** 9, 2 * 10 ** 9), t.int("a2", 10 ** 10, 2 * 10 ** 10)]
        b = [t.int("b0", 0, 10 ** 9), t.int("b1", 10 ** 9, 2 * 10 ** 9)]
        if name == "microdvd":
            t.assume(a[0] >= 4 * 10 ** 7)
            t.assume(a[0] < 4 * 10 ** 8)
            t.assume(b[0] >= 4 * 10 ** 7)
            t.assume(b[0] < 4 * 10 ** 8)
        la = [(a[0], a[1], "x"), (a[1], a[2], "y")]
        lb = [(b[0], b[1], "v"), (b[1], a[2], "w")]
        doc = writer(name).write(mk({"en": [(s, e, [x]) for s, e, x in la], "fr": [(s, e, [x]) for s, e, x in lb]}))
        t.observe("doc", doc)
        got = read_cues(name, doc)
        mm = name in ("srt", "dfxp-legacy", "dfxp-single")
        conv = frames if name == "microdvd" else ms
        if name == "microdvd":
            match(t, name, got[0], la + lb, conv, mm)
        elif name == "webvtt":
            match(t, name, got[0], la, conv, mm)
        else:
            t.check(f"{name}: two languages", len(got) == 2)
            match(t, name, got[0], la, conv, mm)
            match(t, name, got[1], lb, conv, mm)
    return run


def scenarios(tier):
    out = []
    for w in WRITERS:
        out.append((f"single-{w}", single(w)))
        out.append((f"chain-{w}", chain(w)))
        out.append((f"frac-{w}", fractional(w)))
        if w != "sami":
            out.append((f"langs-{w}", two_langs(w)))
    out.append(("sami-zero", sami_zero))
    return out
