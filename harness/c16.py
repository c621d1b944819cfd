"""C16: roll-up and paint-on SCC text is conserved and ordered."""
from pycaption import SCCReader
from refs import cea608 as c6
from harness.sccprog import PRINT, Row, SOME_BASIC, SOME_EXT, SOME_SPECIAL, cap_rows, same_row

BOUNDS = ("roll-up streams of depth 2, 3 and 4 and paint-on streams of 1..4 rows (thorough 6), each row of up to 2 (3) items (basic, special, "
          "extended characters, spaces, mid-row codes) with symbolic characters out of the whole tables or a few of every class; base row the "
          "same or another for every row, mode and depth repeated on every line, once, or changed; carriage return before or after the row, "
          "on its own line or several rows on one line; paint-on loads of one or two rows; drop and non-drop timecodes, symbolic, with any gap "
          "that leaves room for the words; control codes single or doubled")
OUTSIDE = ("simulate_roll_up (it repeats rows on purpose); backspace; rows whose words overrun the next timecode; captions shorter than 0.05 s, "
           "which the reader rejects; streams mixing pop-on with the other modes")
ASSUMPTIONS = ["captions of one paint-on load (rows that are not adjacent) share their times; a group of them counts as one caption in the order"]
REACH = ["roll2", "roll3", "roll4", "paint", "base-moved", "depth-changed", "drop", "special", "ext", "two-rows", "one-line", "mode-once"]
FULL = (PRINT, c6.SPECIAL, c6.EXT)
SOME = (SOME_BASIC, SOME_SPECIAL, SOME_EXT)
RU = {2: c6.RU2, 3: c6.RU3, 4: c6.RU4}


def stamp(t, i, sep, base):
    """seconds and frames of line i, symbolic; all lines in the same minute"""
    s, f = t.int(f"s{i}", 10, 59), t.int(f"f{i}", 10, 29)
    return f"{base}:{s:02}{sep}{f:02}", s * 30 + f


def judge(t, lines, rows):
    """lines: [(timecode, words)]; rows: the rows transmitted, in order"""
    doc = c6.doc(lines)
    caps = SCCReader().read(doc).get_captions("en-US")
    got = []
    for c in caps:
        got += [r for r in cap_rows(t, c.nodes) if any([ch != " " for ch, _ in r])]
    t.check("every row once, in the order of transmission", len(got) == len(rows), detail=lambda: [doc, [c.nodes for c in caps]])
    if len(got) == len(rows):
        for a, r in zip(got, rows):
            same_row(t, a, r.cells, "the characters of a row", italics=False)
    prev = None
    for c in caps:
        t.check("start < end", c.start < c.end, detail=lambda: [doc, c.start, c.end])
        if prev is not None and not (prev.start == c.start and prev.end == c.end):
            t.check("captions in the order of their starts", prev.start < c.start, detail=lambda: [doc, prev.start, c.start])
            t.check("a caption ends when the next one begins", prev.end == c.start, detail=lambda: [doc, prev.end, c.start])
        prev = c
    return caps


ITEMS = ["half", "pair", "special", "ext", "ext2", "spaced", "before", "on", "off"]


def fill(t, r, n, kinds, tag):
    for k in range(n):
        x = kinds[t.choice(f"{tag}{k}", len(kinds))]
        r.do(x)
        if x in ("special", "ext"):
            t.reach(x)
    r.lit("qrstuvwx"[len(tag) % 8] + "z")


class Clock:
    def __init__(self, t, free, sep):
        self.t, self.free, self.sep, self.i, self.last = t, free, sep, 0, None
        if sep == ";":
            t.reach("drop")

    def line(self, ws):
        i = self.i
        self.i += 1
        if self.free:
            tc, F = stamp(self.t, i, self.sep, "00:00")
            if self.last is not None:
                self.t.assume(F >= self.last)
        else:
            tc, F = f"00:00:{10 + 3 * i}{self.sep}{(7 * i) % 30:02}", (10 + 3 * i) * 30 + (7 * i) % 30
        self.last = F + len(ws)
        return tc, ws


def roll(depth, n, m, kinds, dbl, how, free=False, sep=":", tables=SOME, move=True):
    """how: what each line repeats"""
    def fn(t):
        clock = Clock(t, free, sep)
        d = (lambda *x: list(x) * 2) if dbl else (lambda *x: list(x))
        t.reach(f"roll{depth}")
        rows, lines, pend = [], [], []
        for k in range(n):
            r = Row(t, "abcdefgh"[k], dbl, tables)
            base = 15 if not move else (15, 14, 2)[t.choice(f"base{k}", 3 if k < 2 else 2)]
            if rows and base != rows[-1].row:
                t.reach("base-moved")
            dep = depth
            if how == "depth" and k:
                dep = 2 + t.choice(f"depth{k}", 3)
                if dep != depth:
                    t.reach("depth-changed")
            r.pac(base, 4 if move and t.flag(f"ind{k}") else 0, 1 if k == 1 and move else 0)
            pre = r.words
            r.words = []
            fill(t, r, m, kinds, "i" * (k + 1))
            ru = d(RU[dep])
            if how == "mode-once":
                t.reach("mode-once")
                ws = (ru if k == 0 else []) + d(c6.CR) + pre + r.words
            elif how == "cr-last":
                ws = (ru if k == 0 else []) + pre + r.words + d(c6.CR)
            elif how == "no-pac":
                ws = (ru + d(c6.CR) + pre if k == 0 else d(c6.CR)) + r.words
                if k:
                    r.row = rows[-1].row
            else:
                ws = ru + d(c6.CR) + pre + r.words
            rows.append(r)
            if how == "one-line" and k < n - 1 and k % 2 == 0:
                t.reach("one-line")
                pend = ws
                continue
            lines.append(clock.line(pend + ws))
            pend = []
        if t.flag("edm") if not free else False:
            lines.append(clock.line(d(c6.EDM)))
        judge(t, lines, rows)
    return fn


def paint(n, m, kinds, dbl, free=False, sep=":", tables=SOME, double=True):
    def fn(t):
        clock = Clock(t, free, sep)
        d = (lambda *x: list(x) * 2) if dbl else (lambda *x: list(x))
        t.reach("paint")
        rows, lines = [], []
        for k in range(n):
            row = (11, 12, 2)[t.choice(f"row{k}", 3 if double else 2)] if not free else 13
            ws = d(c6.RDC)
            for j in range(1 + (t.choice(f"two{k}", 3) if double and not free else 0)):
                if j == 2:
                    row += 1        # the third row lies apart
                r = Row(t, "abcdefgh"[k] + "xyz"[j], dbl, tables)
                r.pac(row + j, 4 if k % 2 else 0, 0 if j else t.choice(f"tab{k}", 2) if not free else 0, j == 1)
                fill(t, r, 0 if j else m, kinds, "i" * (3 * k + j + 1))
                ws += r.words
                rows.append(r)
                if j:
                    t.reach("two-rows")
            if k and not free and t.flag(f"edm{k}"):
                ws = d(c6.EDM) + ws
            lines.append(clock.line(ws))
        if not free and t.flag("last"):
            lines.append(clock.line(d(c6.EDM)))
        judge(t, lines, rows)
    return fn


def switch(dbl):
    """roll-up then paint-on and back"""
    def fn(t):
        clock = Clock(t, False, ":")
        d = (lambda *x: list(x) * 2) if dbl else (lambda *x: list(x))
        rows, lines = [], []
        for k in range(3):
            r = Row(t, "abc"[k], dbl, SOME)
            r.pac((15, 14, 1)[t.choice(f"row{k}", 3)], 0)
            r.lit("qrs"[k] + "z")
            mode = t.choice(f"mode{k}", 4)
            lines.append(clock.line((d(c6.RDC) if mode == 3 else d(RU[mode + 2]) + d(c6.CR)) + r.words))
            rows.append(r)
        judge(t, lines, rows)
    return fn


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn):
        out.append((f"{name} {tier}", fn))
    few = ["half", "ext", "special", "on"]
    for dbl in (False, True):
        s = "doubled" if dbl else "single"
        for depth in (2, 3, 4):
            for n in range(1, 7 if thorough else 5):
                add(f"roll{depth} {n} rows {s}", roll(depth, n, 0, few, dbl, "mode-once", move=n < 4))
            for how in ("each", "cr-last", "no-pac", "one-line", "depth"):
                add(f"roll{depth} {how} {s}", roll(depth, 4 if thorough else 3, 0, few, dbl, how, move=how != "depth"))
            for sep in ":;":
                add(f"roll{depth} times {sep} {s}", roll(depth, 4 if thorough else 3, 0, few, dbl, ("mode-once", "each", "one-line")[depth - 2], True, sep, move=False))
        add(f"roll items {s}", roll(2, 2, 3 if thorough else 2, ITEMS if thorough else few[:3], dbl, "each", move=False))
        add(f"roll chars {s}", roll(2, 2, 1, ITEMS, dbl, "mode-once", tables=FULL, move=False))
        for n in range(1, 5 if thorough else 4):
            add(f"paint {n} {s}", paint(n, 0, few, dbl, double=n < (4 if thorough else 3)))
        add(f"paint items {s}", paint(2, 3 if thorough else 1, ITEMS if thorough else few[:2], dbl, double=False))
        add(f"paint chars {s}", paint(1, 2 if thorough else 1, ITEMS, dbl, tables=FULL, double=False))
        for sep in ":;":
            add(f"paint times {sep} {s}", paint(4 if thorough else 3, 0, few, dbl, True, sep))
        add(f"switch {s}", switch(dbl))
    return out
