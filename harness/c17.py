"""C17: SCC output is structurally valid and re-reads to the same words."""
from pycaption import SCCReader, SCCWriter
from refs import cea608 as c6
from harness.common import mk, node_text
from harness.sccprog import norm
from sx.charsets import CS

BOUNDS = ("one caption: words of every length 1..40 (two words: every pair of lengths, every third in the quick tier; three words at the "
          "boundaries), hyphens inside, one symbolic character of the basic set; 2-4 lines of up to 80 characters in nine shapes; up to 3 symbolic "
          "characters (space included) anywhere around the 32nd column; timing: one and two (thorough three) captions at any instants of the day, "
          "every timecode and every position within a frame symbolic, from just feasible to sparse, ends anywhere up to the next start")
OUTSIDE = ("texts that need more than 15 rows (finding C17-rows); instants within 1 microsecond of a frame boundary of the time base; cues that leave "
           "less than one frame per code word; captions without visible text; characters outside the basic set")
ASSUMPTIONS = ["only words longer than 32 characters may be split"]
REACH = ["wrapped", "split", "clear", "no-clear", "hyphen", "four-lines"]
LETTERS = [c for c in c6.BASIC.values() if c != " "]
ALL = CS("=" + "".join(c6.BASIC.values()))
# frames of the non-drop time base: 1001/30000 s = 100100/3 us
UNIT = 100100
CODES = {v: k for k, v in c6.BASIC.items()}


def parse_out(t, out):
    """-> [(frames of the timecode, [words])]; checks the structure"""
    lines = out.split("\n")
    t.check("header", lines[0] == "Scenarist_SCC V1.0" and lines[1] == "", detail=lambda: out)
    res = []
    ok = []
    for l in lines[1:]:
        if l == "":
            continue
        parts = l.split("\t")
        if len(parts) != 2:
            t.check("a timecode and words", False, detail=lambda: out)
            continue
        tc, ws = parts[0], parts[1].split(" ")
        good = len(tc) == 11 and tc[2] == ":" and tc[5] == ":" and tc[8] == ":"
        f = [tc[0:2], tc[3:5], tc[6:8], tc[9:11]]
        good = good and all([x.isdigit() for x in f])
        t.check("a timecode hh:mm:ss:ff", good, detail=lambda: out)
        if not good:
            continue
        h, m, s, fr = [int(x) for x in f]
        t.check("fields of the timecode in range", t.all([m < 60, s < 60, fr < 30]), detail=lambda: out)
        for w in ws:
            ok.append(len(w) == 4 and hex_odd(t, w[:2]) and hex_odd(t, w[2:]))
        res.append((((h * 60 + m) * 60 + s) * 30 + fr, ws))
    t.check("words of four hex digits with odd parity", t.all(ok), detail=lambda: out)
    t.check("timecodes do not decrease", t.all([a[0] <= b[0] for a, b in zip(res, res[1:])]), detail=lambda: out)
    return res


ODD = {f"{b:02x}" for b in range(256) if bin(b).count("1") % 2}


def hex_odd(t, b):
    return b in ODD


PACS = {c6.pac(r): r for r in range(1, 16)}
PACS.update({c6.pac(r, i): r for r in range(1, 16) for i in range(0, 32, 4)})


def rows_of(t, ws, out):
    """the rows a line of words writes: [(row, text)], words up to the first EOC"""
    rows, last, eoc = [], None, None
    for k, w in enumerate(ws):
        if w == last:
            last = None
            continue
        last = w
        if w in (c6.ENM, c6.RCL, c6.EDM):
            continue
        if w == c6.EOC:
            eoc = k if eoc is None else eoc
            continue
        if w in PACS:
            rows.append([PACS[w], []])
            continue
        last = None
        txt = []
        for b in (w[:2], w[2:]):
            if b == "80":
                continue
            t.check("codes of the basic set", b in c6.BASIC, detail=lambda: [w, out])
            if b in c6.BASIC:
                txt.append(c6.BASIC[b])
        if not rows:
            t.check("a row is addressed before its text", False, detail=lambda: out)
            continue
        rows[-1][1] += txt
    return rows, eoc


def words(text):
    return [w for w in "".join(" " if c == "\n" else c for c in text).split(" ") if w]


def judge(t, caps, texts, times, sizes=None):
    """caps: caption set; texts: the text of each caption, lines joined by newlines; times: [(start, end)]"""
    prev = 0
    for n, (s, e) in zip(sizes or (), times):
        # the cues leave time to send one code word per frame
        t.assume(3 * (s - prev) >= n * UNIT)
        prev = s
    out = SCCWriter().write(caps)
    lines = parse_out(t, out)
    shows = []
    for F, ws in lines:
        rows, eoc = rows_of(t, ws, out)
        if eoc is None:
            t.check("a line without a caption clears the screen", not rows and ws[0] == c6.EDM, detail=lambda: out)
            t.reach("clear")
        else:
            t.check("commands of a pop-on caption", ws[:4] == [c6.ENM, c6.ENM, c6.RCL, c6.RCL] and ws[-2:] == [c6.EOC, c6.EOC],
                    detail=lambda: out)
            shows.append((F, eoc, rows, len(ws)))
    t.check("one load per caption", len(shows) == len(texts), detail=lambda: out)
    if len(shows) != len(texts):
        return
    if len(lines) < 2 * len(texts):
        t.reach("no-clear")
    if sizes:
        t.check("the number of code words", [x[3] for x in shows] == sizes, detail=lambda: [sizes, out])
    for (F, eoc, rows, n), text, (s, e) in zip(shows, texts, times):
        t.check("rows 1-15, top to bottom", all([a[0] < b[0] for a, b in zip(rows, rows[1:])]), detail=lambda: out)
        for r, cells in rows:
            t.check("rows of at most 32 columns", len(cells) <= 32, detail=lambda: [cells, out])
        same_words(t, "written", [cells for _, cells in rows], text, out)
        d = (F + eoc) * UNIT - 3 * s
        t.check("visible within three frames of the start", t.all([-3 * UNIT <= d, d <= 3 * UNIT]),
                detail=lambda: [out, s, (F + eoc) * UNIT / 3])
    back = SCCReader().read(out).get_captions("en-US")
    t.check("one caption read per caption written", len(back) == len(texts), detail=lambda: [out, [c.nodes for c in back]])
    if len(back) != len(texts):
        return
    for c, text, (s, e) in zip(back, texts, times):
        same_words(t, "read", [list(x) for x in node_text(c.nodes).split("\n")], text, out)
        d = c.start * 3 - 3 * s
        t.check("read start within three frames", t.all([-3 * UNIT - 3 <= d, d <= 3 * UNIT + 3]), detail=lambda: [out, s, c.start])


def same_words(t, what, rows, text, out):
    """the words of the text, in order; only words longer than a row may be split"""
    want = words(text)
    got = []
    for cells in rows:
        got += words(cells)
    k = 0
    ok = []
    for w in want:
        part = []
        while k < len(got) and (len(part) + len(got[k]) <= len(w)):
            if part:
                t.reach("split")
            part += list(got[k])
            k += 1
            if len(w) <= 32:
                break
        ok.append(len(part) == len(w))
        ok += [norm(a) == norm(b) for a, b in zip(part, w)]
    t.check(f"the words {what} are the words given", k == len(got) and t.all(ok), detail=lambda: [text, got, out])


def fixed_times(n):
    return [(10000000 + 10000000 * k, 13000000 + 10000000 * k) for k in range(n)]


def word(t, name, n, sym):
    """a word of n characters, those at the positions of sym symbolic"""
    return "".join(t.char(f"{name}{i}", CS("=" + "".join(LETTERS))) if i in sym else "abcdefghijklmnopqrstuvwxyz"[i % 26] for i in range(n))


def lengths(opts, nw, sym=True, hyphen=False):
    """words of every combination of the given lengths"""
    def fn(t):
        ws = []
        for k in range(nw):
            n = opts[t.choice(f"n{k}", len(opts))]
            w = word(t, f"w{k}", n, ())
            if hyphen and n > 2:
                t.reach("hyphen")
                w = w[:n // 2] + "-" + w[n // 2 + 1:]
            ws.append(w)
        if sym:
            i = t.choice("at", nw)
            c = t.char("c", CS("=" + "".join(LETTERS)))
            ws[i] = c + ws[i][1:]
        text = " ".join(ws)
        if len(text) > 32:
            t.reach("wrapped")
        tm = fixed_times(1)
        judge(t, mk([(tm[0][0], tm[0][1], [text])]), [text], tm)
    return fn


def caption_lines(nl, opts, sym=1):
    """nl lines of words of the given lengths"""
    def fn(t):
        lines = []
        for k in range(nl):
            line = opts[t.choice(f"l{k}", len(opts))]
            lines.append(" ".join("abcdefghijklmnopqrstuvwxyz!.,?:-+/;&"[j % 36] * n for j, n in enumerate(line)))
        c = t.char("c", CS("=" + "".join(LETTERS)))
        i = t.choice("at", nl) if nl < 4 else 3
        lines[i] = lines[i][:-1] + c
        if nl == 4:
            t.reach("four-lines")
        text = "\n".join(lines)
        tm = fixed_times(1)
        judge(t, mk([(tm[0][0], tm[0][1], lines)]), [text], tm)
    return fn


def text_at(pre, n, post):
    """n characters of the whole basic set, the space among them, in a line"""
    def fn(t):
        x = t.text("x", n, ALL)
        text = "a" * pre + x + "b" * post
        t.assume(pre + post > 0 or t.any([c != " " for c in x]))
        tm = fixed_times(1)
        judge(t, mk([(tm[0][0], tm[0][1], [text])]), [text], tm)
    return fn


def instant(t, name, n, hm):
    """an instant whose timecode n frames earlier is any one of the given hours and minutes, never within 1 us of a frame boundary"""
    h, m = hm
    N = ((h * 60 + m) * 60 + t.int(f"sec{name}", 0, 59)) * 30 + t.int(f"frame{name}", 0, 29) + n
    v = t.int(f"rest{name}", 0, 6000000)
    t.assume(3 * v >= 2 * N + 3)
    t.assume(3 * v <= 2 * N + UNIT - 3)
    return N * 33366 + v


def timing(texts, ends, free=False):
    """captions at any times that leave room for the words; ends: how each one ends: on its own, or when the next one starts"""
    sizes = [4 + 4 + sum(2 + (len(r) + 1) // 2 for r in x.split("\n")) for x in texts]

    def fn(t):
        hm = (t.int("h", 0, 23), t.int("m", 0, 59))
        times = []
        for k, n in enumerate(sizes):
            if free and k:
                hm = (t.int(f"h{k}", 0, 23), t.int(f"m{k}", 0, 59))
            times.append([instant(t, f"{k}", n, hm), None])
        for k in range(len(times)):
            if ends[k] == "next":
                times[k][1] = times[k + 1][0]
            else:
                times[k][1] = instant(t, f"e{k}", 0, (t.int("he", 0, 23), t.int("me", 0, 59)) if free else hm)
                t.assume(times[k][1] > times[k][0])
                if k + 1 < len(times):
                    t.assume(times[k][1] <= times[k + 1][0])
                    g = 3 * times[k][1] + 3 * UNIT - 3 * times[k + 1][0] + sizes[k + 1] * UNIT
                    t.assume(t.any([g >= 3, g <= -3]))
        judge(t, mk([(s, e, x.split("\n")) for (s, e), x in zip(times, texts)]), texts, times, sizes)
    return fn


def sixteen(t):
    """one row more than the screen has"""
    w = "abcdefghijklmnopq"
    lines = [" ".join([w, w, w, t.char("c", CS("=abc")) + w[1:]])] * 4
    parse_out(t, SCCWriter().write(mk([(10000000, 13000000, lines)])))


def scenarios(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn):
        out.append((f"{name} {tier}", fn))
    add("one word", lengths(range(1, 41), 1))
    step = 1 if thorough else 3
    add("two words", lengths(range(1, 41, step), 2))
    add("two words hyphen", lengths(range(1, 41, step), 2, hyphen=True))
    add("three words", lengths([1, 10, 15, 16, 17, 31, 32, 33, 40] if thorough else [1, 15, 16, 31, 33], 3))
    add("sixteen rows", sixteen)
    for nl in (2, 3, 4):
        opts = [(1,), (32,), (15, 16), (16, 16), (33,), (10, 10, 11, 1), (31, 2, 30), (40, 24), (40, 39)]
        add(f"lines {nl}", caption_lines(nl, opts if nl < 3 or thorough else (opts[:5] if nl == 3 else opts[:2] + opts[3:4] + opts[-1:])))
    for pre, n, post in [(0, 1, 0), (0, 2, 0), (0, 3, 0), (3, 2, 2), (29, 2, 3), (30, 3, 3), (31, 2, 4), (14, 1, 30)]:
        add(f"text {pre} {n} {post}", text_at(pre, n, post))
    a, b, c = "ab", "abc def ghi\nabcdefg", "x y z"
    add("times 1", timing([a], ["own"], True))
    for texts in ([a, a], [a, b], [b, a]):
        for ends in (["own", "own"], ["next", "own"]):
            add(f"times {[len(x) for x in texts]} {ends[0]}", timing(texts, ends))
    add("times 2 free", timing([a, c], ["own", "own"], True))
    if thorough:
        for e1 in ("own", "next"):
            for e2 in ("own", "next"):
                add(f"times 3 {e1} {e2}", timing([a, b, c], [e1, e2, "own"]))
    return out
