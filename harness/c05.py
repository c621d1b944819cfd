"""C05: pop-on SCC decoding shows what a CEA-608 decoder shows."""
from pycaption import SCCReader
from refs import cea608 as c6
from harness.sccprog import PRINT, Row, SOME_BASIC, SOME_EXT, SOME_SPECIAL, cap_rows, same_row

BOUNDS = ("one pop-on load of one row: every row, indent and tab offset, plain/underlined/italic preamble; every code and pair of codes of the "
          "character tables (symbolic); every sequence of up to 3 (thorough 4) of 13 items (6 from the third on): one or two basic characters, "
          "with spaces, special, extended after a stand-in, backspace, italic on/off/underlined mid-row codes, nulls; rows of 32 columns; two and "
          "three rows, adjacent or apart, each with its preamble and items; every preamble and mid-row code after italics; two (thorough three) "
          "loads of one or two rows in any relative position, in three orders of the surrounding commands; control codes single or doubled, per load")
OUTSIDE = ("rows sent bottom-up onto adjacent lines; preamble-preamble-tab-tab doubling; rows without a preamble; background and foreground codes; "
           "a code sent singly twice in a row; a backspace over the blank of a mid-row code; text beyond column 32")
ASSUMPTIONS = ["the blank shown for a mid-row code may be merged with the spaces next to it; its attributes are not compared",
               "the apostrophe and vertical bar variants of different code charts are equal"]
REACH = ["adjacent", "apart", "ext", "special", "bs", "italic", "italic-pac", "tab", "second-load"]
FULL = (PRINT, c6.SPECIAL, c6.EXT)
SOME = (SOME_BASIC, SOME_SPECIAL, SOME_EXT)


def document(t, loads, shape=0):
    """loads: lists of rows; shape: order of the commands around the rows"""
    lines = []
    for k, rows in enumerate(loads):
        d = rows[0].d
        ws = d(c6.RCL) + d(c6.ENM) if shape in (1, 2) else d(c6.ENM) + d(c6.RCL)
        for r in rows:
            ws += r.words
        if shape in (1, 2):
            ws += d(c6.EDM)
        if shape == 2:
            lines.append((f"00:00:{4 * k + 1:02}:00", ws))
            lines.append((f"00:00:{4 * k + 3:02}:00", d(c6.EOC)))
        else:
            lines.append((f"00:00:{4 * k + 1:02}:00", ws + d(c6.EOC)))
    lines.append((f"00:00:{4 * len(loads) + 1:02}:00", d(c6.EDM)))
    return c6.doc(lines)


def groups(t, rows):
    """rows on consecutive screen rows belong to one caption"""
    out = [[rows[0]]]
    for a, b in zip(rows, rows[1:]):
        if b.row == a.row + 1:
            t.reach("adjacent")
            out[-1].append(b)
        else:
            t.reach("apart")
            out.append([b])
    return out


def judge(t, loads, dbl, shape=3):
    doc = document(t, loads, shape)
    caps = SCCReader().read(doc).get_captions("en-US")
    want = [(k, g) for k, rows in enumerate(loads) for g in groups(t, rows)]
    if len(loads) > 1:
        t.reach("second-load")
    t.check("one caption per block of rows", len(caps) == len(want), detail=lambda: [doc, [c.nodes for c in caps]])
    if len(caps) != len(want):
        return
    times = {}
    for c, (k, g) in zip(caps, want):
        got = cap_rows(t, c.nodes)
        t.check("the lines of a caption", len(got) == len(g), detail=lambda: [doc, c.nodes])
        if len(got) != len(g):
            continue
        for a, r in zip(got, g):
            same_row(t, a, r.cells, "the characters of a row")
        o = c.layout_info.origin if c.layout_info else None
        for where, lay in [("caption", c.layout_info)] + [("text", n.layout_info) for n in c.nodes if n.type_ == n.TEXT]:
            o = lay.origin if lay else None
            ok = o is not None and str(o.x.unit.value) == "%" and str(o.y.unit.value) == "%" \
                and near(o.x.value, 10 * 32 + 80 * g[0].col, 32) and near(o.y.value, 5 * 15 + 90 * (g[0].row - 1), 15)
            t.check(f"position of the {where}", ok, detail=lambda: [doc, repr(o), g[0].row, g[0].col])
        if k in times:
            t.check("blocks of one load have the same times", c.start == times[k][0] and c.end == times[k][1])
        else:
            t.check("captions in the order of the loads", all([c.start > v[0] for v in times.values()]))
        times[k] = (c.start, c.end)


def near(x, num, den):
    d = x * den - num
    return -0.000001 <= d and d <= 0.000001


def items(t, r, n, kinds, tag):
    for k in range(n):
        opts = [x for x in kinds if r.can(x)]
        x = opts[t.choice(f"{tag}{k}", len(opts))]
        r.do(x)
        if x in ("on", "off", "und"):
            t.reach("italic")
        elif x.startswith("ext"):
            t.reach("ext")
        elif x in ("special", "bs"):
            t.reach(x)


def visible(t, r):
    t.assume(any([not c[2] for c in r.cells]))
    t.assume(t.any([c[0] != " " for c in r.cells if not c[2]]))


def positions(dbl, table):
    """every cursor address, in one row; and a second load at any other address"""
    def fn(t):
        loads = []
        for k in range(2 if table else 1):
            r = Row(t, "ab"[k], dbl, SOME)
            row = t.choice(f"row{k}", 15) + 1
            it = t.flag(f"it{k}")
            if it:
                t.reach("italic-pac")
            ind = 0 if it else 4 * t.choice(f"ind{k}", 8)
            tab = t.choice(f"tab{k}", 4)
            if tab:
                t.reach("tab")
            r.pac(row, ind, tab, it, t.flag(f"u{k}") if k == 0 else False)
            r.half()
            loads.append([r])
        judge(t, loads, dbl)
    return fn


def chars(kind, dbl):
    """every code of a table, every pair of basic codes"""
    def fn(t):
        r = Row(t, "a", dbl, FULL)
        r.pac(15, 4)
        if kind == "bs":
            r.pair()
            r.bs()
            t.reach("bs")
            r.half()
        else:
            r.do(kind)
            r.do("pair" if kind != "pair" else "null")
        judge(t, [[r]], dbl)
    return fn


def sequence(n, kinds, dbl, it):
    """every sequence of n items in one row"""
    def fn(t):
        r = Row(t, "a", dbl, SOME)
        r.pac(14, 8, 0, it)
        items(t, r, n, kinds, "i")
        visible(t, r)
        judge(t, [[r]], dbl)
    return fn


def rows(nrows, n, kinds, dbl, gaps=(1, 2), first=(11, 1)):
    """several rows, each with its preamble (plain, underlined, italic; with or without tab offset) and items"""
    def fn(t):
        rs, row = [], t.pick("first", first[:1], first[1:]) if len(first) > 1 else first[0]
        for k in range(nrows):
            r = Row(t, "abc"[k], dbl, SOME)
            p = t.choice(f"pac{k}", 4)
            it = p == 1
            tab = 2 if p >= 2 else 0
            if it:
                t.reach("italic-pac")
            if tab:
                t.reach("tab")
            r.pac(row, 8 if p == 3 else 0, tab, it)
            items(t, r, n, kinds, "ijk"[k])
            r.lit("qrs"[k])
            rs.append(r)
            if k < nrows - 1:
                row += gaps[t.choice(f"gap{k}", len(gaps))]
        judge(t, [rs], dbl)
    return fn


def loads(n, kinds, dbls):
    """several loads of one or two rows, anywhere relative to each other, in several shapes, each single or doubled"""
    def fn(t):
        out = []
        shape = t.choice("shape", 3) + 1 if n < 3 and dbls[0] == dbls[1] else 3
        for k in range(n):
            row = (13, 14, 10)[t.choice(f"row{k}", 3)]
            rs = []
            for j in range(1 + t.choice(f"two{k}", 2)):
                r = Row(t, "abc"[k] + "xy"[j], dbls[k], SOME)
                how = t.choice(f"it{k}{j}", (2 if kinds else 1) if j else 3)
                r.pac(row + j, 4 if how == 2 else 0, 2 if how == 2 else 0, how == 1)
                items(t, r, 0 if j or not kinds else 1, kinds, f"i{k}{j}")
                r.lit("qrs"[k] + "xy"[j])
                rs.append(r)
            out.append(rs)
        judge(t, out, None, shape)
    return fn


def full_row(t):
    """rows that reach the right edge: 32 columns"""
    r = Row(t, "a", t.flag("dbl"), SOME)
    c = t.choice("col", 4)
    col = [0, 4, 28, 28][c]
    r.pac(15, col, 3 if c == 3 else 0)
    w = r.basic()
    n = 32 - r.col
    r.lit("ab cd ef gh ij kl mn op qr st uv "[:n - 1] if n > 1 else "")
    r.words[-1:] = [r.words[-1]] if n > 1 else r.words[-1:]
    if n > 1 and (n - 1) % 2:
        r.words[-1] = r.words[-1][:2] + w[0]
        r.put(w[1])
    elif n == 1:
        r.words.append(w[0] + "80")
        r.put(w[1])
    judge(t, [[r]], None)


def bottom_up(dbl):
    """a block far above the one sent before it"""
    def fn(t):
        a, b = Row(t, "a", dbl, SOME), Row(t, "b", dbl, SOME)
        row = t.choice("row", 12) + 1
        up = t.choice("up", 2) * 9 + 2
        t.assume(row + up <= 15)
        it = t.flag("it")
        a.pac(row + up, 4, 1)
        a.half()
        b.pac(row, 0, 0, it)
        b.half()
        judge(t, [[a, b]], dbl)
    return fn


def after_italics(dbl):
    """every preamble, and every mid-row code, ends italics (or not)"""
    def fn(t):
        a = Row(t, "a", dbl, SOME)
        row = t.choice("row", 15) + 1
        how = t.choice("how", 4)
        if how == 3:
            a.pac(row, 0, 0, True)
            a.half()
            und, color = t.flag("und"), t.choice("color", 8)
            a.mid(color == 7, und, color % 7)
            a.half()
            return judge(t, [[a]], dbl)
        a.pac(1 if row != 1 else 15, 0, 0, True)
        a.half()
        b = Row(t, "b", dbl, SOME)
        if how == 0:
            b.pac(row, 4 * t.choice("ind", 8), 0, False, t.flag("und"))
        elif how == 1:
            b.pac(row, 0, 0, True, t.flag("und"))
        else:
            b.words += b.d(c6.pac(row, None, underline=t.flag("und"), color=t.choice("color", 7)))
            b.row, b.col = row, 0
        b.half()
        judge(t, [[a, b]], dbl)
    return fn


def scenarios(tier):
    thorough = tier == "thorough"
    out = []
    every = ["half", "spaced", "before", "pair", "special", "ext", "ext2", "bs", "on", "off", "und", "onu", "null"]
    few = ["half", "ext", "bs", "on", "off", "und"]

    def add(name, fn):
        out.append((f"{name} {tier}", fn))
    add("full row", full_row)
    for dbl in (False, True):
        s = "doubled" if dbl else "single"
        add(f"positions {s}", positions(dbl, False))
        for kind in ("pair", "half", "special", "ext", "ext2", "bs"):
            add(f"chars {kind} {s}", chars(kind, dbl))
        for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
            for it in (False, True):
                add(f"sequence {n} {s}{' italic' if it else ''}", sequence(n, every if n < 3 or thorough and n < 4 else few, dbl, it))
        add(f"rows 2 {s}", rows(2, 1, few + ["special"], dbl))
        add(f"rows 3 {s}", rows(3, 1 if thorough else 0, few[:1] + few[3:5], dbl))
        add(f"after italics {s}", after_italics(dbl))
        add(f"bottom up {s}", bottom_up(dbl))
        for d2 in (dbl, not dbl):
            add(f"loads 2 {s}{'' if d2 == dbl else ' mixed'}", loads(2, few[:1] + few[3:5] if thorough else [], [dbl, d2]))
    if thorough:
        for d in ([False] * 3, [True] * 3, [True, False, True]):
            add(f"loads 3 {d}", loads(3, ["half"], d))
    return out
