"""Structured SCC rows: code words together with what a CEA-608 decoder shows for them."""
from pycaption import CaptionNode
from refs import cea608 as c6

# codes of the basic set without the space and the null
PRINT = {k: v for k, v in c6.BASIC.items() if v != " "}
# a few of every class, for scenarios about sequences
SOME_BASIC = {k: c6.BASIC[k] for k in [f"{c6.par(x):02x}" for x in (0x41, 0x27, 0x2a, 0x2e, 0x21, 0x3f, 0x2c, 0x7b, 0x7e, 0x30)]}
SOME_SPECIAL = {k: c6.SPECIAL[k] for k in list(c6.SPECIAL)[::5]}
SOME_EXT = {k: c6.EXT[k] for k in list(c6.EXT)[::7]}

_NORM = {"’": "'", "│": "|", "¦": "|", "\xa0": " "}
NORM_CHARS = "".join(_NORM)


def norm(ch):
    """characters whose code charts differ between decoders are taken as equal"""
    for a, b in _NORM.items():
        if ch == a:
            return b
    return ch


class Row:
    """one row being written: words sent, cells shown [(char, italic, optional)]"""

    def __init__(self, t, name, dbl, tables):
        self.t, self.name, self.dbl, self.tables, self.k = t, name, dbl, tables, 0
        self.words, self.cells, self.italics = [], [], False

    def d(self, *ws):
        return list(ws) * 2 if self.dbl else list(ws)

    def pac(self, row, indent, tab=0, italics=False, underline=False):
        """row, indent as given (concrete)"""
        p = c6.pac(row, None if italics else indent, italics=italics, underline=underline)
        self.italics = italics
        self.words += self.d(p, c6.tab(tab)) if tab else self.d(p)
        self.row, self.col = row, (0 if italics else indent) + tab

    def basic(self, table=None):
        self.k += 1
        tb = self.tables[0] if table is None else table
        w, c = self.t.entries(f"{self.name}{self.k}", list(tb), list(tb.values()))
        return w, c

    def put(self, *chars):
        for c in chars:
            self.cells.append((c, self.italics, False))

    def pair(self):
        (a, x), (b, y) = self.basic(), self.basic()
        self.words.append(a + b)
        self.put(x, y)

    def half(self):
        a, x = self.basic()
        self.words.append(a + "80")
        self.put(x)

    def lit(self, text):
        """given characters"""
        self.words += c6.bytes_of(c6.enc(text))
        self.put(*text)

    def spaced(self):
        """a character and a space"""
        a, x = self.basic()
        self.words.append(a + "20")
        self.put(x, " ")

    def before(self):
        """a space and a character"""
        a, x = self.basic()
        self.words.append("20" + a)
        self.put(" ", x)

    def null(self):
        self.words.append("8080")

    def once(self, w):
        """a code sent singly is not followed by itself: a decoder takes that for the second copy"""
        if not self.dbl and self.words:
            self.t.assume(self.words[-1] != w)

    def special(self):
        self.k += 1
        tb = self.tables[1]
        w, c = self.t.entries(f"{self.name}{self.k}", list(tb), list(tb.values()))
        self.once(w)
        self.words += self.d(w)
        self.put(c)

    def ext(self, alone=True):
        """a stand-in character and the extended character that replaces it"""
        a, x = self.basic()
        if alone:
            self.words.append(a + "80")
        else:
            b, y = self.basic()
            self.words.append(b + a)
            self.put(y)
        self.k += 1
        tb = self.tables[2]
        w, c = self.t.entries(f"{self.name}{self.k}", list(tb), list(tb.values()))
        self.words += self.d(w)
        self.put(c)

    def bs(self):
        self.once(c6.BS)
        self.words += self.d(c6.BS)
        self.cells.pop()

    def mid(self, italics, underline=False, color=0):
        """a mid-row code occupies a column, shown blank; the reader merges that blank with its neighbours"""
        w = c6.midrow(italics, underline, color)
        self.once(w)
        self.words += self.d(w)
        self.italics = italics
        self.cells.append((" ", None, True))

    def can(self, item):
        if item == "bs":
            return bool(self.cells) and not self.cells[-1][2]
        return True

    def do(self, item):
        {"pair": self.pair, "half": self.half, "spaced": self.spaced, "before": self.before, "null": self.null, "special": self.special,
         "ext": self.ext, "ext2": lambda: self.ext(False), "bs": self.bs, "on": lambda: self.mid(True), "off": lambda: self.mid(False),
         "und": lambda: self.mid(False, underline=True), "onu": lambda: self.mid(True, underline=True),
         "red": lambda: self.mid(False, color=4)}[item]()


def cap_rows(t, nodes, label="italics are balanced"):
    """the rows of a caption as read: lists of (char, italic)"""
    rows, on = [[]], False
    for n in nodes:
        if n.type_ == CaptionNode.BREAK:
            rows.append([])
        elif n.type_ == CaptionNode.STYLE:
            t.check(label, n.start is not on, detail=lambda: repr(nodes))
            on = n.start
        else:
            rows[-1] += [(ch, on) for ch in n.content]
    t.check(label, not on, detail=lambda: repr(nodes))
    return rows


def trim(cells):
    """without the blanks at the ends"""
    a, b = 0, len(cells)
    while a < b and cells[a][0] == " ":
        a += 1
    while b > a and cells[b - 1][0] == " ":
        b -= 1
    return cells[a:b]


def same_row(t, got, want, what, italics=True):
    """got: (char, italic) read; want: cells; blanks of mid-row codes are optional"""
    def bad(why):
        t.check(what, False, detail=lambda: f"{why}: read {got!r}, a decoder shows {want!r}")
    got, want = trim(got), trim(want)
    i = k = 0
    ok, its = [], []
    # runs of blanks: obligatory ones count, those of mid-row codes may be missing or not
    while k < len(want) or i < len(got):
        lo = hi = 0
        while k < len(want) and want[k][0] == " ":
            lo += not want[k][2]
            hi += 1
            k += 1
        n = 0
        while i < len(got) and got[i][0] == " ":
            n += 1
            i += 1
        if not lo <= n <= hi:
            return bad("blanks")
        if (k < len(want)) != (i < len(got)):
            return bad("length")
        if k < len(want):
            ok.append(norm(got[i][0]) == norm(want[k][0]))
            its.append(got[i][1] == want[k][1])
            k += 1
            i += 1
    t.check(what, t.all(ok), detail=lambda: f"read {got!r}, a decoder shows {want!r}")
    if italics:
        t.check("italics cover the characters sent while they were on", all(its), detail=lambda: f"read {got!r}, a decoder shows {want!r}")
