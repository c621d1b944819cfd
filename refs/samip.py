"""SAMI reader on top of a small independent HTML tokenizer."""
from refs.common import Cue, FormatError, all_digits

ENT = {"amp": "&", "lt": "<", "gt": ">", "nbsp": "\u00a0", "quot": '"', "apos": "'"}
BARE = {"amp": "&", "lt": "<", "gt": ">", "nbsp": "\u00a0", "quot": '"'}
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def reference(s, i):
    """character reference at s[i] == '&' -> (text, next index)"""
    if s[i + 1:i + 2] == "#":
        j = i + 2
        hexa = s[j:j + 1] == "x" or s[j:j + 1] == "X"
        if hexa:
            j += 1
        k = j
        digs = "0123456789abcdefABCDEF" if hexa else "0123456789"
        while k < len(s) and s[k] in digs:
            k += 1
        if k > j:
            cp = int(s[j:k], 16 if hexa else 10)
            if k < len(s) and s[k] == ";":
                k += 1
            return (chr(cp) if 0 < cp < 0x110000 and not 0xD800 <= cp <= 0xDFFF else "\ufffd"), k
        return "&", i + 1
    for nm in ENT:
        if s[i + 1:i + 2 + len(nm)] == nm + ";":
            return ENT[nm], i + len(nm) + 2
    for nm in BARE:
        if s[i + 1:i + 1 + len(nm)] == nm:
            return BARE[nm], i + len(nm) + 1
    return "&", i + 1


def tokens(s):
    """-> ('text', str) | ('start', name, attrs, selfclosing) | ('end', name) | ('comment', str)"""
    out = []
    buf = []
    i, n = 0, len(s)

    def flush():
        if buf:
            out.append(("text", "".join(buf)))
            buf.clear()
    while i < n:
        c = s[i]
        if c == "&":
            x, i = reference(s, i)
            buf.append(x)
        elif c == "<" and s[i:i + 4] == "<!--":
            flush()
            j = s.find("-->", i + 4)
            if j < 0:
                j = n
            out.append(("comment", s[i + 4:j]))
            i = j + 3
        elif c == "<" and (s[i + 1:i + 2] == "!" or s[i + 1:i + 2] == "?"):
            flush()
            j = s.find(">", i)
            if j < 0:
                j = n
            out.append(("comment", s[i + 2:j]))
            i = j + 1
        elif c == "<" and s[i + 1:i + 2] == "/" and s[i + 2:i + 3] != "" and s[i + 2:i + 3] in ALPHA:
            flush()
            j = s.find(">", i)
            if j < 0:
                j = n
            out.append(("end", s[i + 2:j].strip().lower()))
            i = j + 1
        elif c == "<" and s[i + 1:i + 2] != "" and s[i + 1:i + 2] in ALPHA:
            flush()
            tok, i = start_tag(s, i + 1)
            out.append(tok)
        else:
            buf.append(c)
            i += 1
    flush()
    return out


def start_tag(s, i):
    n = len(s)
    k = i
    while i < n and s[i] not in " \t\n\r\f/>":
        i += 1
    name = s[k:i].lower()
    attrs = {}
    while True:
        while i < n and s[i] in " \t\n\r\f/":
            i += 1
        if i >= n:
            return ("start", name, attrs, False), n
        if s[i] == ">":
            return ("start", name, attrs, s[i - 1] == "/"), i + 1
        k = i
        while i < n and s[i] not in " \t\n\r\f/>=":
            i += 1
        a = s[k:i].lower()
        while i < n and s[i] in " \t\n\r\f":
            i += 1
        v = ""
        if i < n and s[i] == "=":
            i += 1
            while i < n and s[i] in " \t\n\r\f":
                i += 1
            buf = []
            if i < n and s[i] in "\"'":
                q = s[i]
                i += 1
                while i < n and s[i] != q:
                    if s[i] == "&":
                        x, i = reference(s, i)
                        buf.append(x)
                    else:
                        buf.append(s[i])
                        i += 1
                i += 1
            else:
                while i < n and s[i] not in " \t\n\r\f>":
                    if s[i] == "&":
                        x, i = reference(s, i)
                        buf.append(x)
                    else:
                        buf.append(s[i])
                        i += 1
            v = "".join(buf)
        elif i == k:
            i += 1
        if a and a not in attrs:
            attrs[a] = v


class Par:
    def __init__(self, attrs):
        self.attrs, self.lines, self.balanced = attrs, [[]], True


class Doc:
    pass


MARK = {"i": "italics", "b": "bold", "u": "underline"}


def style_marks(v):
    out = set()
    for decl in (v or "").split(";"):
        kv = decl.split(":")
        if len(kv) == 2:
            a, b = kv[0].strip().lower(), kv[1].strip().lower()
            if a == "font-style" and b == "italic":
                out.add("italics")
            elif a == "font-weight" and b == "bold":
                out.add("bold")
            elif a == "text-decoration" and b == "underline":
                out.add("underline")
    return frozenset(out)


def css(text):
    """very small CSS reader -> {selector: {property: value}} (lower-cased names)"""
    rules = {}
    i = 0
    while True:
        j = text.find("{", i)
        if j < 0:
            return rules
        k = text.find("}", j)
        if k < 0:
            raise FormatError("unterminated style rule")
        sel = text[i:j].strip()
        body = {}
        for decl in text[j + 1:k].split(";"):
            if decl.strip() == "":
                continue
            kv = decl.split(":", 1)
            if len(kv) != 2:
                raise FormatError("bad style declaration")
            body[kv[0].strip().lower()] = kv[1].strip()
        for one in sel.split(","):
            rules.setdefault(one.strip().lower(), {}).update(body)
        i = k + 1


def parse(s):
    d = Doc()
    d.syncs = []
    d.css = {}
    cur = None
    stack = []
    in_style = False
    in_body = False
    stray = []
    for tok in tokens(s):
        kind = tok[0]
        if kind == "comment":
            if in_style:
                d.css = css(tok[1])
        elif kind == "start":
            nm, at = tok[1], tok[2]
            if nm == "style":
                in_style = True
            elif nm == "body":
                in_body = True
            elif nm == "sync":
                st = at.get("start")
                if st is None or not all_digits(st):
                    raise FormatError("sync without an integer start")
                d.syncs.append((int(st), []))
                cur, stack = None, []
            elif nm == "p":
                if not d.syncs:
                    raise FormatError("p outside of a sync")
                cur = Par(at)
                d.syncs[-1][1].append(cur)
                stack = []
            elif nm == "br":
                if cur is not None:
                    cur.lines.append([])
            elif cur is not None and not tok[3]:
                if nm == "span":
                    stack.append((nm, style_marks(at.get("style")), at))
                elif nm in MARK:
                    stack.append((nm, frozenset([MARK[nm]]), at))
                else:
                    stack.append((nm, frozenset(), at))
                    cur.unknown = True
        elif kind == "end":
            nm = tok[1]
            if nm == "style":
                in_style = False
            elif nm in ("p", "sync", "body", "sami", "head"):
                if cur is not None and stack:
                    cur.balanced = False
                if nm in ("p", "sync"):
                    cur, stack = None, []
            elif nm == "br":
                pass
            elif cur is not None:
                if stack and stack[-1][0] == nm:
                    stack.pop()
                else:
                    cur.balanced = False
        else:
            if cur is not None:
                st = frozenset()
                for x in stack:
                    st = st | x[1]
                for ch in tok[1]:
                    cur.lines[-1].append((" " if ch in "\t\n\r" else ch, st))
            elif in_body and tok[1].strip() != "":
                stray.append(tok[1])
    d.stray = stray
    return d


def lang_of(d, par):
    """language of a paragraph: the lang of its class's style rule"""
    if par.attrs.get("lang"):
        return par.attrs["lang"]
    cls = par.attrs.get("class", "")
    r = d.css.get("." + cls.lower())
    if r and "lang" in r:
        return r["lang"]
    return None


def par_text(par):
    return ["".join(c[0] for c in l) for l in par.lines]


def blank(par):
    return all(c[0].isspace() for l in par.lines for c in l)


def cues(d, lang):
    """SAMI semantics: a cue lasts until the next sync of its language (ms -> microseconds)."""
    pars = [(t, p) for t, ps in d.syncs for p in ps if lang_of(d, p) == lang]
    out = []
    for i, (t, p) in enumerate(pars):
        if blank(p):
            continue
        end = None
        for t2, _ in pars[i + 1:]:
            if t2 != t:
                end = t2 * 1000
                break
        out.append(Cue(t * 1000, end, par_text(p), chars=p.lines, par=p))
    return out
