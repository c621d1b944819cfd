"""Shared pieces of the reference parsers."""


def norm_line(s):
    """Trim and collapse white space runs (every Unicode white space counts)."""
    out = []
    word = []
    for c in s:
        if c.isspace():
            if word:
                out.append("".join(word))
                word = []
        else:
            word.append(c)
    if word:
        out.append("".join(word))
    return " ".join(out)


def clean_lines(lines):
    """Normalised non-empty lines."""
    r = []
    for l in lines:
        x = norm_line(l)
        if x != "":
            r.append(x)
    return r


class Cue:
    """start/end in microseconds (end None: not conveyed); lines: list of str;
    chars: per line, list of (character, frozenset of style names)."""

    def __init__(self, start, end, lines, **kw):
        self.start, self.end, self.lines = start, end, lines
        for k, v in kw.items():
            setattr(self, k, v)


class FormatError(Exception):
    pass


def all_digits(s):
    return len(s) > 0 and all(c in "0123456789" for c in s)


def clock(s, sep, hours_required=True, frac=3):
    """[h+:]mm:ss<sep>fff -> microseconds (strict)"""
    parts = s.split(":")
    if len(parts) == 2 and not hours_required:
        parts = ["00"] + parts
    if len(parts) != 3:
        raise FormatError("bad timestamp " + s)
    h, m, rest = parts
    sub = rest.split(sep)
    if len(sub) != 2:
        raise FormatError("bad timestamp " + s)
    sec, f = sub
    if not (all_digits(h) and len(h) >= 2 and all_digits(m) and len(m) == 2 and all_digits(sec) and len(sec) == 2
            and all_digits(f) and len(f) == frac):
        raise FormatError("bad timestamp " + s)
    if int(m) > 59 or int(sec) > 59:
        raise FormatError("timestamp field out of range " + s)
    return ((int(h) * 60 + int(m)) * 60 + int(sec)) * 1000000 + int(f) * 10 ** (6 - frac)


def split_lines(s):
    """CR, LF and CRLF terminated lines (only those)."""
    s = s.replace("\r\n", "\n").replace("\r", "\n")
    ls = s.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    return ls
