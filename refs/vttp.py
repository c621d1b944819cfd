"""WebVTT parser following the W3C grammar (file structure, cue timings, cue text tokenizer)."""
from refs.common import Cue, FormatError, clock, split_lines

ENT = {"amp": "&", "lt": "<", "gt": ">", "lrm": "\u200e", "rlm": "\u200f", "nbsp": "\u00a0", "quot": '"'}
# legacy HTML references that need no semicolon
BARE = {"amp": "&", "lt": "<", "gt": ">", "nbsp": "\u00a0", "quot": '"', "AMP": "&", "LT": "<", "GT": ">"}
TAGS = ("c", "i", "b", "u", "v", "ruby", "rt", "lang")


def parse(doc):
    if doc.startswith("\ufeff"):
        doc = doc[1:]
    lines = split_lines(doc)
    if not lines or not (lines[0] == "WEBVTT" or lines[0].startswith("WEBVTT ") or lines[0].startswith("WEBVTT\t")):
        raise FormatError("missing WEBVTT signature")
    i = 1
    if i < len(lines) and lines[i] != "":
        raise FormatError("the signature must be followed by a blank line")
    cues = []
    while True:
        while i < len(lines) and lines[i] == "":
            i += 1
        if i >= len(lines):
            return cues
        if "-->" not in lines[i]:
            if i + 1 < len(lines) and "-->" in lines[i + 1]:
                ident = lines[i]
                i += 1
            else:
                raise FormatError("a block without timings")
        start, end, settings = timing_line(lines[i])
        i += 1
        text = []
        while i < len(lines) and lines[i] != "":
            if "-->" in lines[i]:
                raise FormatError("'-->' in cue text")
            text.append(lines[i])
            i += 1
        cues.append(cue(start, end, settings, text))


def timing_line(line):
    j = line.find(" --> ")
    if j < 0:
        raise FormatError("bad timing line")
    a = line[:j]
    rest = line[j + 5:].split(" ", 1)
    b = rest[0]
    settings = {}
    raw = rest[1] if len(rest) > 1 else ""
    for item in raw.split():
        kv = item.split(":", 1)
        if len(kv) != 2 or kv[0] == "" or kv[1] == "" or kv[0] in settings:
            raise FormatError("bad cue setting " + item)
        settings[kv[0]] = kv[1]
    return clock(a, ".", False), clock(b, ".", False), (settings, raw)


def is_alnum(c):
    return c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def tokenize(text):
    """-> list of ('text', chars) / ('open', name, annotation) / ('close', name) / ('time', s)"""
    toks = []
    buf = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == "&":
            done = False
            for nm in ENT:
                if text[i + 1:i + 2 + len(nm)] == nm + ";":
                    buf.append(ENT[nm])
                    i += len(nm) + 2
                    done = True
                    break
            if not done:
                for nm in BARE:
                    if text[i + 1:i + 1 + len(nm)] == nm:
                        buf.append(BARE[nm])
                        i += len(nm) + 1
                        done = True
                        break
            if not done:
                buf.append("&")
                i += 1
        elif c == "<":
            if buf:
                toks.append(("text", "".join(buf)))
                buf = []
            j = text.find(">", i)
            if j < 0:
                j = n
            body = text[i + 1:j]
            i = j + 1
            if body.startswith("/"):
                toks.append(("close", body[1:]))
                continue
            if body[:1] != "" and body[:1] in "0123456789":
                toks.append(("time", body))
                continue
            k = 0
            while k < len(body) and body[k] not in ".\t\n\f ":
                k += 1
            name = body[:k]
            while k < len(body) and body[k] == ".":
                k += 1
                while k < len(body) and body[k] not in ".\t\n\f ":
                    k += 1
            toks.append(("open", name, body[k:].strip()))
        else:
            buf.append(c)
            i += 1
    if buf:
        toks.append(("text", "".join(buf)))
    return toks


def cue(start, end, settings, text):
    stack = []
    lines = [[]]
    balanced = True
    unknown = []
    for tok in tokenize("\n".join(text)):
        if tok[0] == "text":
            st = frozenset(stack)
            for ch in tok[1]:
                if ch == "\n":
                    lines.append([])
                else:
                    lines[-1].append((ch, st))
        elif tok[0] == "open":
            if tok[1] in TAGS:
                stack.append(tok[1])
            else:
                unknown.append(tok[1])
        elif tok[0] == "close":
            if stack and stack[-1] == tok[1]:
                stack.pop()
            else:
                balanced = False
    if stack:
        balanced = False
    return Cue(start, end, ["".join(c for c, _ in l) for l in lines], chars=lines, settings=settings[0],
               raw=settings[1], balanced=balanced, unknown=unknown)
