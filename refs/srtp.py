"""SRT block grammar and MicroDVD line grammar."""
from refs.common import Cue, FormatError, all_digits, clock, split_lines


def parse(doc):
    lines = split_lines(doc)
    i = 0
    cues = []
    while True:
        while i < len(lines) and lines[i].strip() == "":
            i += 1
        if i >= len(lines):
            return cues
        if not all_digits(lines[i]):
            raise FormatError("cue number expected")
        if int(lines[i]) != len(cues) + 1:
            raise FormatError("cue numbers must be consecutive")
        i += 1
        if i >= len(lines):
            raise FormatError("timing line expected")
        t = lines[i].split(" --> ")
        if len(t) != 2:
            raise FormatError("timing line expected")
        start, end = clock(t[0], ","), clock(t[1], ",")
        i += 1
        text = []
        while i < len(lines) and lines[i].strip() != "":
            text.append(lines[i])
            i += 1
        cues.append(Cue(start, end, text))


def parse_multi(doc):
    """pycaption joins languages with this separator line."""
    return [parse(p) for p in doc.split("MULTI-LANGUAGE SRT\n")]


def parse_microdvd(doc):
    """{start}{end}line|line ; times are returned in frames."""
    cues = []
    for line in split_lines(doc):
        if line == "":
            continue
        vals = []
        i = 0
        for _ in range(2):
            if line[i:i + 1] != "{":
                raise FormatError("'{' expected")
            j = line.find("}", i)
            if j < 0 or not all_digits(line[i + 1:j]):
                raise FormatError("frame number expected")
            vals.append(int(line[i + 1:j]))
            i = j + 1
        cues.append(Cue(vals[0], vals[1], line[i:].split("|")))
    return cues
