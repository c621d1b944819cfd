"""Independent CEA-608 tables (from the standard's layout, not from pycaption) and an SCC line builder."""


def par(b):
    """byte with odd parity"""
    return b | 0x80 if bin(b).count("1") % 2 == 0 else b


def w(a, b):
    return f"{par(a):02x}{par(b):02x}"


_basic = {i: chr(i) for i in range(0x20, 0x80)}
_basic.update({0x2a: "á", 0x5c: "é", 0x5e: "í", 0x5f: "ó", 0x60: "ú", 0x7b: "ç", 0x7c: "÷", 0x7d: "Ñ", 0x7e: "ñ",
               0x7f: "█"})
# byte (two hex digits) -> character
BASIC = {f"{par(k):02x}": v for k, v in _basic.items()}
SPECIAL = {w(0x11, 0x30 + i): c for i, c in enumerate("®°½¿™¢£♪à èâêîôû")}
EXT = {w(0x12, 0x20 + i): c for i, c in enumerate("ÁÉÓÚÜü‘¡*'—©℠•“”ÀÂÇÈÊËëÎÏïÔÙùÛ«»")}
EXT.update({w(0x13, 0x20 + i): c for i, c in enumerate("ÃãÍÌìÒòÕõ{}\\^_¦~ÄäÖöß¥¤|ÅåØø┌┐└┘")})
# the two apostrophes (0x27 and the extended plain quote) are told apart differently by different decoders
EQUIV = {"’": "'", "│": "|", "\xa0": " "}

ROW = {1: (0x11, 0x40), 2: (0x11, 0x60), 3: (0x12, 0x40), 4: (0x12, 0x60), 5: (0x15, 0x40), 6: (0x15, 0x60),
       7: (0x16, 0x40), 8: (0x16, 0x60), 9: (0x17, 0x40), 10: (0x17, 0x60), 11: (0x10, 0x40), 12: (0x13, 0x40),
       13: (0x13, 0x60), 14: (0x14, 0x40), 15: (0x14, 0x60)}

RCL, BS, AOF, AON, DER = (w(0x14, x) for x in (0x20, 0x21, 0x22, 0x23, 0x24))
RU2, RU3, RU4, FON, RDC = (w(0x14, x) for x in (0x25, 0x26, 0x27, 0x28, 0x29))
TR, RTD, EDM, CR, ENM, EOC = (w(0x14, x) for x in (0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f))
HEADER = "Scenarist_SCC V1.0"


def pac(row, indent=None, italics=False, underline=False, color=0):
    """indent 0, 4, ... 28; or a colour (0 white .. 6 magenta) / italics at column 0"""
    hi, lo = ROW[row]
    u = 1 if underline else 0
    if italics:
        return w(hi, lo + 0x0e + u)
    if indent is None:
        return w(hi, lo + 2 * color + u)
    return w(hi, lo + 0x10 + indent // 4 * 2 + u)


def tab(n):
    return w(0x17, 0x20 + n)


def midrow(italics=False, underline=False, color=0):
    return w(0x11, 0x20 + (0x0e if italics else 2 * color) + (1 if underline else 0))


def bytes_of(codes):
    """two-digit byte codes -> list of words, padded with a null"""
    codes = list(codes)
    if len(codes) % 2:
        codes.append("80")
    return [codes[i] + codes[i + 1] for i in range(0, len(codes), 2)]


def enc(s):
    """basic text -> list of byte codes"""
    rev = {v: k for k, v in BASIC.items()}
    return [rev[c] for c in s]


def doc(lines):
    """[(timecode, [words])] -> SCC document"""
    return HEADER + "".join("\n\n" + tc + "\t" + " ".join(ws) for tc, ws in lines) + "\n"
