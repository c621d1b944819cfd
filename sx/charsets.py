"""Character set specifications usable by harnesses (resolved to masks only in symbolic mode)."""


class CS:
    def __init__(self, base="", plus="", minus="", minus_cs=None, inter=None):
        self.base, self.plus, self.minus, self.minus_cs, self.inter = base, plus, minus, minus_cs, inter

    def mask(self):
        from . import core
        m = 0
        if self.base == "printable":
            m = core.cached_pred("isprintable", str.isprintable) & core.FULL
            m &= ~core.mask_range(0xE000, 0xF8FF)
        elif self.base == "any":
            m = core.FULL & ~core.mask_range(0xD800, 0xDFFF) & ~1
        elif self.base == "ascii":
            m = core.mask_range(0x20, 0x7E)
        elif self.base == "alnum":
            m = core.mask_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
        elif self.base == "digit":
            m = core.mask_of("0123456789")
        elif self.base:
            m = core.mask_of(self.base[1:]) if self.base.startswith("=") else 0
        m |= core.mask_of(self.plus)
        m &= ~core.mask_of(self.minus)
        if self.minus_cs is not None:
            m &= ~self.minus_cs.mask()
        if self.inter is not None:
            m &= self.inter.mask()
        return m


PRINTABLE = CS("printable")
ANY = CS("any")
ASCII = CS("ascii")
DIGIT = CS("digit")
ALNUM = CS("alnum")


def chars(s):
    return CS("", plus=s)
