"""Strict XML 1.0 parser (no DTD), written independently of pycaption, bs4 and lxml."""


class XMLError(Exception):
    pass


class El:
    def __init__(self, name, attrs, parent):
        self.name, self.attrs, self.parent, self.kids = name, attrs, parent, []

    def local(self):
        return self.name.split(":")[-1]

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, El):
                for x in k.walk():
                    yield x

    def find(self, local):
        return [e for e in self.walk() if e.local() == local]

    def children(self, local=None):
        return [k for k in self.kids if isinstance(k, El) and (local is None or k.local() == local)]

    def text(self):
        return "".join(k.text() if isinstance(k, El) else k for k in self.kids)


# everything that is not an XML 1.0 Char
BAD = "".join([chr(i) for i in range(32) if i not in (9, 10, 13)] + [chr(i) for i in range(0xD800, 0xE000)] + ["\ufffe", "\uffff"])


def is_char(c):
    return c not in BAD


def is_name_start(c):
    return c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_" or (c >= "\u00c0" and c.isalpha())


def is_name(c):
    return is_name_start(c) or c in "0123456789-." or c == "\u00b7"


WS = " \t\n\r"
PREDEF = {"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": '"'}


class Parser:
    def __init__(self, s):
        self.s = s.replace("\r\n", "\n").replace("\r", "\n")
        self.i = 0
        self.n = len(self.s)

    def err(self, msg):
        raise XMLError(msg + " at " + str(self.i))

    def ws(self):
        k = self.i
        while self.i < self.n and self.s[self.i] in WS:
            self.i += 1
        return self.i > k

    def at(self, lit):
        return self.s[self.i:self.i + len(lit)] == lit

    def expect(self, lit):
        if not self.at(lit):
            self.err("expected " + lit)
        self.i += len(lit)

    def name(self):
        k = self.i
        if self.i >= self.n or not is_name_start(self.s[self.i]):
            self.err("name expected")
        self.i += 1
        while self.i < self.n and (is_name(self.s[self.i]) or self.s[self.i] == ":"):
            self.i += 1
        nm = self.s[k:self.i]
        if nm.count(":") > 1 or nm.endswith(":"):
            self.err("bad qualified name")
        return nm

    def reference(self):
        self.expect("&")
        if self.i < self.n and self.s[self.i] == "#":
            self.i += 1
            hexa = self.i < self.n and self.s[self.i] == "x"
            if hexa:
                self.i += 1
            k = self.i
            digs = "0123456789abcdefABCDEF" if hexa else "0123456789"
            while self.i < self.n and self.s[self.i] in digs:
                self.i += 1
            if self.i == k:
                self.err("bad character reference")
            cp = int(self.s[k:self.i], 16 if hexa else 10)
            self.expect(";")
            if cp > 0x10FFFF or 0xD800 <= cp <= 0xDFFF or not is_char(chr(cp)):
                self.err("character reference to an illegal character")
            return chr(cp)
        for nm in PREDEF:
            if self.at(nm + ";"):
                self.i += len(nm) + 1
                return PREDEF[nm]
        self.err("undefined or malformed entity reference")

    def comment(self):
        self.expect("<!--")
        j = self.s.find("--", self.i)
        if j < 0 or self.s[j:j + 3] != "-->":
            self.err("malformed comment")
        self.i = j + 3

    def pi(self):
        self.expect("<?")
        nm = self.name()
        if nm.lower() == "xml":
            self.err("reserved processing instruction")
        j = self.s.find("?>", self.i)
        if j < 0:
            self.err("unterminated processing instruction")
        self.i = j + 2

    def misc(self):
        while True:
            self.ws()
            if self.at("<!--"):
                self.comment()
            elif self.at("<?"):
                self.pi()
            else:
                return

    def document(self):
        if self.at("\ufeff"):
            self.i += 1
        if self.at("<?xml"):
            j = self.s.find("?>", self.i)
            if j < 0:
                self.err("unterminated XML declaration")
            self.i = j + 2
        self.misc()
        if self.at("<!DOCTYPE"):
            self.err("document type declarations are not supported")
        root = self.element(None, {"xml": "http://www.w3.org/XML/1998/namespace", "": ""})
        self.misc()
        if self.i < self.n:
            self.err("content after the root element")
        return root

    def element(self, parent, ns):
        self.expect("<")
        el = El(self.name(), {}, parent)
        while True:
            sp = self.ws()
            if self.i >= self.n:
                self.err("unterminated tag")
            c = self.s[self.i]
            if c == ">":
                self.i += 1
                empty = False
                break
            if c == "/":
                self.expect("/>")
                empty = True
                break
            if not sp:
                self.err("white space expected between attributes")
            a = self.name()
            self.ws()
            self.expect("=")
            self.ws()
            if self.i >= self.n or self.s[self.i] not in "\"'":
                self.err("attribute value must be quoted")
            q = self.s[self.i]
            self.i += 1
            val = []
            while True:
                if self.i >= self.n:
                    self.err("unterminated attribute value")
                c = self.s[self.i]
                if c == q:
                    self.i += 1
                    break
                if c == "<":
                    self.err("'<' in an attribute value")
                if c == "&":
                    val.append(self.reference())
                    continue
                if not is_char(c):
                    self.err("illegal character")
                val.append(" " if c in "\t\n" else c)
                self.i += 1
            if a in el.attrs:
                self.err("duplicate attribute " + a)
            el.attrs[a] = "".join(val)
        ns = dict(ns)
        for a, v in el.attrs.items():
            if a == "xmlns":
                ns[""] = v
            elif a.startswith("xmlns:"):
                if v == "":
                    self.err("empty namespace")
                ns[a[6:]] = v
        for nm in [el.name] + [a for a in el.attrs if not a.startswith("xmlns")]:
            if ":" in nm and nm.split(":")[0] not in ns:
                self.err("undeclared namespace prefix in " + nm)
        pre = el.name.split(":")[0] if ":" in el.name else ""
        el.ns = ns[pre]
        el.nsmap = ns
        if empty:
            return el
        buf = []
        while True:
            if self.i >= self.n:
                self.err("unterminated element " + el.name)
            c = self.s[self.i]
            if c == "<":
                if buf:
                    el.kids.append("".join(buf))
                    buf = []
                if self.at("</"):
                    self.i += 2
                    nm = self.name()
                    if nm != el.name:
                        self.err("end tag " + nm + " does not match " + el.name)
                    self.ws()
                    self.expect(">")
                    return el
                if self.at("<!--"):
                    self.comment()
                elif self.at("<![CDATA["):
                    j = self.s.find("]]>", self.i)
                    if j < 0:
                        self.err("unterminated CDATA section")
                    el.kids.append(self.s[self.i + 9:j])
                    self.i = j + 3
                elif self.at("<?"):
                    self.pi()
                else:
                    el.kids.append(self.element(el, ns))
            elif c == "&":
                buf.append(self.reference())
            else:
                if c == "]" and self.at("]]>"):
                    self.err("']]>' in character data")
                if not is_char(c):
                    self.err("illegal character")
                buf.append(c)
                self.i += 1


def parse(s):
    return Parser(s).document()
