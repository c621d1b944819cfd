"""Symbolic regular expression matcher over re._parser trees (exact backtracking semantics)."""
import re
from re import _parser, _constants as C
import _sre
from re import _casefix

from . import core
from .core import ALL, UNI, cached_pred, has_ph

_case_classes = None


def case_classes():
    global _case_classes
    if _case_classes is None:
        cls = {}
        for o in range(UNI):
            if _sre.unicode_iscased(o):
                lo = _sre.unicode_tolower(o)
                cls.setdefault(lo, set()).update((o, lo))
        for lo, extra in _casefix._EXTRA_CASES.items():
            tgt = cls.setdefault(lo, {lo})
            for e in extra:
                tgt.add(e)
                tgt |= cls.get(e, set())
        out = []
        for s in cls.values():
            if len(s) > 1:
                m = 0
                for o in s:
                    if o < UNI:
                        m |= 1 << o
                out.append(m)
        _case_classes = out
    return _case_classes


def close_case(m):
    for _ in range(2):
        for cm in case_classes():
            if m & cm:
                m |= cm
    return m


def cat_mask(av, flags):
    asc = flags & re.ASCII
    base = {
        C.CATEGORY_DIGIT: ("\\d", False), C.CATEGORY_NOT_DIGIT: ("\\d", True),
        C.CATEGORY_SPACE: ("\\s", False), C.CATEGORY_NOT_SPACE: ("\\s", True),
        C.CATEGORY_WORD: ("\\w", False), C.CATEGORY_NOT_WORD: ("\\w", True),
    }[av]
    rx = re.compile(base[0], re.ASCII if asc else 0)
    m = cached_pred(("cat", base[0], bool(asc)), lambda c: rx.match(c) is not None)
    return ALL & ~m if base[1] else m


def set_mask(items, flags):
    neg = False
    m = 0
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            m |= 1 << min(av, UNI)
        elif op is C.RANGE:
            lo, hi = av
            if lo < UNI:
                h = min(hi, UNI - 1)
                m |= ((1 << (h - lo + 1)) - 1) << lo
            if hi >= UNI:
                m |= 1 << UNI
        elif op is C.CATEGORY:
            m |= cat_mask(av, flags)
        else:
            raise NotImplementedError(op)
    if flags & re.IGNORECASE:
        m = close_case(m)
    return ALL & ~m if neg else m


def char_mask(op, av, flags):
    if op is C.LITERAL:
        return set_mask([(op, av)], flags)
    if op is C.NOT_LITERAL:
        return ALL & ~set_mask([(C.LITERAL, av)], flags)
    if op is C.ANY:
        return ALL if flags & re.DOTALL else ALL & ~(1 << 10)
    if op is C.IN:
        return set_mask(av, flags)
    if op is C.CATEGORY:
        return cat_mask(av, flags)
    return None


class State:
    __slots__ = ("s", "n", "g", "ctx", "start0", "pos0")


def compile_seq(p, flags):
    items = [compile_node(op, av, flags) for op, av in p]
    if not items:
        return lambda st, i, k: k(i)
    if len(items) == 1:
        return items[0]

    def seq(st, i, k):
        def step(j, i):
            if j == len(items):
                return k(i)
            return items[j](st, i, lambda i2: step(j + 1, i2))
        return step(0, i)
    return seq


def compile_node(op, av, flags):
    m = char_mask(op, av, flags)
    if m is not None:
        def one(st, i, k):
            return i < st.n and st.ctx.ch_in(st.s[i], m) and k(i + 1)
        return one
    if op is C.MAX_REPEAT or op is C.MIN_REPEAT or op is C.POSSESSIVE_REPEAT:
        lo, hi, sub = av
        hi = 1 << 60 if hi is C.MAXREPEAT else hi
        single = None
        if len(sub) == 1:
            single = char_mask(sub[0][0], sub[0][1], flags)
        if single is not None:
            return rep_single(single, lo, hi, op)
        return rep_general(compile_seq(sub, flags), lo, hi, op)
    if op is C.SUBPATTERN:
        gid, addf, delf, sub = av
        body = compile_seq(sub, (flags | addf) & ~delf)
        if gid is None:
            return body

        def grp(st, i, k):
            old = st.g[gid]

            def done(j):
                prev = st.g[gid]
                st.g[gid] = (i, j)
                if k(j):
                    return True
                st.g[gid] = prev
                return False
            if body(st, i, done):
                return True
            st.g[gid] = old
            return False
        return grp
    if op is C.BRANCH:
        alts = [compile_seq(a, flags) for a in av[1]]

        def br(st, i, k):
            for a in alts:
                if a(st, i, k):
                    return True
            return False
        return br
    if op is C.AT:
        return compile_at(av, flags)
    if op is C.ASSERT or op is C.ASSERT_NOT:
        d, sub = av
        body = compile_seq(sub, flags)
        width = sub.getwidth()[0] if d < 0 else 0
        pos = op is C.ASSERT

        def look(st, i, k):
            j = i - width if d < 0 else i
            ok = False
            if j >= 0:
                saved = list(st.g)
                if d < 0:
                    ok = body(st, j, lambda e: e == i)
                else:
                    ok = body(st, j, lambda e: True)
                if not pos:
                    st.g[:] = saved
            return k(i) if ok == pos else False
        return look
    if op is C.GROUPREF:
        def ref(st, i, k):
            g = st.g[av]
            if g is None:
                return False
            t = st.s[g[0]:g[1]]
            u = st.s[i:i + len(t)]
            if len(u) < len(t):
                return False
            if flags & re.IGNORECASE:
                st.ctx.note("realize:ignorecase backreference")
            return st.ctx.str_eq(t, u) and k(i + len(t))
        return ref
    if op is C.GROUPREF_EXISTS:
        gid, yes, no = av
        y = compile_seq(yes, flags)
        nn = compile_seq(no, flags) if no else (lambda st, i, k: k(i))

        def cond(st, i, k):
            return y(st, i, k) if st.g[gid] is not None else nn(st, i, k)
        return cond
    if op is C.ATOMIC_GROUP:
        body = compile_seq(av, flags)

        def atom(st, i, k):
            end = []
            if not body(st, i, lambda e: (end.append(e), True)[1]):
                return False
            return k(end[-1])
        return atom
    raise NotImplementedError(op)


def rep_single(m, lo, hi, op):
    def rep(st, i, k):
        s, n, ch_in = st.s, st.n, st.ctx.ch_in
        j = i
        lim = min(n, i + hi)
        if op is C.MIN_REPEAT:
            while j < i + lo:
                if j >= n or not ch_in(s[j], m):
                    return False
                j += 1
            while True:
                if k(j):
                    return True
                if j >= lim or not ch_in(s[j], m):
                    return False
                j += 1
        while j < lim and ch_in(s[j], m):
            j += 1
        if op is C.POSSESSIVE_REPEAT:
            return j - i >= lo and k(j)
        while j - i >= lo:
            if k(j):
                return True
            j -= 1
        return False
    return rep


def rep_general(body, lo, hi, op):
    def rep(st, i, k):
        if op is C.POSSESSIVE_REPEAT:
            j, n = i, 0
            while n < hi:
                end = []
                if not body(st, j, lambda e: (end.append(e), True)[1]):
                    break
                n += 1
                if end[-1] == j:
                    break
                j = end[-1]
            return n >= lo and k(j)

        def go(n, i):
            if op is C.MIN_REPEAT:
                if n >= lo and k(i):
                    return True
                if n < hi:
                    return body(st, i, lambda e: False if (e == i and n >= lo) else go(n + 1, e))
                return False
            if n < hi:
                saved = list(st.g)
                if body(st, i, lambda e: False if (e == i and n >= lo) else go(n + 1, e)):
                    return True
                st.g[:] = saved
            return n >= lo and k(i)
        return go(0, i)
    return rep


WORD = lambda flags: cat_mask(C.CATEGORY_WORD, flags)


def compile_at(av, flags):
    if av is C.AT_BEGINNING:
        if flags & re.MULTILINE:
            return lambda st, i, k: (i == 0 or st.ctx.ch_in(st.s[i - 1], 1 << 10)) and k(i)
        return lambda st, i, k: i == 0 and k(i)
    if av is C.AT_BEGINNING_STRING:
        return lambda st, i, k: i == 0 and k(i)
    if av is C.AT_END:
        if flags & re.MULTILINE:
            return lambda st, i, k: (i == st.n or st.ctx.ch_in(st.s[i], 1 << 10)) and k(i)
        return lambda st, i, k: (i == st.n or (i == st.n - 1 and st.ctx.ch_in(st.s[i], 1 << 10))) and k(i)
    if av is C.AT_END_STRING:
        return lambda st, i, k: i == st.n and k(i)
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        w = WORD(flags)
        want = av is C.AT_BOUNDARY

        def bnd(st, i, k):
            a = i > 0 and st.ctx.ch_in(st.s[i - 1], w)
            b = i < st.n and st.ctx.ch_in(st.s[i], w)
            return ((a != b) == want) and k(i)
        return bnd
    raise NotImplementedError(av)


def first_mask(p, flags):
    """(mask of possible first chars, nullable)"""
    m = 0
    for op, av in p:
        cm = char_mask(op, av, flags)
        if cm is not None:
            return m | cm, False
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            fm, nul = first_mask(av[2], flags)
            m |= fm
            if av[0] > 0 and not nul:
                return m, False
        elif op is C.SUBPATTERN:
            fm, nul = first_mask(av[3], (flags | av[1]) & ~av[2])
            m |= fm
            if not nul:
                return m, False
        elif op is C.BRANCH:
            anynul = False
            for a in av[1]:
                fm, nul = first_mask(a, flags)
                m |= fm
                anynul |= nul
            if not anynul:
                return m, False
        elif op is C.ATOMIC_GROUP:
            fm, nul = first_mask(av, flags)
            m |= fm
            if not nul:
                return m, False
        elif op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            continue
        else:
            return ALL, True
    return m, True


class SxMatch:
    def __init__(self, rx, s, groups, pos, endpos):
        self.re, self.string, self._g, self.pos, self.endpos = rx, s, groups, pos, endpos

    def _ix(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if hasattr(g, "__index__"):
            g = g.__index__()
        if g < 0 or g >= len(self._g):
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        sp = self._g[self._ix(g)]
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, len(self._g)))

    def groupdict(self, default=None):
        return {k: self._get(i, default) for k, i in self.re.groupindex.items()}

    def start(self, g=0):
        sp = self._g[self._ix(g)]
        return -1 if sp is None else sp[0]

    def end(self, g=0):
        sp = self._g[self._ix(g)]
        return -1 if sp is None else sp[1]

    def span(self, g=0):
        sp = self._g[self._ix(g)]
        return (-1, -1) if sp is None else sp

    @property
    def lastindex(self):
        best = None
        for i in range(1, len(self._g)):
            if self._g[i] is not None and (best is None or self._g[i][1] >= self._g[best][1]):
                if best is None or self._g[i][1] > self._g[best][1]:
                    best = i
        return best

    @property
    def lastgroup(self):
        li = self.lastindex
        for k, i in self.re.groupindex.items():
            if i == li:
                return k
        return None

    def expand(self, template):
        return expand(self.re, template, self)

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


_compiled = {}


class SymPattern:
    def __init__(self, rx):
        self.rx = rx
        tree = _parser.parse(rx.pattern, rx.flags & ~re.DEBUG)
        flags = tree.state.flags
        self.matcher = compile_seq(tree, flags)
        self.first, self.nullable = first_mask(tree, flags)
        if rx.flags & re.LOCALE:
            raise NotImplementedError

    def at(self, s, i, endpos, full=False, must_advance=False, pos0=0):
        st = State()
        st.s = s
        st.n = endpos
        st.g = [None] * (self.rx.groups + 1)
        st.ctx = core.CTX
        end = []

        def k(e):
            if full and e != endpos:
                return False
            if must_advance and e == i:
                return False
            end.append(e)
            return True
        if self.matcher(st, i, k):
            st.g[0] = (i, end[-1])
            return SxMatch(self.rx, s, st.g, pos0, endpos)
        return None

    def match(self, s, pos=0, endpos=None):
        s, pos, endpos = self._prep(s, pos, endpos)
        return self.at(s, pos, endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        s, pos, endpos = self._prep(s, pos, endpos)
        return self.at(s, pos, endpos, full=True)

    def _prep(self, s, pos, endpos):
        n = len(s)
        endpos = n if endpos is None else max(0, min(int(endpos), n))
        pos = max(0, min(int(pos), n))
        return s, pos, endpos

    def search(self, s, pos=0, endpos=None):
        s, pos, endpos = self._prep(s, pos, endpos)
        return self._search(s, pos, endpos)

    def _search(self, s, pos, endpos, must_advance=False):
        ctx = core.CTX
        for i in range(pos, endpos + 1):
            if not self.nullable:
                if i >= endpos:
                    return None
                if not ctx.ch_may(s[i], self.first):
                    continue
            m = self.at(s, i, endpos, must_advance=must_advance and i == pos, pos0=pos)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        s, pos, endpos = self._prep(s, pos, endpos)
        out = []
        must = False
        while pos <= endpos:
            m = self._search(s, pos, endpos, must)
            if m is None:
                break
            out.append(m)
            must = m.end() == m.start()
            pos = m.end()
        return iter(out)

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.rx.groups == 0:
                out.append(m.group())
            elif self.rx.groups == 1:
                out.append(m._get(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def subn(self, repl, s, count=0):
        out = []
        last = 0
        n = 0
        if not callable(repl):
            lit = None if "\\" in repl else repl
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[last:m.start()])
            if callable(repl):
                out.append(repl(m))
            elif lit is not None:
                out.append(lit)
            else:
                out.append(expand(self.rx, repl, m))
            last = m.end()
            n += 1
        out.append(s[last:])
        return "".join(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


def expand(rx, template, m):
    parts = _parser.parse_template(template, rx)
    out = []
    for p in parts:
        if isinstance(p, int):
            out.append(m._get(p, ""))
        else:
            out.append(p)
    return "".join(out)


def sym(rx):
    p = _compiled.get(rx)
    if p is None:
        p = _compiled[rx] = SymPattern(rx)
    return p


METHODS = {"match", "fullmatch", "search", "finditer", "findall", "split", "sub", "subn"}


def pattern_call(rx, name, args, kw):
    """Called when one of the string arguments carries placeholders."""
    ctx = core.CTX
    if isinstance(rx.pattern, bytes):
        return getattr(rx, name)(*args, **kw)
    kw = dict(kw)
    if "string" in kw:
        args = tuple(args) + (kw.pop("string"),) if name not in ("sub", "subn") else args
    return getattr(sym(rx), name)(*args, **kw)
