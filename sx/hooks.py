"""Run-time hooks the instrumented code calls."""
import builtins
import datetime
import enum
import functools
import math
import operator
import re
import types

import z3

from . import core, rx, strs
from .core import PH_RE, Term, has_ph
from .values import (SymBool, SymInt, SymReal, floor_, from_dec, mk, notb, round_half_even, trunc_, wrapb,
                     concretize_int, realize_real, to_z)

_str = str
_type = type
SYM = (SymInt, SymReal, SymBool)


def C():
    return core.CTX


def ph_in(x, depth=2):
    if isinstance(x, _str):
        return not x.isascii() and PH_RE.search(x) is not None
    if depth and isinstance(x, (list, tuple)):
        return any(ph_in(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(ph_in(y, depth - 1) for y in x.values())
    return False


def any_ph(args, kw=None):
    for a in args:
        if isinstance(a, _str) and not a.isascii() and PH_RE.search(a) is not None:
            return True
    if kw:
        for a in kw.values():
            if isinstance(a, _str) and has_ph(a):
                return True
    return False


# ------------------------------------------------------------------ comparisons
def sx_eq(a, b):
    if isinstance(a, _str) and isinstance(b, _str):
        if a.isascii() and b.isascii():
            return a == b
        if (has_ph(a) or has_ph(b)) and _type(a).__eq__ is _str.__eq__ and _type(b).__eq__ is _str.__eq__:
            return C().str_eq(a, b)
        return a == b
    ta, tb = _type(a), _type(b)
    if ta is tb and (ta is list or ta is tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is not y and not sx_eq(x, y):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict) and _type(a).__eq__ is dict.__eq__:
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if not sx_contains(b, k):
                return False
            w = sx_getitem(b, k)
            if v is not w and not sx_eq(v, w):
                return False
        return True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if any(ph_in(x) for x in a) or any(ph_in(x) for x in b):
            la, lb = set_list(a), set_list(b)
            return all(sx_contains(lb, x) for x in la) and all(sx_contains(la, x) for x in lb)
    if isinstance(a, list) and isinstance(b, list) and _type(a).__eq__ is list.__eq__ and \
            _type(b).__eq__ is list.__eq__:
        return len(a) == len(b) and all(x is y or sx_eq(x, y) for x, y in zip(a, b))
    return a == b


def sx_ne(a, b):
    if isinstance(a, _str) and isinstance(b, _str):
        if a.isascii() and b.isascii():
            return a != b
        if _type(a).__ne__ is _str.__ne__:
            return not sx_eq(a, b)
        return a != b
    if isinstance(a, (list, tuple, dict, set, frozenset)) and _type(a).__eq__ in (
            list.__eq__, tuple.__eq__, dict.__eq__, set.__eq__, frozenset.__eq__):
        return not sx_eq(a, b)
    return a != b


def _ord(op, strf):
    def cmp(a, b):
        if isinstance(a, _str) and isinstance(b, _str) and (has_ph(a) or has_ph(b)):
            return strf(a, b)
        if isinstance(a, (tuple, list)) and _type(a) is _type(b):
            for x, y in zip(a, b):
                if not sx_eq(x, y):
                    return cmp(x, y)
            return op(len(a), len(b))
        return op(a, b)
    return cmp


sx_lt = _ord(operator.lt, strs.str_lt)
sx_gt = _ord(operator.gt, lambda a, b: strs.str_lt(b, a))
sx_le = _ord(operator.le, lambda a, b: not strs.str_lt(b, a))
sx_ge = _ord(operator.ge, lambda a, b: not strs.str_lt(a, b))


def sx_is(a, b):
    if isinstance(a, SymBool) and (b is True or b is False):
        return bool(a) is b
    if isinstance(b, SymBool) and (a is True or a is False):
        return bool(b) is a
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


def key_hits(key, keys):
    """Yield-style search of a symbolic key among keys: returns the matching key or raises KeyError."""
    c = C()
    key = c.norm(key)
    if not has_ph(key):
        for k in keys:
            if isinstance(k, _str) and (k == key or (has_ph(k) and c.str_eq(k, key))):
                return k
        raise KeyError(key)
    for k in keys:
        if k is key or (isinstance(k, _str) and k == key):
            return k
    for k in keys:
        if isinstance(k, _str) and len(k) == len(key) and c.str_eq(key, k):
            return k
    raise KeyError(key)


def hit_mask(key, keys):
    """For a key depending on one variable: {key: mask} of the matches, or None."""
    var = strs.single_var(key)
    if var is None:
        return None, None
    out = {}
    for k in keys:
        if isinstance(k, _str) and len(k) == len(key):
            m = strs.solve_single(key, var, k)
            if m is None:
                return None, None
            if m:
                out[k] = m
    return var, out


def sx_contains(cont, x):
    c = C()
    if isinstance(cont, _str):
        if isinstance(x, _str) and (has_ph(cont) or has_ph(x)):
            return strs.contains(cont, x)
        return x in cont
    if isinstance(x, _str) and has_ph(x):
        if isinstance(cont, dict) and _type(cont).__contains__ is dict.__contains__ or \
                isinstance(cont, (set, frozenset, _type({}.keys()))):
            keys = list(cont) if not isinstance(cont, (set, frozenset)) else set_list(cont)
            return str_in(x, keys)
        if isinstance(cont, (list, tuple)):
            return str_in(x, cont)
        return x in cont
    if c.have_ph_keys and isinstance(x, _str) and isinstance(cont, (dict, set, frozenset)):
        keys = list(cont) if isinstance(cont, dict) else set_list(cont)
        if any(isinstance(k, _str) and has_ph(k) for k in keys):
            return str_in(x, keys)
    if isinstance(cont, (list, tuple)) and _type(cont).__contains__ in (list.__contains__, tuple.__contains__):
        for y in cont:
            if y is x or sx_eq(y, x):
                return True
        return False
    if isinstance(x, SYM) and isinstance(cont, (dict, set, frozenset, range)):
        if isinstance(cont, range) and cont.step == 1 and isinstance(x, SymInt):
            return wrapb(z3.And(x.z >= cont.start, x.z < cont.stop))
        for y in list(cont):
            if sx_eq(x, y):
                return True
        return False
    return x in cont


def str_in(x, keys):
    c = C()
    var, hm = hit_mask(x, keys)
    if var is not None:
        m = 0
        for v in hm.values():
            m |= v
        return c.test(Term(var), m)
    try:
        key_hits(x, keys)
        return True
    except KeyError:
        return False


def sx_notin(cont, x):
    r = sx_contains(cont, x)
    return notb(r)


def in_(x, cont):
    return sx_contains(cont, x)


def notin_(x, cont):
    return notb(sx_contains(cont, x))


CMP = {"==": sx_eq, "!=": sx_ne, "<": sx_lt, ">": sx_gt, "<=": sx_le, ">=": sx_ge,
       "is": sx_is, "isnot": sx_isnot, "in": in_, "notin": notin_}


def sx_chain(a, *rest):
    """a op1 b op2 c ... with lazily evaluated operands."""
    for i in range(0, len(rest), 2):
        b = rest[i + 1]()
        r = CMP[rest[i]](a, b)
        if i + 2 >= len(rest):
            return r
        if not r:
            return r
        a = b


# ------------------------------------------------------------------ subscripts
def sx_getitem(o, k):
    c = C()
    if isinstance(k, _str):
        if isinstance(o, dict) and (has_ph(k) or c.have_ph_keys):
            if has_ph(k) or any(isinstance(x, _str) and has_ph(x) for x in o):
                return dict_get(o, k)
        return o[k]
    if isinstance(k, SYM) and isinstance(o, dict):
        for y in list(o):
            if sx_eq(k, y):
                return o[y]
        return o[k]
    return o[k]


def dict_get(o, k):
    """o[k] with symbolic keys; honours __missing__ (defaultdict)."""
    c = C()
    base = dict.__getitem__
    var, hm = hit_mask(k, list(o))
    if var is not None and len(hm) > 1:
        tot = 0
        for m in hm.values():
            tot |= m
        if c.test(Term(var), tot):
            d = c.dom[var.id]
            groups = {}
            for kk, m in hm.items():
                if m & d:
                    v = base(o, kk)
                    g = ("s", len(v)) if _type(v) is _str and not has_ph(v) else ("o", id(v))
                    gg = groups.setdefault(g, [0, {}])
                    gg[0] |= m & d
                    for b in core.bits_of(m & d):
                        gg[1][b] = v
            gk = list(groups)
            for g in gk[:-1]:
                if c.test(Term(var), groups[g][0]):
                    break
            else:
                g = gk[-1]
            vals = {b: v for b, v in groups[g][1].items() if (c.dom[var.id] >> b) & 1}
            return strs.merge(var, vals, g[0])
        return missing(o, k)
    try:
        kk = key_hits(k, list(o))
    except KeyError:
        return missing(o, k)
    return base(o, kk)


def missing(o, k):
    m = getattr(_type(o), "__missing__", None)
    if m is not None:
        C().have_ph_keys = True
        return m(o, k)
    raise KeyError(k)


def sx_setitem(o, k, v):
    c = C()
    if isinstance(o, dict) and isinstance(k, _str) and (has_ph(k) or c.have_ph_keys):
        if has_ph(k) or any(isinstance(x, _str) and has_ph(x) for x in o):
            c.have_ph_keys = True
            try:
                k = key_hits(k, list(o))
            except KeyError:
                pass
    elif isinstance(o, dict) and isinstance(k, SYM):
        for y in list(o):
            if sx_eq(k, y):
                k = y
                break
    o[k] = v


def sx_dictdisp(*items):
    d = {}
    for it in items:
        if len(it) == 2:
            sx_setitem(d, it[0], it[1])
        else:
            src = it[0]
            for k in src.keys():
                sx_setitem(d, k, sx_getitem(src, k))
    return d


def sx_mkdict(items):
    d = {}
    for k, v in items:
        sx_setitem(d, k, v)
    return d


def sx_delitem(o, k):
    c = C()
    if isinstance(o, dict) and isinstance(k, _str) and (has_ph(k) or c.have_ph_keys):
        k = key_hits(k, list(o))
    del o[k]


OPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
       "//": operator.ifloordiv, "|": operator.ior, "&": operator.iand, "^": operator.ixor,
       "**": operator.ipow, "<<": operator.ilshift, ">>": operator.irshift, "@": operator.imatmul}


def sx_augitem(o, k, op, v):
    cur = sx_getitem(o, k)
    sx_setitem(o, k, sx_mod(cur, v) if op == "%" else OPS[op](cur, v))


# ------------------------------------------------------------------ % formatting, repr
PCT = re.compile(r"%(?:\(([^)]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])")


def sx_mod(a, b):
    if isinstance(a, (_str, bytes)):
        return pct(a, b)
    return a % b


def pct(a, b):
    if isinstance(a, bytes):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    special = any(isinstance(x, SYM) or (isinstance(x, _str) and has_ph(x)) for x in args) or has_ph(a)
    if isinstance(b, dict):
        special = any(isinstance(x, SYM) or (isinstance(x, _str) and has_ph(x)) for x in b.values()) or has_ph(a)
    if not special:
        return a % b
    out = []
    pos = 0
    i = 0
    for m in PCT.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == "%":
            out.append("%")
            continue
        if key is not None:
            v = b[key]
        else:
            if width == "*":
                width = _str(int(args[i]))
                i += 1
            if i >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[i]
            i += 1
        if typ in "di":
            if isinstance(v, SymReal):
                v = trunc_(v)
            elif isinstance(v, _str):
                raise TypeError("%d format: a real number is required, not str")
            s = format(v if isinstance(v, SymInt) else int(v), ("0" if "0" in flags and "-" not in flags else "") + (width or "") + "d")
            if "-" in flags and width:
                s = format(v, "d").ljust(int(width))
        elif typ in "fFeEgG":
            s = format(v if isinstance(v, (SymReal, SymInt)) else float(v),
                       ("0" if "0" in flags else "") + (width or "") + "." + (prec or "6") + typ)
        elif typ in "xXoc" and isinstance(v, SymInt):
            s = ("%" + (flags or "") + (width or "") + typ) % v.__index__()
        elif typ == "s":
            s = h_str(v)
            if prec:
                s = s[:int(prec)]
            if width:
                s = s.ljust(int(width)) if "-" in flags else s.rjust(int(width))
        elif typ in "ra":
            s = sx_repr(v)
            if width:
                s = s.rjust(int(width))
        else:
            s = ("%" + (flags or "") + (width or "") + (("." + prec) if prec else "") + typ) % (v,)
        out.append(s)
    out.append(a[pos:])
    if key_args_left(args, i, b):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


def key_args_left(args, i, b):
    return isinstance(b, tuple) and i < len(args)


def sx_repr(x):
    if isinstance(x, _str) and has_ph(x) and _type(x).__repr__ is _str.__repr__:
        return "'" + _str.__str__(x) + "'"
    if _type(x) in (list, tuple) and ph_in(x, 4):
        inner = ", ".join(sx_repr(y) for y in x)
        if _type(x) is list:
            return "[" + inner + "]"
        return "(" + inner + ("," if len(x) == 1 else "") + ")"
    if _type(x) is dict and ph_in(x, 4):
        return "{" + ", ".join(sx_repr(k) + ": " + sx_repr(v) for k, v in x.items()) + "}"
    return repr(x)


# ------------------------------------------------------------------ calls
SAFE_MODULES = {"copy", "collections", "functools", "itertools", "abc", "enum", "contextlib",
                "warnings", "logging", "typing", "weakref", "operator", "types", "dataclasses",
                "numbers", "collections.abc", "_weakrefset", "_collections_abc", "builtins",
                "copyreg", "sx", "io", "z3"}
SAFE_CLASSES = (list, tuple, dict, set, frozenset, types.GeneratorType, type(iter([])),
                BaseException)
_hook_ids = {}


def hook(*fs):
    def deco(g):
        for f in fs:
            _hook_ids[id(f)] = g
            core.Ctx._kept.append(f)
        return g
    return deco


def sx_call(f, /, *a, **k):
    h = _hook_ids.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = _type(f)
    if t is types.FunctionType:
        g = f.__globals__
        if "__sx__" in g:
            return f(*a, **k)
        if any_ph(a, k):
            mod = (f.__module__ or "").split(".")[0]
            if mod not in SAFE_MODULES:
                a, k = realize_args(a, k, f"{f.__module__}.{f.__name__}")
        return f(*a, **k)
    if t is types.BuiltinFunctionType:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if any_ph(a, k) or any(isinstance(x, SYM) for x in a):
                mod = s.__name__ if s is not None else (f.__module__ or "")
                if mod not in ("builtins", "itertools", "_operator", "_functools", "_thread", "sys", "_collections"):
                    a, k = realize_args(a, k, f"{mod}.{f.__name__}")
            return f(*a, **k)
        if isinstance(s, type):
            return type_method(s, f, a, k)
        return sx_mcall(s, f.__name__, *a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a and isinstance(a[0], _str) and f.__objclass__ is _str:
            return str_method(a[0], f.__name__, a[1:], k, f.__get__(a[0]))
        if a and isinstance(a[0], f.__objclass__) and t is types.MethodDescriptorType and \
                f.__objclass__ in (dict, list, set):
            o, n, b = a[0], f.__name__, f.__get__(a[0])
            m = {dict: dict_method, list: list_method, set: set_method}[f.__objclass__]
            return m(o, n, b, a[1:], k)
        if a and f.__objclass__ is re.Pattern:
            return sx_mcall(a[0], f.__name__, *a[1:], **k)
        return f(*a, **k)
    if t is types.MethodType:
        return f(*a, **k)
    if t is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return sx_call(f.func, *(f.args + a), **kk)
    if isinstance(f, type):
        if issubclass(f, _str) and f is not _str and a:
            return f(*a, **k)
        if len(a) == 1 and not k and issubclass(f, enum.Enum) and isinstance(a[0], _str) and has_ph(a[0]):
            for m in f:
                if isinstance(m.value, _str) and bool(sx_eq(a[0], m.value)):
                    return m
            raise ValueError(f"{a[0]!r} is not a valid {f.__qualname__}")
        return f(*a, **k)
    if t is types.MethodWrapperType:
        s = f.__self__
        if isinstance(s, _str) and f.__name__ in strs.METHODS and (has_ph(s) or any_ph(a)):
            return strs.METHODS[f.__name__](s, *a, **k)
        return f(*a, **k)
    return f(*a, **k)


def type_method(s, f, a, k):
    n = f.__name__
    if s is dict and n == "fromkeys":
        return f(*a, **k)
    if s is _str and n == "maketrans":
        return f(*a, **k)
    return f(*a, **k)


def realize_args(a, k, why):
    c = C()

    def r(x):
        if isinstance(x, _str):
            return c.realize(x, why)
        if isinstance(x, SymInt):
            c.note("realize:" + why)
            return concretize_int(x, 1)
        if isinstance(x, SymReal):
            return realize_real(x)
        if isinstance(x, SymBool):
            return bool(x)
        return x
    return tuple(r(x) for x in a), {n: r(x) for n, x in k.items()}


def str_method(s, name, a, k, bound):
    if has_ph(s) or any_ph(a, k) or (name in ("startswith", "endswith") and a and ph_in(a[0])):
        m = strs.METHODS.get(name)
        if m is not None:
            if name == "join":
                return bound(*a, **k)
            return m(s, *a, **k)
        if name in ("__init__", "__new__", "__class__", "maketrans", "__format__"):
            return bound(*a, **k)
        c = C()
        a, k = realize_args(a, k, "str." + name)
        return getattr(c.realize(s, "str." + name), name)(*a, **k)
    return bound(*a, **k)


def set_list(s):
    return list(set.__iter__(s)) if isinstance(s, set) else list(s)


def sx_strfill(fn, x, name, *a):
    if fn is _str and isinstance(x, SymInt) and (
            (name == "zfill" and len(a) == 1) or (name == "rjust" and len(a) == 2 and a[1] == "0")) and \
            _type(a[0]) is int and 0 < a[0] < 20 and x.lo is not None and x.lo >= 0:
        return h_format(x, f"0{a[0]}d")
    return sx_mcall(sx_call(fn, x), name, *a)


def sx_mcall(o, name, /, *a, **k):
    if isinstance(o, _str):
        f = getattr(o, name)
        if _type(f) is types.BuiltinFunctionType:
            if o.isascii() and not a and not k:
                return f()
            return str_method(o, name, a, k, f)
        return sx_call(f, *a, **k)
    t = _type(o)
    if t is super:
        f = getattr(o, name)
        if _type(f) is types.MethodType:
            return f(*a, **k)
        if any_ph(a, k) and not isinstance(f.__self__, (dict, list, set, BaseException, object)):
            a, k = realize_args(a, k, "super()." + name)
        return f(*a, **k)
    if t is re.Pattern:
        if name in rx.METHODS and any_ph(a, k):
            return rx.pattern_call(o, name, a, k)
        return getattr(o, name)(*a, **k)
    f = getattr(o, name)
    tf = _type(f)
    if tf is types.MethodType:
        fn = f.__func__
        if _type(fn) is types.FunctionType:
            g = fn.__globals__
            if "__sx__" in g:
                return f(*a, **k)
            if any_ph(a, k):
                mod = (fn.__module__ or "").split(".")[0]
                if mod not in SAFE_MODULES:
                    a, k = realize_args(a, k, f"{fn.__module__}.{fn.__qualname__}")
            return f(*a, **k)
        return f(*a, **k)
    if tf is types.BuiltinFunctionType:
        if isinstance(o, dict):
            return dict_method(o, name, f, a, k)
        if isinstance(o, (set, frozenset)):
            return set_method(o, name, f, a, k)
        if isinstance(o, list):
            return list_method(o, name, f, a, k)
        if isinstance(o, tuple) and name in ("index", "count") and a:
            return list_method(list(o), name, getattr(list(o), name), a, k)
        if isinstance(o, types.ModuleType):
            return sx_call(f, *a, **k)
        if t in BOUNDARY:
            return BOUNDARY[t](o, name, f, a, k)
        if isinstance(o, (bytes, bytearray)):
            return f(*a, **k)
        if any_ph(a, k):
            h = boundary_for(o)
            if h is not None:
                return h(o, name, f, a, k)
            mod = t.__module__
            if mod.split(".")[0] not in SAFE_MODULES and mod not in ("_io", "_collections", "_thread"):
                a, k = realize_args(a, k, f"{t.__module__}.{t.__name__}.{name}")
        return f(*a, **k)
    return sx_call(f, *a, **k)


BOUNDARY = {}
_boundary_fns = []


def boundary_for(o):
    for pred, fn in _boundary_fns:
        if pred(o):
            return fn
    return None


def dict_method(o, name, f, a, k):
    c = C()
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__", "has_key") and a:
        key = a[0]
        sym = (isinstance(key, _str) and (has_ph(key) or (c.have_ph_keys and any(
            isinstance(x, _str) and has_ph(x) for x in o)))) or isinstance(key, SYM)
        if sym:
            if name == "__contains__":
                return sx_contains(o, key)
            if name == "__setitem__":
                return sx_setitem(o, *a)
            if name in ("get", "__getitem__"):
                if name == "get":
                    if not sx_contains(o, key):
                        return a[1] if len(a) > 1 else None
                return sx_getitem(o, key)
            if name == "setdefault":
                if not sx_contains(o, key):
                    sx_setitem(o, key, a[1] if len(a) > 1 else None)
                return sx_getitem(o, key)
            if name == "pop":
                try:
                    kk = key_hits(key, list(o))
                except KeyError:
                    if len(a) > 1:
                        return a[1]
                    raise
                return f(kk)
    if name == "update":
        src = dict(*a, **k)
        if c.have_ph_keys or any(isinstance(x, _str) and has_ph(x) for x in src):
            for kk, v in src.items():
                sx_setitem(o, kk, v)
            return None
    return f(*a, **k)


def list_method(o, name, f, a, k):
    if name in ("index", "count", "remove") and a:
        x = a[0]
        if name == "count":
            return sum(1 for y in o if y is x or sx_eq(y, x))
        rng = range(len(o))[slice(*a[1:])] if len(a) > 1 else range(len(o))
        for i in rng:
            if o[i] is x or sx_eq(o[i], x):
                if name == "index":
                    return i
                del o[i]
                return None
        raise ValueError(f"{sx_repr(x)} is not in list")
    if name == "sort":
        r = h_sorted(o, **k)
        o[:] = r
        return None
    return f(*a, **k)


def set_method(o, name, f, a, k):
    c = C()
    if a and isinstance(a[0], _str) and (has_ph(a[0]) or c.have_ph_keys):
        x = a[0]
        if name == "add":
            if not sx_contains(o, x):
                if has_ph(x):
                    c.have_ph_keys = True
                f(x)
            return None
        if name in ("remove", "discard"):
            try:
                f(key_hits(x, set_list(o)))
            except KeyError:
                if name == "remove":
                    raise
            return None
    return f(*a, **k)


# ------------------------------------------------------------------ builtins
@hook(len)
def h_len(x):
    return len(x)


@hook(isinstance)
def h_isinstance(x, cls):
    t = _type(x)
    if t is SymInt or t is SymReal or t is SymBool or t is rx.SxMatch:
        cl = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for q in cl:
            flat.extend(q if isinstance(q, tuple) else (q,))
        eq = {SymInt: (int,), SymReal: (float,), SymBool: (bool, int), rx.SxMatch: (re.Match,)}[t]
        if any(q in flat for q in eq):
            return True
        return isinstance(x, cls)
    return isinstance(x, cls)


@hook(type)
def h_type(*a, **k):
    if len(a) == 1:
        x = a[0]
        t = _type(x)
        if t is SymInt:
            return int
        if t is SymReal:
            return float
        if t is SymBool:
            return bool
        if t is SxSet:
            return set
        return t
    return _type(*a, **k)


@hook(int)
def h_int(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return trunc_(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, _str) and has_ph(x):
            base = a[1] if len(a) > 1 else k.get("base", 10)
            return strs.int_of(x, base)
    return int(*a, **k)


@hook(float)
def h_float(*a):
    if a:
        x = a[0]
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return x.to_real()
        if isinstance(x, _str) and has_ph(x):
            return strs.float_of(x)
    return float(*a)


@hook(bool)
def h_bool(*a):
    return bool(*a)


@hook(str)
def h_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, _str):
            t = _type(x)
            if t is _str:
                return x
            if t.__str__ is _str.__str__ or t.__str__ is object.__str__:
                return _str.__str__(x)
            return _str(x)
        if _type(x) in (list, tuple, dict):
            return sx_repr(x)
    return _str(*a, **k)


@hook(repr)
def h_repr(x):
    return sx_repr(x)


@hook(ord)
def h_ord(x):
    if isinstance(x, _str) and has_ph(x) and len(x) == 1:
        c = C()
        t = c.term(x)
        kv = c.known_value(t)
        if kv is not None:
            return kv
        ok, r = strs.table_apply(ord, x, limit=300)
        if ok:
            return r
        return mk(c.term_z(t), 0, core.UNI)
    return ord(x)


@hook(chr)
def h_chr(x):
    if isinstance(x, SymInt):
        c = C()
        if (x.lo is None or x.lo < 0) and bool(x < 0):
            raise ValueError("chr() arg not in range(0x110000)")
        if (x.hi is None or x.hi >= core.UNI) and bool(x >= core.UNI):
            return chr(concretize_int(x))
        if bool(z3b(z3.And(x.z >= 0xD800, x.z < 0xE000))):
            return chr(concretize_int(x))
        lo = max(0, x.lo or 0)
        hi = min(core.UNI - 1, x.hi if x.hi is not None else core.UNI - 1)
        m = core.mask_range(lo, hi) & ~core.mask_range(0xD800, 0xDFFF)
        v = c.new_var("chr", m)
        v.z = x.z
        v.entangled = True
        return c.ph(Term(v))
    return chr(x)


def z3b(e):
    return wrapb(e)


@hook(hash)
def h_hash(x):
    f = getattr(_type(x), "__sx_hash__", None)
    if f is not None:
        return f(x)
    return shash(x)


_hr = z3.Function("hash_real", z3.RealSort(), z3.IntSort())
_hp = z3.Function("hash_pair", z3.IntSort(), z3.IntSort(), z3.IntSort())


def shash(x):
    if isinstance(x, SymInt):
        return SymInt(x.z, x.lo, x.hi)
    if isinstance(x, SymReal):
        return SymInt(_hr(x.key()))
    if isinstance(x, float) and x == x and abs(x) < 1e300:
        # the same uninterpreted function, so that equal values hash equal
        return SymInt(_hr(SymReal.conv(x).key()))
    if isinstance(x, tuple) and has_sym(x):
        acc = z3.IntVal(len(x))
        for y in x:
            h = h_hash(y)
            acc = _hp(acc, to_z(h))
        return SymInt(acc)
    if isinstance(x, _str) and has_ph(x):
        return hash(C().realize(x, "hash"))
    return hash(x)


def has_sym(x):
    if isinstance(x, SYM) or (isinstance(x, _str) and has_ph(x)):
        return True
    if isinstance(x, (tuple, list)):
        return any(has_sym(y) for y in x)
    return getattr(_type(x), "__sx_hash__", None) is not None


@hook(round)
def h_round(x, n=None):
    if isinstance(x, (SymReal, SymInt)):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x) if n is None else round(x, n)


@hook(abs)
def h_abs(x):
    return abs(x)


@hook(format)
def h_format(x, spec=""):
    return format(x, spec)


def _mm(less):
    def f(*a, key=None, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise ValueError("min()/max() iterable argument is empty")
        kf = (lambda y: y) if key is None else (lambda y: sx_call(key, y))
        best = items[0]
        kb = kf(best)
        for x in items[1:]:
            kx = kf(x)
            if less(kx, kb):
                best, kb = x, kx
        return best
    return f


h_min = hook(min)(_mm(sx_lt))
h_max = hook(max)(_mm(sx_gt))


@hook(sorted)
def h_sorted(it, *, key=None, reverse=False):
    items = list(it)
    ks = [x if key is None else sx_call(key, x) for x in items]
    if not any(has_symk(x) for x in ks):
        return sorted(items, key=key if key is None else (lambda y: sx_call(key, y)), reverse=reverse)
    out = []
    for x, kx in zip(items, ks):
        j = len(out)
        while j > 0 and (sx_lt(kx, out[j - 1][1]) if not reverse else sx_lt(out[j - 1][1], kx)):
            j -= 1
        out.insert(j, (x, kx))
    return [x for x, _ in out]


def has_symk(x):
    if isinstance(x, _str):
        return has_ph(x)
    if isinstance(x, tuple):
        return any(has_symk(y) for y in x)
    return isinstance(x, SYM)


@hook(sum)
def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@hook(divmod)
def h_divmod(a, b):
    return divmod(a, b)


@hook(map)
def h_map(f, *its):
    return map(lambda *a: sx_call(f, *a), *its)


@hook(filter)
def h_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda x: sx_call(f, x), it)


@hook(functools.reduce)
def h_reduce(f, *a):
    return functools.reduce(lambda x, y: sx_call(f, x, y), *a)


@hook(dict)
def h_dict(*a, **k):
    if a or k:
        d = {}
        src = dict(*a, **k)
        if any(isinstance(x, _str) and has_ph(x) for x in src):
            C().have_ph_keys = True
            items = a[0].items() if a and hasattr(a[0], "items") else (a[0] if a else ())
            for kk, v in list(items) + list(k.items()):
                sx_setitem(d, kk, v)
            return d
        return src
    return {}


@hook(print)
def h_print(*a, **k):
    return None


@hook(math.floor)
def h_floor(x):
    return floor_(x) if isinstance(x, SymReal) else (x if isinstance(x, SymInt) else math.floor(x))


@hook(math.ceil)
def h_ceil(x):
    return -floor_(-x) if isinstance(x, SymReal) else (x if isinstance(x, SymInt) else math.ceil(x))


@hook(math.trunc)
def h_trunc(x):
    return trunc_(x) if isinstance(x, SymReal) else (x if isinstance(x, SymInt) else math.trunc(x))


@hook(operator.eq)
def h_opeq(a, b):
    return sx_eq(a, b)


@hook(operator.contains)
def h_opc(a, b):
    return sx_contains(a, b)


@hook(operator.getitem)
def h_opg(a, b):
    return sx_getitem(a, b)


def _re_fn(name):
    real = getattr(re, name)

    @hook(real)
    def f(pattern, *a, **k):
        flags = k.pop("flags", 0)
        nargs = {"sub": 2, "subn": 2}.get(name, 1)
        extra = {}
        pos = list(a[:nargs])
        rest = list(a[nargs:])
        if name in ("sub", "subn"):
            if rest:
                extra["count"] = rest.pop(0)
            if rest:
                flags = rest.pop(0)
            if "count" in k:
                extra["count"] = k.pop("count")
            if "repl" in k:
                pos.insert(0, k.pop("repl"))
        elif name == "split":
            if rest:
                extra["maxsplit"] = rest.pop(0)
            if rest:
                flags = rest.pop(0)
            if "maxsplit" in k:
                extra["maxsplit"] = k.pop("maxsplit")
        elif rest:
            flags = rest.pop(0)
        if "string" in k:
            pos.append(k.pop("string"))
        rxp = re_compile(pattern, flags)
        return sx_mcall(rxp, name, *pos, **extra)
    return f


@hook(re.compile)
def re_compile(pattern, flags=0):
    if isinstance(pattern, _str) and has_ph(pattern):
        pattern = C().realize(pattern, "re.compile")
    return re.compile(pattern, flags)


for _n in ("match", "fullmatch", "search", "finditer", "findall", "split", "sub", "subn"):
    _re_fn(_n)


@hook(re.escape)
def h_escape(s):
    if has_ph(s):
        c = C()
        sp = core.mask_of("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")
        return "".join(("\\" + ch) if c.ch_in(ch, sp) else ch for ch in s)
    return re.escape(s)


# ------------------------------------------------------------------ sets
class SxSet(set):
    """A set whose iteration order is symbolic when the harness asks for it."""

    def __iter__(self):
        items = list(set.__iter__(self))
        c = C()
        if c is not None and c.permute_sets and len(items) > 1 and \
                not all(isinstance(x, (int, type(None))) for x in items):
            items = c.set_order(items)
        return iter(items)

    def pop(self):
        if not len(self):
            raise KeyError("pop from an empty set")
        x = next(iter(self))
        self.remove(x)
        return x

    def copy(self):
        return SxSet(set.__iter__(self))

    def __deepcopy__(self, memo):
        import copy
        r = SxSet()
        for x in set.__iter__(self):
            r.add(copy.deepcopy(x, memo))
        return r

    __copy__ = copy

    def _w(name):
        f = getattr(set, name)

        def m(self, *a):
            r = f(self, *[set(set.__iter__(x)) if isinstance(x, SxSet) else x for x in a])
            return SxSet(r) if isinstance(r, set) else r
        m.__name__ = name
        return m
    __or__ = _w("__or__")
    __and__ = _w("__and__")
    __sub__ = _w("__sub__")
    __xor__ = _w("__xor__")
    union = _w("union")
    intersection = _w("intersection")
    difference = _w("difference")
    symmetric_difference = _w("symmetric_difference")

    def __reduce__(self):
        return (SxSet, (list(set.__iter__(self)),))


def make_set(it=()):
    s = SxSet()
    c = C()
    for x in it:
        if isinstance(x, _str) and has_ph(x):
            if not sx_contains(s, x):
                c.have_ph_keys = True
                set.add(s, x)
        else:
            set.add(s, x)
    return s


@hook(set)
def h_set(*a):
    return make_set(*a)


def sx_setdisp(*items):
    return make_set(items)


# ------------------------------------------------------------------ timedelta model
class SxTimedelta:
    """datetime.timedelta with a symbolic number of microseconds (SymInt or int)."""

    def __init__(self, us):
        self._us = us

    @property
    def days(self):
        return self._us // 86400000000

    @property
    def seconds(self):
        return (self._us % 86400000000) // 1000000

    @property
    def microseconds(self):
        return self._us % 1000000

    def total_seconds(self):
        return self._us / 10 ** 6

    def __str__(self):
        mm, ss = divmod(self.seconds, 60)
        hh, mm = divmod(mm, 60)
        s = "%s:%s:%s" % (format(hh, "d"), format(mm, "02d"), format(ss, "02d"))
        d = self.days
        if d != 0:
            pl = "" if abs(d) == 1 else "s"
            s = f"{d} day{pl}, " + s
        us = self.microseconds
        if us != 0:
            s = s + "." + format(us, "06d")
        return s

    __repr__ = __str__

    def _o(self, o):
        if isinstance(o, SxTimedelta):
            return o._us
        if isinstance(o, datetime.timedelta):
            return (o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds
        return None

    def __add__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SxTimedelta(self._us + v)

    __radd__ = __add__

    def __sub__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SxTimedelta(self._us - v)

    def __rsub__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SxTimedelta(v - self._us)

    def __neg__(self):
        return SxTimedelta(-self._us)

    def __mul__(self, k):
        return SxTimedelta(self._us * k)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        v = self._o(o)
        return SxTimedelta(self._us // o) if v is None else self._us // v

    def __truediv__(self, o):
        v = self._o(o)
        return self._us / v if v is not None else SxTimedelta(h_round(self._us / o))

    def __mod__(self, o):
        return SxTimedelta(self._us % self._o(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return bool(self._us != 0)

    def __eq__(self, o):
        v = self._o(o)
        return False if v is None else self._us == v

    def __lt__(self, o):
        return self._us < self._o(o)

    def __le__(self, o):
        return self._us <= self._o(o)

    def __gt__(self, o):
        return self._us > self._o(o)

    def __ge__(self, o):
        return self._us >= self._o(o)

    def __hash__(self):
        return 0x5A5A


_TD = [("days", 86400 * 10 ** 6), ("seconds", 10 ** 6), ("microseconds", 1), ("milliseconds", 1000),
       ("minutes", 60 * 10 ** 6), ("hours", 3600 * 10 ** 6), ("weeks", 7 * 86400 * 10 ** 6)]


@hook(datetime.timedelta)
def h_timedelta(*a, **k):
    vals = dict(zip([n for n, _ in _TD], a))
    vals.update(k)
    if not any(isinstance(v, SYM) for v in vals.values()):
        return datetime.timedelta(*a, **k)
    total = 0
    frac = []
    for n, u in _TD:
        if n in vals:
            v = vals[n]
            if isinstance(v, (SymReal, float)):
                frac.append((v, u))
            else:
                total = total + v * u
    if frac:
        # exact model of the C/Python algorithm is intricate (fraction split); it rounds half-even
        # to the nearest microsecond, with float error far below a microsecond: bounded model.
        c = C()
        if all(isinstance(v, SymReal) and v.isint for v, u in frac):
            e = z3.RealVal(0)
            for v, u in frac:
                e = e + to_z(v) * u
            return SxTimedelta(total + mk(z3.simplify(z3.ToInt(e))))
        if len(frac) == 1 and frac[0][1] == 1 and isinstance(frac[0][0], SymReal):
            v = frac[0][0]
            if not (isinstance(total, int) and total == 0):
                v = SymReal(v.z + to_z(total), None, None)
            return SxTimedelta(round_half_even(v))
        e = z3.RealVal(0)
        for v, u in frac:
            e = e + to_z(v) * u
        e = z3.simplify(e)
        key = ("td", e.get_id())
        if key in c.cache:
            return SxTimedelta(total + c.cache[key][0])
        kf = c.fresh_int("td")
        c.cache[key] = (SymInt(kf), e)
        eps = z3.Q(1, 10 ** 4)
        c.solver.add(z3.ToReal(kf) - e <= z3.Q(1, 2) + eps, e - z3.ToReal(kf) <= z3.Q(1, 2) + eps)
        c.model = None
        total = total + SymInt(kf)
    return SxTimedelta(total)


def sx_enter(name):
    C().funcs.add(name)


NAMES = dict(
    _sx_call=sx_call, _sx_mcall=sx_mcall, _sx_strfill=sx_strfill, _sx_eq=sx_eq, _sx_ne=sx_ne, _sx_lt=sx_lt,
    _sx_gt=sx_gt, _sx_le=sx_le, _sx_ge=sx_ge, _sx_in=in_, _sx_notin=notin_, _sx_is=sx_is,
    _sx_isnot=sx_isnot, _sx_chain=sx_chain, _sx_getitem=sx_getitem, _sx_setitem=sx_setitem,
    _sx_delitem=sx_delitem, _sx_augitem=sx_augitem, _sx_mod=sx_mod, _sx_repr=sx_repr,
    _sx_setdisp=sx_setdisp, _sx_enter=sx_enter, _sx_mkset=make_set, _sx_dictdisp=sx_dictdisp, _sx_mkdict=sx_mkdict,
)
