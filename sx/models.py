"""What the instrumented code calls instead of C-level operations.

`call` runs Python functions natively, passes symbolic values through the
built-ins that only use the object protocols, and models the others exactly.
An unknown C function given a symbolic value gets it *realised*: the path forks
on concrete values until none is left, or the run is declared inconclusive."""
import builtins
import collections
import copy
import functools
import itertools
import json
import operator
import re
import time
import types
import unicodedata
import z3

from . import core
from . import regex as rx
from .core import Unsupported
from .instrument import INSTRUMENTED
from .proxies import (
    SymInt, SymStr, StrOfInt, SymBool, SYMTYPES, Sym, mkstr, mkint, mkbool,
    chars_of, is_symstr, str_find, str_startswith, str_endswith, str_split,
    str_join, str_replace, str_count, nfc, has_sym, test_char, as_expr,
    str_strip,
)

FunctionType = types.FunctionType
MethodType = types.MethodType
PyFunc = (FunctionType,)
HEAP = 1 << 9

TRANSPARENT = set()
for _n in ("list tuple dict set frozenset sorted any all zip enumerate iter "
           "next map filter min max sum reversed isinstance issubclass "
           "callable id bool object property staticmethod classmethod "
           "slice hasattr getattr setattr delattr abs divmod "
           "BaseException Exception").split():
    TRANSPARENT.add(getattr(builtins, _n))
TRANSPARENT.update((itertools.chain, itertools.chain.from_iterable,
                    itertools.islice, itertools.product, itertools.starmap,
                    itertools.groupby, itertools.tee, itertools.zip_longest,
                    itertools.repeat, itertools.count, itertools.cycle,
                    itertools.takewhile, itertools.dropwhile,
                    itertools.permutations, itertools.combinations,
                    itertools.filterfalse, itertools.accumulate,
                    itertools.pairwise,
                    functools.partial, functools.reduce,
                    collections.deque, collections.defaultdict,
                    collections.OrderedDict,
                    copy.copy, copy.deepcopy, operator.eq, operator.ne,
                    operator.lt, operator.le, operator.gt, operator.ge,
                    operator.is_, operator.is_not, operator.not_,
                    operator.truth, operator.add, operator.sub,
                    operator.itemgetter, operator.attrgetter,
                    time.struct_time))
CONTAINER_TYPES = (list, tuple, dict, set, frozenset, collections.deque,
                   collections.OrderedDict, collections.defaultdict,
                   type({}.keys()), type({}.values()), type({}.items()),
                   types.MappingProxyType)


def _is_sym(x):
    return type(x) in SYMTYPES


def realise(x):
    """a concrete value for a symbolic one: forks over its values"""
    t = type(x)
    st = core.ST
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        core.STATS.realised += 1
        return x.__index__()
    if t in (SymStr, StrOfInt):
        core.STATS.realised += 1
        out = []
        for c in x.chars:
            if isinstance(c, int):
                out.append(c)
            else:
                out.append(SymInt(c).__index__())
        return "".join(map(chr, out))
    if t is list:
        return [realise(y) for y in x]
    if t is tuple:
        return tuple(realise(y) for y in x)
    if t is dict:
        return dict((realise(k), realise(v)) for k, v in x.items())
    if t in (set, frozenset):
        return t(realise(y) for y in x)
    return x


# ------------------------------------------------------------------- models

def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        return int(*realise(a), **k)
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return int(bool(x))
    if t is StrOfInt:
        return x.of
    if t is SymStr:
        return int_of_str(x)
    return int(x)


def int_of_str(s):
    cs = list(s.chars)
    sp = lambda c: test_char(c, str.isspace, "isspace")
    i, j = 0, len(cs)
    while i < j and sp(cs[i]):
        i += 1
    while j > i and sp(cs[j - 1]):
        j -= 1
    cs = cs[i:j]

    def bad():
        raise ValueError("invalid literal for int() with base 10: <sym>")
    if not cs:
        bad()
    neg = False
    if test_char(cs[0], lambda c: c == "-", "minus"):
        neg = True
        cs = cs[1:]
    elif test_char(cs[0], lambda c: c == "+", "plus"):
        cs = cs[1:]
    if not cs:
        bad()
    val = z3.IntVal(0)
    prev_us = True
    for n, c in enumerate(cs):
        if test_char(c, str.isdecimal, "isdecimal"):
            if isinstance(c, int):
                d = z3.IntVal(unicodedata.decimal(chr(c)))
            elif test_char(c, lambda x: x in "0123456789", "asciidigit"):
                d = c - 48
            else:
                d = z3.IntVal(unicodedata.decimal(
                    chr(SymInt(c).__index__())))
            val = val * 10 + d
            prev_us = False
        elif not prev_us and n + 1 < len(cs) and \
                test_char(c, lambda x: x == "_", "underscore"):
            prev_us = True
        else:
            bad()
    if prev_us:
        bad()
    return mkint(-val if neg else val)


def m_float(*a):
    if a and type(a[0]) is SymInt:
        return FloatOf(a[0]) if False else float(realise(a[0]))
    if a and is_symstr(a[0]):
        return float(realise(a[0]))
    return float(*a)


def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return StrOfInt(x)
        if t in (SymStr, StrOfInt):
            return x
        if t is SymBool:
            return str(bool(x))
        f = type(x).__str__
        if isinstance(f, FunctionType) and \
                f.__module__ in INSTRUMENTED:
            return f(x)
        if f is object.__str__:
            return m_repr(x)
        if t in CONTAINER_TYPES:
            return m_repr(x)
        if f is BaseException.__str__ and has_sym(x.args):
            return m_str(x.args[0] if len(x.args) == 1 else x.args)
        return str(x)
    return str(*realise(a), **k)


def exact_repr(x):
    """the text of repr() of a symbolic string, character by character"""
    cs = x.chars
    q = 39
    if any(test_char(c, lambda y: y == "'", "squote") for c in cs) and \
            not any(test_char(c, lambda y: y == '"', "dquote") for c in cs):
        q = 34
    out = [q]
    for c in cs:
        if test_char(c, lambda y: ord(y) == q or y == "\\", "q%d" % q):
            out.extend((92, c))
        elif test_char(c, lambda y: y.isprintable(), "isprintable"):
            out.append(c)
        elif isinstance(c, int):
            out.extend(map(ord, repr(chr(c))[1:-1]))
        else:
            out.extend(map(ord, repr(realise(mkstr((c,))))[1:-1]))
    out.append(q)
    return mkstr(out)


def symbolic_literals(text, ns):
    """Python source with symbolic characters within its string literals:
    (source with a name for each such literal, names).  A symbolic character
    outside of a literal, or one that may end it, is decided by the solver."""
    cs = text.chars
    out, i, n = [], 0, 0
    while i < len(cs):
        c = cs[i]
        if not isinstance(c, int):
            c = SymInt(c).__index__()
        if c not in (34, 39):
            out.append(c)
            i += 1
            continue
        body, j = [], i + 1
        while j < len(cs):
            d = cs[j]
            if test_char(d, lambda y: y == "\\", "backslash"):
                e = cs[j + 1]
                if isinstance(e, int) and chr(e) not in "'\"\\":
                    k = j + 2 + {120: 2, 117: 4, 85: 8}.get(e, 0)
                    body.append(ord(eval(
                        "'" + "".join(map(chr, cs[j:k])) + "'")))
                    j = k
                    continue
                if not test_char(e, lambda y: y in "'\"\\", "quotes"):
                    raise SyntaxError("escape")
                body.append(e)
                j += 2
            elif test_char(d, lambda y: ord(y) == c, "q%d" % c):
                break
            elif test_char(d, lambda y: y in "\n\r\0", "newline"):
                raise SyntaxError("unterminated string literal")
            else:
                body.append(d)
                j += 1
        else:
            raise SyntaxError("unterminated string literal")
        name = "__lit%d__" % n
        n += 1
        ns[name] = mkstr(body)
        out.extend(map(ord, " " + name + " "))
        i = j + 1
    return "".join(map(chr, out)), n


def _reprs(it):
    return str_join(", ", [m_repr(y) for y in it])


def m_repr(x):
    t = type(x)
    if t in SYMTYPES:
        if t is SymBool:
            return repr(bool(x))
        if core.ST.exact_repr:
            if t is SymStr:
                return exact_repr(x)
            if t is SymInt and core.ST.exact_repr > 1:
                return StrOfInt(x)
        return x._token()
    f = t.__repr__
    if f is list.__repr__:
        return str_join("", ["[", _reprs(list.__iter__(x)), "]"])
    if f is tuple.__repr__:
        if len(x) == 1:
            return str_join("", ["(", m_repr(x[0]), ",)"])
        return str_join("", ["(", _reprs(tuple.__iter__(x)), ")"])
    if f is dict.__repr__:
        return str_join("", ["{", str_join(", ", [
            str_join("", [m_repr(k), ": ", m_repr(v)])
            for k, v in dict.items(x)]), "}"])
    if (f is set.__repr__ or f is frozenset.__repr__) and len(x):
        r = str_join("", ["{", _reprs(x), "}"])
        return r if t is set else str_join("", [t.__name__, "(", r, ")"])
    if isinstance(f, FunctionType):
        return f(x)
    if f is BaseException.__repr__ and has_sym(x.args):
        return str_join("", [t.__name__, m_repr(x.args)])
    return repr(x)


def m_format(x, spec=""):
    if has_sym(x):
        if spec in ("", "s", "d"):
            return m_str(x)
        if type(x) is SymInt and re.fullmatch("0[1-9]d?", spec):
            return padded(x, int(spec[1]))
        return format(realise(x), realise(spec))
    if spec == "":
        f = type(x).__format__
        if f is object.__format__:
            return m_str(x)
    return format(x, spec)


def m_type(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        if t in SYMTYPES:
            return a[0].__class__
        return t
    return type(*a, **k)


def m_len(x):
    return len(x)


def m_hash(x):
    st = core.ST
    if st is None or not st.uf_hash:
        return hash(x)
    return SymOrInt(uf_hash(x))


def SymOrInt(e):
    return mkint(e) if not isinstance(e, int) else e


_UF = {}


def _uf(name, n):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function("%s_%d" % (name, n),
                             *([z3.IntSort()] * (n + 1)))
    return _UF[k]


def uf_hash(x):
    """hash() as an uninterpreted function of the value: equal values have
    equal hashes and nothing else is known"""
    t = type(x)
    if t in (int, bool, SymInt) or (t is float and x.is_integer()):
        return _uf("hash_int", 1)(as_expr(x))
    if t is SymBool:
        return _uf("hash_int", 1)(as_expr(bool(x)))
    if t in (str, SymStr, StrOfInt):
        cs = chars_of(x)
        if not cs:
            return z3.Int("hash_empty_str")
        return _uf("hash_str", len(cs))(*cs)
    if t is tuple:
        if not x:
            return z3.Int("hash_empty_tuple")
        return _uf("hash_tuple", len(x))(*[uf_hash(y) for y in x])
    if t is frozenset:
        tot = z3.IntVal(len(x))
        for y in x:
            tot = tot + _uf("hash_mix", 1)(uf_hash(y))
        return _uf("hash_fset", 1)(tot)
    f = t.__hash__
    if isinstance(f, FunctionType):
        r = f(x)
        if type(r) is SymInt:
            return r.e
        return z3.IntVal(r)
    return z3.IntVal(hash(x))


def m_range(*a):
    return range(*[x.__index__() if type(x) is SymInt else x for x in a])


def m_ord(x):
    if is_symstr(x):
        (c,) = x.chars
        return c if isinstance(c, int) else mkint(c)
    return ord(x)


def m_chr(x):
    if type(x) is SymInt:
        return mkstr((x.e,))
    return chr(x)


def _py_getattr(o, name, *d):
    if is_symstr(name):
        known = pick_attr(o, name)
        hook = own_hook(o, "__getattr__")
        if known is None and hook:
            try:
                return hook(o, name)
            except AttributeError:
                if d:
                    return d[0]
                raise
        name = realise(name) if known is None else known
    return getattr(o, name, *d)


def own_hook(o, hook):
    """__getattr__ etc. where it is (instrumented) python code"""
    f = getattr(type(o), hook, None)
    return f if type(f) is types.FunctionType else None


def pick_attr(o, name):
    """fork a symbolic attribute name over the names the object knows; None
    for any other name"""
    cands = set()
    for k in type(o).__mro__ + (o.__mro__ if isinstance(o, type) else ()):
        cands.update(x for x in vars(k) if not x.startswith("__"))
    try:
        cands.update(k for k in vars(o) if isinstance(k, str))
    except TypeError:
        pass
    n = len(name)
    for c in sorted(c for c in cands if type(c) is str and len(c) == n):
        if name == c:
            return c
    return None


def m_getattr(o, name, *d):
    return _py_getattr(o, name, *d)


def m_hasattr(o, name):
    if is_symstr(name):
        try:
            _py_getattr(o, name)
        except AttributeError:
            return False
        return True
    return hasattr(o, name)


def m_setattr(o, name, v):
    if is_symstr(name):
        hook = own_hook(o, "__setattr__")
        if hook:
            return hook(o, name, v)
        known = pick_attr(o, name)
        name = realise(name) if known is None else known
    return setattr(o, name, v)


def m_delattr(o, name):
    if is_symstr(name):
        hook = own_hook(o, "__delattr__")
        if hook:
            return hook(o, name)
        known = pick_attr(o, name)
        name = realise(name) if known is None else known
    return delattr(o, name)


def m_json_loads(x, *a, **k):
    if isinstance(x, JsonText):
        return copy.deepcopy(x.payload)
    return json.loads(realise(x), *a, **k)


def m_json_dumps(x, *a, **k):
    if has_sym(x, 8):
        return JsonText(copy.deepcopy(x))
    return json.dumps(x, *a, **k)


class JsonText(object):
    """the JSON text of a structure with symbolic leaves"""
    kind = str
    __slots__ = ("payload", "kind_")

    def __init__(self, payload, kind=str):
        self.payload = payload
        self.kind_ = kind

    __class__ = property(lambda self: self.kind_)

    def decode(self, *a):
        return JsonText(self.payload, str)

    def encode(self, *a):
        return JsonText(self.payload, bytes)

    def __bool__(self):
        return True


def m_normalize(form, s):
    if is_symstr(s):
        if form == "NFC":
            return nfc(s)
        s = realise(s)
    return unicodedata.normalize(form, s)


def _rx(fn):
    def f(pat, *a, **k):
        a = [x for x in a]
        return fn(pat, *a, **k)
    return f


def _if_sym(model, real):
    def f(*a, **k):
        for x in a:
            if type(x) in SYMTYPES:
                return model(*a, **k)
        return real(*a, **k)
    return f


def m_rx_sub(pat, repl, s, count=0, flags=0):
    if is_symstr(s) or is_symstr(repl):
        return rx.rx_sub(pat, repl, s, count, flags)
    return re.sub(pat, repl, s, count=count, flags=flags)


MODELS = {
    int: m_int, str: m_str, repr: m_repr, float: m_float, type: m_type,
    format: m_format, len: m_len,
    hash: m_hash, range: m_range, ord: m_ord, chr: m_chr,
    operator.index: lambda x: x if type(x) is SymInt else operator.index(x),
    getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr,
    delattr: m_delattr,
    json.loads: m_json_loads, json.dumps: m_json_dumps,
    re.match: _if_sym(rx.rx_match, re.match),
    re.fullmatch: _if_sym(rx.rx_fullmatch, re.fullmatch),
    re.search: _if_sym(rx.rx_search, re.search),
    re.finditer: _if_sym(rx.rx_finditer, re.finditer),
    re.findall: _if_sym(rx.rx_findall, re.findall),
    re.split: _if_sym(rx.rx_split, re.split),
    re.sub: m_rx_sub,
    unicodedata.normalize: m_normalize,
}

RX_METHODS = {
    "match": rx.rx_match, "fullmatch": rx.rx_fullmatch,
    "search": rx.rx_search, "finditer": rx.rx_finditer,
    "findall": rx.rx_findall, "split": rx.rx_split,
}


def _str_unary(name, impl):
    return impl


STR_METHODS = {
    "join": str_join, "startswith": str_startswith,
    "endswith": str_endswith, "find": str_find, "split": str_split,
    "replace": str_replace, "count": str_count,
    "strip": lambda s, cs=None: str_strip(s, cs, True, True),
    "lstrip": lambda s, cs=None: str_strip(s, cs, True, False),
    "rstrip": lambda s, cs=None: str_strip(s, cs, False, True),
    "upper": lambda s: s.upper(), "lower": lambda s: s.lower(),
    "isdigit": lambda s: s.isdigit(),
}


def str_format(s, *a, **k):
    import string
    if not has_sym(list(a) + list(k.values()), 6) and \
            not _needs_model(tuple(a) + tuple(k.values())):
        return s.format(*a, **k)
    out = []
    auto = 0
    fm = string.Formatter()
    for lit, field, spec, conv in fm.parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        obj, _ = fm.get_field(field, a, k)
        if conv == "r":
            obj = m_repr(obj)
        elif conv == "s":
            obj = m_str(obj)
        out.append(m_format(obj, spec or ""))
    return str_join("", out)


# dict/set operations that look a key up
KEYED = {"get", "pop", "setdefault", "add", "discard", "remove",
         "__contains__", "__getitem__", "__setitem__", "__delitem__",
         "has_key"}


def _symkey(k):
    """can this key be equal to one that is hashed differently"""
    t = type(k)
    if t in SYMTYPES:
        return True
    if t is tuple or isinstance(k, frozenset):
        for x in k:
            if _symkey(x):
                return True
        return False
    if t in _PLAINKEY:
        return False
    # (with declared hash constants, these are hashed like concrete ones)
    return _userkey(t) and not core.ST.hash_k and _deep_sym(k, 4)


def _deep_sym(x, depth):
    t = type(x)
    if t in SYMTYPES:
        return True
    if t in _PLAINKEY or not depth:
        return False
    if t in (list, tuple) or isinstance(x, SETS):
        return any(_deep_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(_deep_sym(y, depth - 1) for y in x) or \
            any(_deep_sym(y, depth - 1) for y in x.values())
    if t.__module__ in INSTRUMENTED:
        return any(_deep_sym(y, depth - 1)
                   for y in getattr(x, "__dict__", {}).values())
    return False


_PLAINKEY = {int, str, bool, float, type(None), type, bytes}


def _key_eq(x, y):
    if x is y:
        return True
    tx, ty = type(x), type(y)
    if tx is tuple and ty is tuple:
        return len(x) == len(y) and all(
            _key_eq(p, q) for p, q in zip(x, y))
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        if len(x) != len(y):
            return False
        rest = list(y)
        for p in x:
            for i, q in enumerate(rest):
                if _key_eq(p, q):
                    del rest[i]
                    break
            else:
                return False
        return True
    if tx is not ty and (_userkey(tx) or _userkey(ty)):
        return False
    return bool(x == y)


def _userkey(t):
    return t.__module__ in INSTRUMENTED and \
        isinstance(t.__hash__, FunctionType)


def resolve_key(d, k):
    """The key of the container that is equal to the one given, if there is
    one: symbolic keys hash unlike the concrete ones they may be equal to, so
    that they are compared (which forks) instead."""
    t = type(k)
    if t is SymBool:
        return bool(k)
    ks = _symkey(k)
    for c in list(d):
        if c is k:
            return c
        if not ks and not _symkey(c):
            continue
        if ks and t in SYMTYPES and type(c) in SYMTYPES:
            # hashed alike
            continue
        if _key_eq(c, k):
            return c
    if ks:
        UNDO.append(d)
    return k


# dicts and sets that may have been given symbolic keys on this path
UNDO = []


def forget_symbolic_keys():
    """between paths: caches that outlive a path must not keep its keys"""
    while UNDO:
        d = UNDO.pop()
        if type(d) in DICTS and any(_symkey(k) for k in d):
            items = [(k, v) for k, v in d.items() if not _symkey(k)]
            d.clear()
            d.update(items)
        elif type(d) is set and any(_symkey(k) for k in d):
            items = [k for k in d if not _symkey(k)]
            d.clear()
            d.update(items)


def _resolved(k):
    return type(k) in SYMTYPES or type(k) in (int, str, tuple) or \
        isinstance(k, frozenset) or _symkey(k)


def unified(a, b):
    """the elements of b, of which those equal to an element of a are
    replaced by that one"""
    out = []
    for x in b:
        out.append(resolve_key(a, x) if _resolved(x) else x)
    return out


def _build(kind, items):
    """kind of set with these elements"""
    s = set()
    for x in items:
        s.add(resolve_key(s, x) if _resolved(x) else x)
    return s if kind is set else kind(s)


def m_set(*a):
    if not a:
        return set()
    return _build(set, a[0])


def m_frozenset(*a):
    if not a:
        return frozenset()
    return _build(frozenset, a[0])


def dict_update(d, /, *a, **k):
    if a:
        src = a[0]
        if isinstance(src, dict):
            items = list(src.items())
        elif hasattr(src, "keys"):
            items = [(x, getitem(src, x)) for x in src.keys()]
        else:
            items = src
        for x in items:
            x, v = x
            d[resolve_key(d, x) if _resolved(x) else x] = v
    for x, v in k.items():
        d[resolve_key(d, x)] = v


def m_dict(*a, **k):
    if len(a) > 1:
        return dict(*a)
    d = {}
    dict_update(d, *a, **k)
    return d


def _dict_eq(a, b):
    if len(a) != len(b):
        return False
    for k in list(a):
        l = resolve_key(b, k) if _resolved(k) else k
        if l not in b or not _same(a[k], b[l]):
            return False
    return True


def _same(x, y):
    return x is y or bool(cmp_eq(x, y))


def _symkeyed(x):
    """does this contain dicts or sets of which elements are symbolic"""
    t = type(x)
    if t in DICTS or isinstance(x, SETS):
        if any(map(_symkey, x)):
            return True
        return t in DICTS and any(_symkeyed(v) for v in x.values())
    if t is list or t is tuple:
        return any(_symkeyed(v) for v in x)
    return False


def cmp_eq(a, b):
    ta, tb = type(a), type(b)
    if ta in DICTS and tb in DICTS:
        if _symkeyed(a) or _symkeyed(b):
            return _dict_eq(a, b)
    elif ta is tb and (ta is tuple or ta is list):
        if _symkeyed(a) or _symkeyed(b):
            return len(a) == len(b) and all(
                _same(x, y) for x, y in zip(a, b))
    elif isinstance(a, SETS) and isinstance(b, SETS):
        if any(map(_symkey, a)) or any(map(_symkey, b)):
            return _key_eq(frozenset(a), frozenset(b))
    return a == b


def cmp_ne(a, b):
    ta, tb = type(a), type(b)
    if (ta in DICTS and tb in DICTS) or (
            isinstance(a, SETS) and isinstance(b, SETS)) or (
            ta is tb and (ta is tuple or ta is list) and (
                _symkeyed(a) or _symkeyed(b))):
        return not cmp_eq(a, b)
    return a != b


MODELS[dict] = m_dict
MODELS[set] = m_set
MODELS[frozenset] = m_frozenset
SETS = (set, frozenset)
DICTS = (dict, collections.OrderedDict, collections.defaultdict,
         collections.Counter)
SET_BIN = {"Sub": operator.sub, "BitAnd": operator.and_,
           "BitOr": operator.or_, "BitXor": operator.xor}
SET_METHODS = {"union", "intersection", "difference", "issubset",
               "issuperset", "isdisjoint", "symmetric_difference", "update",
               "difference_update", "intersection_update",
               "symmetric_difference_update"}


def setop(op, a, b):
    if isinstance(a, SETS) and isinstance(b, SETS) and a and b and (
            any(map(_symkey, a)) or any(map(_symkey, b))):
        b = type(b)(unified(a, b))
    elif op == "BitOr" and type(a) in DICTS and type(b) in DICTS:
        d = type(a)(a)
        dict_update(d, b)
        return d
    return SET_BIN[op](a, b)


ORDERS = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt,
          "GtE": operator.ge}


def cmp_ord(op, a, b):
    if isinstance(a, SETS) and isinstance(b, SETS) and (
            any(map(_symkey, a)) or any(map(_symkey, b))):
        b = type(b)(unified(a, b))
    return ORDERS[op](a, b)


AUGMENT = {"Sub": operator.isub, "BitAnd": operator.iand,
           "BitOr": operator.ior, "BitXor": operator.ixor}


def augmented(op, a, b):
    if op == "MsgMod":
        return msgmod(a, b)
    if op == "Mod":
        return mod(a, b)
    if isinstance(a, SETS) and isinstance(b, SETS):
        if any(map(_symkey, a)) or any(map(_symkey, b)):
            b = type(b)(unified(a, b))
            UNDO.append(a)
    elif op == "BitOr" and type(a) in DICTS:
        dict_update(a, b)
        return a
    return AUGMENT[op](a, b)


def dict_literal(*parts):
    d = {}
    for x in parts:
        if len(x) == 1:
            dict_update(d, x[0])
        else:
            k, v = x
            d[resolve_key(d, k) if _resolved(k) else k] = v
    return d


def setitem(value, obj, k):
    obj[key(obj, k)] = value


def delitem(obj, k):
    del obj[key(obj, k)]


BUILTIN_METHOD = type(re.compile("").match)


HIGHER_ORDER = {map, filter, sorted, min, max, functools.reduce,
                functools.partial, itertools.starmap, itertools.filterfalse,
                itertools.takewhile, itertools.dropwhile, itertools.groupby,
                itertools.accumulate}
PRIMITIVES = (types.BuiltinFunctionType, types.MethodDescriptorType,
              types.WrapperDescriptorType, types.MethodWrapperType)


def callback(g):
    """what to pass instead of a primitive that is called from C"""
    t = type(g)
    if t in PRIMITIVES or (t is type or t is FunctionType) and g in MODELS:
        return functools.partial(call, g)
    return g


def call(f, /, *a, **k):
    t = type(f)
    if t is type or t is types.BuiltinFunctionType:
        try:
            higher = f in HIGHER_ORDER
        except TypeError:
            higher = False
        if higher:
            if f in (map, filter, functools.partial, functools.reduce) \
                    or a and f.__module__ == "itertools":
                if f in (itertools.groupby, itertools.accumulate):
                    a = a[:1] + tuple(callback(x) for x in a[1:])
                elif a:
                    a = (callback(a[0]),) + a[1:]
            if k:
                k = dict((n, callback(v) if n in ("key", "func") else v)
                         for n, v in k.items())
        elif k and f is not type and getattr(f, "__name__", "") == "sort":
            k = dict((n, callback(v)) for n, v in k.items())
    if t is FunctionType:
        if f.__module__ in INSTRUMENTED:
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if f in TRANSPARENT or f.__module__ in TRANSPARENT_MODULES or \
                getattr(f, "__globals__", {}).get("__sx__"):
            return f(*a, **k)
        return foreign(f, a, k)
    if t is MethodType:
        g = f.__func__
        if type(g) is FunctionType and (
                g.__module__ in INSTRUMENTED or
                g.__module__ in TRANSPARENT_MODULES):
            return f(*a, **k)
        if type(f.__self__) in SYMTYPES:
            return f(*a, **k)
        return foreign(f, a, k)
    if isinstance(f, type):
        m = MODELS.get(f) if type(f).__hash__ is not None else None
        if m is not None:
            return m(*a, **k)
        if issubclass(f, frozenset) and a and not k:
            return _build(f, a[0])
        if f in TRANSPARENT or f.__module__ in INSTRUMENTED:
            return f(*a, **k)
        if issubclass(f, BaseException) or f in CONTAINER_TYPES or \
                f.__module__ in TRANSPARENT_MODULES:
            return f(*a, **k)
        return foreign(f, a, k)
    if t is types.BuiltinFunctionType or t is BUILTIN_METHOD:
        s = getattr(f, "__self__", None)
        if s is None or isinstance(s, types.ModuleType):
            m = MODELS.get(f)
            if m is not None:
                return m(*a, **k)
            try:
                transparent = f in TRANSPARENT
            except TypeError:
                transparent = False
            return f(*a, **k) if transparent else foreign(f, a, k)
        ts = type(s)
        name = f.__name__
        if ts is str:
            if name == "format":
                return str_format(s, *a, **k)
            if has_sym(a) or (name == "join"):
                if name in STR_METHODS:
                    a = [list(a[0])] if name == "join" else a
                    if has_sym(a, 2):
                        return STR_METHODS[name](s, *a, **k)
                    return f(*a, **k)
                return foreign(f, a, k)
            return f(*a, **k)
        if ts is re.Pattern:
            if has_sym(a):
                if name in RX_METHODS:
                    return RX_METHODS[name](s, *a, **k)
                if name == "sub":
                    return rx.rx_sub(s, *a, **k)
            return f(*a, **k)
        if ts in (dict, set, frozenset, collections.OrderedDict,
                  collections.defaultdict) or isinstance(s, (dict, set)):
            if name in KEYED and a:
                if _resolved(a[0]):
                    a = (resolve_key(s, a[0]),) + a[1:]
            elif name == "update" and ts in DICTS[:3]:
                return dict_update(s, *a, **k)
            elif isinstance(s, SETS) and name in SET_METHODS:
                a = tuple(unified(s, x) for x in a)
            return f(*a, **k)
        if isinstance(s, CONTAINER_TYPES):
            if name in ("index", "remove"):
                # the message of the ValueError is abstracted
                core.ST.msg_mode += 1
                try:
                    return f(*a, **k)
                finally:
                    core.ST.msg_mode -= 1
            return f(*a, **k)
        if name in ("__setattr__", "__getattribute__", "__delattr__"):
            return f(*[realise(x) if is_symstr(x) and not i else x
                       for i, x in enumerate(a)], **k)
        if name in ("__new__", "__init__", "__setattr__", "__getattribute__",
                    "__reduce_ex__", "__reduce__", "__eq__", "__ne__",
                    "__delattr__", "mro", "__subclasses__"):
            return f(*a, **k)
        if isinstance(s, type):
            return f(*a, **k) if not has_sym(a) else foreign(f, a, k)
        if isinstance(s, types.GeneratorType):
            return f(*a, **k)
        return foreign(f, a, k)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType,
             types.MethodWrapperType, types.ClassMethodDescriptorType):
        # str.upper(x), dict.get(d, k), object.__setattr__(...)
        if t is types.MethodWrapperType and f.__name__ == "__hash__":
            return m_hash(f.__self__)
        if t is types.MethodWrapperType and f.__name__ in KEYED and a and (
                type(f.__self__) in DICTS):
            if _resolved(a[0]):
                a = (resolve_key(f.__self__, a[0]),) + a[1:]
            return f(*a, **k)
        if t is types.MethodDescriptorType and a:
            o = f.__objclass__
            if o is str and has_sym(a):
                if is_symstr(a[0]):
                    return getattr(a[0], f.__name__)(*a[1:], **k)
                if f.__name__ in STR_METHODS:
                    return STR_METHODS[f.__name__](*a, **k)
                return foreign(f, a, k)
            if o is str and f.__name__ == "format":
                return str_format(*a, **k)
            return f(*a, **k)
        return f(*a, **k)
    if _instrumented_callable(t):
        return f(*a, **k)
    return foreign(f, a, k)


def _instrumented_callable(t):
    return t.__module__ in INSTRUMENTED or t.__module__ in \
        TRANSPARENT_MODULES or t is functools.partial or \
        t in (operator.itemgetter, operator.attrgetter)


TRANSPARENT_MODULES = {"inspect", "warnings", "richenum", "richenum.enums",
                       "weakref", "abc", "collections", "pickle", "_pickle",
                       "copyreg", "copy", "functools", "contextlib",
                       "collections.abc", "_collections_abc", "threading",
                       "sx.models", "sx.regex", "sx.proxies", "sx.api",
                       "sx.core"}


def foreign(f, a, k):
    """a C (or uninstrumented) function: realise symbolic arguments"""
    if has_sym(a) or (k and has_sym(list(k.values()))):
        n = getattr(f, "__qualname__", repr(f))
        core.STATS.realised_at[n] = core.STATS.realised_at.get(n, 0) + 1
        a = realise(tuple(a))
        k = realise(k)
    return f(*a, **k)


def getitem(o, i):
    ti = type(i)
    to = type(o)
    if ti is SymInt and to in (list, tuple):
        n = len(o)
        for j in range(-n, n):
            if i == j:
                return o[j]
        raise IndexError("list index out of range")
    if ti is SymInt and to is str:
        return o[i.__index__()]
    if to in DICTS:
        if _resolved(i):
            i = resolve_key(o, i)
    return o[i]


def in_(x, c):
    tc = type(c)
    if tc in DICTS or isinstance(c, SETS):
        if _resolved(x):
            x = resolve_key(c, x)
        return x in c
    if tc is str and is_symstr(x):
        return str_find(c, x) >= 0
    if tc is type({}.keys()) and (type(x) in SYMTYPES or
                                  type(x) in (int, str)):
        x = resolve_key(c, x)
    return x in c


def contains(c, x):
    return in_(x, c)


_FMT = re.compile(r"%(\((\w+)\))?([#0\- +]*)(\d+)?(\.\d+)?([a-zA-Z%])")


def mod(a, b):
    if type(a) is not str:
        return a % b
    if not has_sym(b, 4) and not _needs_model(b):
        return a % b
    out = []
    pos = 0
    args = list(b) if type(b) is tuple else [b]
    n = 0
    for m in _FMT.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        conv = m.group(6)
        if conv == "%":
            out.append("%")
            continue
        if m.group(2):
            v = b[m.group(2)]
        else:
            if n >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[n]
            n += 1
        if conv == "d" and m.group(3) == "0" and not m.group(5) and \
                type(v) is SymInt:
            out.append(padded(v, int(m.group(4))))
        elif m.group(3) or m.group(4) or m.group(5):
            out.append(("%" + m.group(3) + (m.group(4) or "") +
                        (m.group(5) or "") + conv) % realise(v))
        elif conv == "s":
            out.append(m_str(v))
        elif conv in "ra":
            out.append(m_repr(v))
        elif conv in "di":
            if isinstance(v, (int, float)):
                out.append(m_str(m_int(v)))
            else:
                raise TypeError("%%%s format: a real number is required, "
                                "not %s" % (conv, type(v).__name__))
        else:
            out.append(("%" + conv) % realise(v))
    out.append(a[pos:])
    if type(b) is tuple and n < len(args):
        raise TypeError("not all arguments converted during string "
                        "formatting")
    return str_join("", out)


def padded(v, width):
    """%0<width>d"""
    st = core.ST
    if st.fork(z3.And(v.e >= 0, v.e < 10 ** width)):
        # (as a sum of digits: linear)
        ds = [z3.Int(st.fresh("digit")) for _ in range(width)]
        st.add(z3.And([z3.And(d >= 0, d <= 9) for d in ds] + [
            v.e == z3.Sum([d * 10 ** (width - 1 - i)
                           for i, d in enumerate(ds)])]))
        return mkstr(tuple(d + 48 for d in ds))
    return ("%%0%dd" % width) % realise(v)


def _needs_model(b):
    """objects whose __str__/__repr__ is code under test: run it through the
    model so that a symbolic result is not forced into C"""
    for x in (b if type(b) is tuple else
              list(b.values()) if type(b) is dict else (b,)):
        t = type(x)
        if t in (list, dict, set):
            return True
        for fn in (t.__str__, t.__repr__):
            if isinstance(fn, FunctionType) and fn.__module__ in INSTRUMENTED:
                return True
    return False


def msgmod(a, b):
    """formatting of an exception message: the text is abstracted"""
    st = core.ST
    if type(a) is not str or st is None:
        return a % b
    if st.exact_repr:
        return mod(a, b)
    st.msg_mode += 1
    try:
        return a % b
    finally:
        st.msg_mode -= 1


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == ord("r"):
            v = m_repr(v)
        elif conv == ord("s"):
            v = m_str(v)
        elif conv == ord("a"):
            v = ascii(realise(v))
        out.append(m_format(v, spec))
    return str_join("", out)


def key(o, i):
    """the key used by a subscript assignment or deletion"""
    if type(o) in DICTS:
        if _resolved(i):
            return resolve_key(o, i)
    return i
