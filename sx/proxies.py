"""Symbolic stand-ins for int and str values.

They are not subclasses of int/str, so C code that is not modelled refuses
them loudly instead of quietly using a concrete content; `__class__` makes
isinstance() answer as for the real type.
"""
import functools
import unicodedata
import z3

from . import core
from .core import Unsupported

HASH_INT = 0x5EED1
HASH_STR = 0x5EED2


def _loud(what):
    def f(self, *a):
        st = core.ST
        if st is not None and st.msg_mode:
            core.STATS.abstracted_formats += 1
            return "<sym>"
        raise Unsupported("%s of a symbolic value reached C code" % what)
    return f


def _lookup_token(tok):
    return core.ST.tokens[tok]


class Sym(object):
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _token(self):
        st = core.ST
        for k, v in st.tokens.items():
            if v is self:
                return k
        k = "__sx%d__" % len(st.tokens)
        st.tokens[k] = self
        return k

    def __reduce_ex__(self, proto):
        return (_lookup_token, (self._token(),))

    __str__ = _loud("str()")
    __repr__ = _loud("repr()")
    __format__ = _loud("format()")


class SymBool(object):
    """result of a symbolic comparison; bool() forks the path"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.ST.fork(self.e)

    __class__ = property(lambda self: bool)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return repr(bool(self))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def as_expr(x):
    """z3 expr of an int-ish value or None"""
    if type(x) is SymInt:
        return x.e
    if type(x) is bool:
        return z3.IntVal(int(x))
    if isinstance(x, int) and type(x) is not SymBool:
        return z3.IntVal(int(x))
    if type(x) is SymBool:
        return z3.IntVal(int(bool(x)))
    if type(x) is float and x.is_integer():
        return z3.IntVal(int(x))
    return None


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _binop(fn, rev=False):
    def f(self, o):
        if type(o) is float:
            raise Unsupported("symbolic int with float arithmetic")
        e = as_expr(o)
        if e is None:
            return NotImplemented
        return mkint(fn(e, self.e) if rev else fn(self.e, e))
    return f


def _floordiv(a, b):
    b = z3.simplify(b)
    if not z3.is_int_value(b):
        raise Unsupported("division by a symbolic int")
    k = b.as_long()
    if k == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if k > 0:
        return a / b
    return (-a) / z3.IntVal(-k)


def _mod(a, b):
    return a - _floordiv(a, b) * b


def _cmp(fn, floatfn):
    def f(self, o):
        if type(o) is float and not o.is_integer():
            import math
            if o != o or o in (float("inf"), float("-inf")):
                return floatfn(0, o)
            # x < 1.5 iff x <= 1 iff x < 2
            lo = math.floor(o)
            return mkbool(self.e <= lo if floatfn(0, 1) else self.e > lo)
        e = as_expr(o)
        if e is None:
            return NotImplemented
        return mkbool(fn(self.e, e))
    return f


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int)

    __add__ = _binop(lambda a, b: a + b)
    __radd__ = _binop(lambda a, b: a + b)
    __sub__ = _binop(lambda a, b: a - b)
    __rsub__ = _binop(lambda a, b: a - b, True)
    __floordiv__ = _binop(_floordiv)
    __mod__ = _binop(_mod)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return self.__index__() * o
        e = as_expr(o)
        if e is None:
            return NotImplemented
        return mkint(self.e * e)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    __lt__ = _cmp(lambda a, b: a < b, lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b, lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b, lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is float and not o.is_integer():
            return False
        e = as_expr(o)
        if e is None:
            return NotImplemented
        return mkbool(self.e == e)

    def __ne__(self, o):
        if o is self:
            return False
        if type(o) is float and not o.is_integer():
            return True
        e = as_expr(o)
        if e is None:
            return NotImplemented
        return mkbool(self.e != e)

    def __bool__(self):
        return core.ST.fork(self.e != 0)

    def __hash__(self):
        for k in sorted(x for x in core.ST.hash_k if isinstance(x, int)):
            if core.ST.fork(self.e == k):
                return hash(k)
        return HASH_INT

    def __index__(self):
        st = core.ST
        for _ in range(40):
            m = st.get_model() if len(st.trace) >= len(st.prefix) else None
            if m is None:
                # replaying: the value tried is recorded in the prefix
                v = st.prefix[len(st.trace)]
            else:
                v = m.eval(self.e, model_completion=True).as_long()
            st.trace.append(v)
            if st.fork(self.e == v):
                return v
        raise Unsupported("too many values for a symbolic index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float of symbolic int")

    def bit_length(self):
        raise Unsupported("bit_length")

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)


# ---------------------------------------------------------------- characters

_PRED_CACHE = {}
FULL = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def ranges_of(pred, key):
    """code point ranges where the predicate of a 1-char string holds"""
    r = _PRED_CACHE.get(key)
    if r is None:
        r = []
        start = None
        for cp in range(0x110000):
            ok = not (0xD800 <= cp <= 0xDFFF) and pred(chr(cp))
            if ok and start is None:
                start = cp
            elif not ok and start is not None:
                r.append((start, cp - 1))
                start = None
        if start is not None:
            r.append((start, 0x10FFFF))
        _PRED_CACHE[key] = r = tuple(r)
    return r


def in_ranges(c, ranges):
    """z3 Bool: char expr c (z3 Int) is in the ranges"""
    if not ranges:
        return z3.BoolVal(False)
    return z3.Or([c == lo if lo == hi else z3.And(c >= lo, c <= hi)
                  for lo, hi in ranges])


# the alphabets symbolic characters were declared over, by variable id, so
# that class predicates can be built over the alphabet only
ALPHABET = {}


def char_pred(c, pred, key):
    """bool | z3 Bool: predicate of one char (int or z3 expr)"""
    if isinstance(c, int):
        return bool(pred(chr(c)))
    alpha = core.ST.names.get(("alpha", c.get_id()))
    if alpha is not None:
        yes = [cp for cp in alpha if pred(chr(cp))]
        if len(yes) == len(alpha):
            return True
        if not yes:
            return False
        if len(yes) <= len(alpha) // 2:
            return z3.Or([c == cp for cp in yes])
        return z3.Not(z3.Or([c == cp for cp in alpha if cp not in yes]))
    return in_ranges(c, ranges_of(pred, key))


def test_char(c, pred, key):
    e = char_pred(c, pred, key)
    return e if isinstance(e, bool) else core.ST.fork(e)


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b      # z3 expr


def mkstr(chars):
    chars = tuple(chars)
    out = []
    for c in chars:
        if not isinstance(c, int):
            c = z3.simplify(c)
            if z3.is_int_value(c):
                c = c.as_long()
        out.append(c)
    if all(isinstance(c, int) for c in out):
        return "".join(map(chr, out))
    return SymStr(tuple(out))


def chars_of(s):
    if isinstance(s, SymStr):
        return s.chars
    if type(s) is str or isinstance(s, str):
        return tuple(map(ord, s))
    raise Unsupported("chars of %r" % type(s))


def is_symstr(x):
    return type(x) in (SymStr, StrOfInt)


def str_eq_expr(a, b):
    """bool or z3 Bool"""
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    conj = []
    for x, y in zip(ca, cb):
        e = ch_eq(x, y)
        if e is False:
            return False
        if e is True:
            continue
        conj.append(e)
    if not conj:
        return True
    return z3.And(conj) if len(conj) > 1 else conj[0]


class SymStr(Sym):
    __slots__ = ("_chars",)

    def __init__(self, chars):
        self._chars = chars

    @property
    def chars(self):
        return self._chars

    __class__ = property(lambda self: str)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, str):
            return NotImplemented
        if type(o) is StrOfInt:
            return o.__eq__(self)
        e = str_eq_expr(self, o)
        return e if isinstance(e, bool) else mkbool(e)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __hash__(self):
        for k in sorted(x for x in core.ST.hash_k if isinstance(x, str)):
            if self == k:
                return hash(k)
        return HASH_STR

    def _lt(self, o, le):
        a, b = chars_of(self), chars_of(o)
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return x < y
                continue
            if core.ST.fork(x == y):
                continue
            return core.ST.fork(x < y)
        return len(a) <= len(b) if le else len(a) < len(b)

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._lt(o, False)

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._lt(o, True)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not self._lt(o, True)

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not self._lt(o, False)

    def __getitem__(self, i):
        r = self.chars[i]
        if isinstance(i, slice):
            return mkstr(r)
        return mkstr((r,))

    def __iter__(self):
        for c in self.chars:
            yield mkstr((c,))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.chars + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars_of(o) + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        raise Unsupported("symbolic format string")

    def __contains__(self, o):
        return str_find(self, o) >= 0

    # -- str methods
    def find(self, sub, *a):
        return str_find(self, sub, *a)

    def index(self, sub, *a):
        r = str_find(self, sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        return str_count(self, sub)

    def startswith(self, p, start=0):
        return str_startswith(self, p, start)

    def endswith(self, p):
        return str_endswith(self, p)

    def split(self, sep=None, maxsplit=-1):
        return str_split(self, sep, maxsplit)

    def strip(self, cs=None):
        return str_strip(self, cs, True, True)

    def lstrip(self, cs=None):
        return str_strip(self, cs, True, False)

    def rstrip(self, cs=None):
        return str_strip(self, cs, False, True)

    def upper(self):
        return str_map(self, str.upper, "upper")

    def lower(self):
        return str_map(self, str.lower, "lower")

    def casefold(self):
        return str_map(self, str.casefold, "casefold")

    def replace(self, old, new, count=-1):
        return str_replace(self, old, new, count)

    def join(self, it):
        return str_join(self, it)

    def isdigit(self):
        return len(self) > 0 and all(
            test_char(c, str.isdigit, "isdigit") for c in self.chars)

    def isdecimal(self):
        return len(self) > 0 and all(
            test_char(c, str.isdecimal, "isdecimal") for c in self.chars)

    def isspace(self):
        return len(self) > 0 and all(
            test_char(c, str.isspace, "isspace") for c in self.chars)

    def isalpha(self):
        return len(self) > 0 and all(
            test_char(c, str.isalpha, "isalpha") for c in self.chars)

    def isalnum(self):
        return len(self) > 0 and all(
            test_char(c, str.isalnum, "isalnum") for c in self.chars)

    def isidentifier(self):
        if not len(self):
            return False
        if not test_char(self.chars[0], str.isidentifier, "isident"):
            return False
        return all(test_char(c, lambda x: ("a" + x).isidentifier(), "idcont")
                   for c in self.chars[1:])

    def isupper(self):
        seen = False
        for c in self.chars:
            if test_char(c, str.isupper, "isupper"):
                seen = True
            elif test_char(c, lambda x: x.islower() or x.istitle(), "cased"):
                return False
        return seen

    def islower(self):
        seen = False
        for c in self.chars:
            if test_char(c, str.islower, "islower"):
                seen = True
            elif test_char(c, lambda x: x.isupper() or x.istitle(), "casedu"):
                return False
        return seen

    def rstrip_(self):
        raise Unsupported("str method")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            raise Unsupported("str.%s of a symbolic string" % name)
        raise AttributeError(name)


class StrOfInt(SymStr):
    """str(n) of a symbolic int; becomes a digit string when inspected"""
    __slots__ = ("of", "_c")

    def __init__(self, of):
        self.of = of
        self._c = None

    @property
    def chars(self):
        if self._c is None:
            self._c = digits(self.of)
        return self._c

    def __bool__(self):
        return True

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is StrOfInt:
            return mkbool(self.of.e == o.of.e)
        if type(o) is str:
            try:
                v = int(o)
            except ValueError:
                return False
            if str(v) != o:
                return False
            return mkbool(self.of.e == v)
        return SymStr.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = SymStr.__hash__


def digits(n):
    e = n.e
    fork = core.ST.fork
    neg = fork(e < 0)
    a = z3.simplify(-e if neg else e)
    nd = None
    for k in range(1, 19):
        if fork(a < 10 ** k):
            nd = k
            break
    if nd is None:
        raise Unsupported("digits of an int above 10**18")
    out = [ord("-")] if neg else []
    for k in range(nd - 1, -1, -1):
        d = a if k == 0 else a / (10 ** k)
        d = d if k == nd - 1 else d % 10
        out.append(z3.simplify(d + 48))
    return tuple(out)


# ---------------------------------------------------------------- str models

def _eqf(e):
    return e if isinstance(e, bool) else core.ST.fork(e)


def str_find(s, sub, start=0, end=None):
    cs, cb = chars_of(s), chars_of(sub)
    end = len(cs) if end is None else end
    for i in range(start, end - len(cb) + 1):
        if _eqf(str_eq_expr(mkstr(cs[i:i + len(cb)]), sub)):
            return i
    return -1


def str_count(s, sub):
    cs, cb = chars_of(s), chars_of(sub)
    n = i = 0
    if not cb:
        return len(cs) + 1
    while i + len(cb) <= len(cs):
        if _eqf(str_eq_expr(mkstr(cs[i:i + len(cb)]), sub)):
            n += 1
            i += len(cb)
        else:
            i += 1
    return n


def str_startswith(s, p, start=0):
    if isinstance(p, tuple):
        return any(str_startswith(s, x) for x in p)
    cs, cp = chars_of(s)[start:], chars_of(p)
    return len(cs) >= len(cp) and _eqf(str_eq_expr(mkstr(cs[:len(cp)]), p))


def str_endswith(s, p):
    if isinstance(p, tuple):
        return any(str_endswith(s, x) for x in p)
    cs, cp = chars_of(s), chars_of(p)
    if not cp:
        return True
    return len(cs) >= len(cp) and _eqf(str_eq_expr(mkstr(cs[-len(cp):]), p))


def _isspace(c):
    return test_char(c, str.isspace, "isspace")


def str_split(s, sep=None, maxsplit=-1):
    cs = chars_of(s)
    out = []
    if sep is None:
        i = 0
        n = len(cs)
        while i < n:
            while i < n and _isspace(cs[i]):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                j = n
                while _isspace(cs[j - 1]):
                    j -= 1
                out.append(mkstr(cs[i:j]))
                break
            j = i
            while j < n and not _isspace(cs[j]):
                j += 1
            out.append(mkstr(cs[i:j]))
            i = j
        return out
    cp = chars_of(sep)
    if not cp:
        raise ValueError("empty separator")
    i = last = 0
    while i + len(cp) <= len(cs):
        if (maxsplit < 0 or len(out) < maxsplit) and \
                _eqf(str_eq_expr(mkstr(cs[i:i + len(cp)]), sep)):
            out.append(mkstr(cs[last:i]))
            i += len(cp)
            last = i
        else:
            i += 1
    out.append(mkstr(cs[last:]))
    return out


def str_strip(s, cset, left, right):
    cs = chars_of(s)
    if cset is None:
        t = _isspace
    else:
        kc = chars_of(cset)

        def t(c):
            return any(_eqf(ch_eq(c, k)) for k in kc)
    i, j = 0, len(cs)
    if left:
        while i < j and t(cs[i]):
            i += 1
    if right:
        while j > i and t(cs[j - 1]):
            j -= 1
    return mkstr(cs[i:j])


def str_map(s, fn, key):
    """a per-character mapping such as upper(): forks per class of characters
    mapping the same way (by offset, or to a fixed string)"""
    out = []
    for idx, c in enumerate(chars_of(s)):
        if isinstance(c, int):
            out.extend(map(ord, fn(chr(c))))
            continue
        st = core.ST
        alpha = st.names.get(("alpha", c.get_id()))
        if alpha is None:
            raise Unsupported("%s over an open alphabet" % key)
        groups = {}
        for cp in alpha:
            r = fn(chr(cp))
            g = ("off", ord(r) - cp) if len(r) == 1 else ("fix", r)
            groups.setdefault(g, []).append(cp)
        items = sorted(groups.items(), key=repr)
        for n, (g, cps) in enumerate(items):
            if n == len(items) - 1 or st.fork(
                    z3.Or([c == cp for cp in cps])):
                if g[0] == "off":
                    if g[1] == 0:
                        ne = c
                    else:
                        ne = z3.simplify(c + g[1])
                        st.names[("alpha", ne.get_id())] = [
                            cp + g[1] for cp in cps]
                        st.keep.append(ne)
                    out.append(ne)
                else:
                    out.extend(map(ord, g[1]))
                break
    if key == "lower" and any(c == 0x3A3 for c in chars_of(s)
                              if isinstance(c, int)):
        raise Unsupported("final sigma")
    return mkstr(out)


def str_replace(s, old, new, count=-1):
    cs, co = chars_of(s), chars_of(old)
    out = []
    i = n = 0
    if not co:
        raise Unsupported("replace of empty string")
    while i < len(cs):
        if (count < 0 or n < count) and i + len(co) <= len(cs) and \
                _eqf(str_eq_expr(mkstr(cs[i:i + len(co)]), old)):
            out.extend(chars_of(new))
            i += len(co)
            n += 1
        else:
            out.append(cs[i])
            i += 1
    return mkstr(out)


def str_join(sep, it):
    items = list(it)
    out = []
    for n, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError(
                "sequence item %d: expected str instance, %s found" %
                (n, type(x).__name__))
        if n:
            out.extend(chars_of(sep))
        out.extend(chars_of(x))
    if len(items) == 1:
        return items[0]
    return mkstr(out)


def has_sym(x, depth=3):
    t = type(x)
    if t in SYMTYPES:
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1)
                   for k, v in x.items())
    return False


# -- NFC over a declared alphabet

def nfc(s):
    """unicodedata.normalize('NFC') of a symbolic string: characters outside
    any composition/decomposition are kept symbolic, the others are forked to
    their concrete value."""
    cs = chars_of(s)
    if all(isinstance(c, int) for c in cs):
        return unicodedata.normalize("NFC", "".join(map(chr, cs)))
    st = core.ST
    out = []
    buf = []       # pending run ending in concrete chars

    def inert(ch):
        return ord(ch) < 0x80 and not ch.isalpha() or ch in _INERT

    out_chars = []
    conc = []
    for c in cs:
        if isinstance(c, int):
            conc.append(c)
            continue
        if test_char(c, _stable_char, "nfc-stable"):
            conc.append(c)
        else:
            # fork to a concrete value of the alphabet
            alpha = st.names.get(("alpha", c.get_id()))
            if alpha is None:
                raise Unsupported("NFC over an open alphabet")
            cand = [cp for cp in alpha if not _stable_char(chr(cp))]
            for n, cp in enumerate(cand):
                if n == len(cand) - 1 or st.fork(c == cp):
                    conc.append(cp)
                    break
    # split at symbolic (stable) chars
    for c in conc:
        if isinstance(c, int):
            buf.append(chr(c))
        else:
            out_chars.extend(map(ord, unicodedata.normalize(
                "NFC", "".join(buf))))
            buf = []
            out_chars.append(c)
    out_chars.extend(map(ord, unicodedata.normalize("NFC", "".join(buf))))
    return mkstr(out_chars)


_INERT = set()


@functools.lru_cache(None)
def _stable_char(ch):
    """neither decomposes, nor combines with a neighbour on either side: safe
    to leave symbolic between runs that are normalised on their own"""
    if unicodedata.combining(ch):
        return False
    if unicodedata.normalize("NFC", ch) != ch or \
            unicodedata.normalize("NFD", ch) != ch:
        return False
    if 0x1100 <= ord(ch) <= 0x11FF or 0xAC00 <= ord(ch) <= 0xD7A3:
        return False
    return ch not in _starters()


@functools.lru_cache(None)
def _starters():
    """characters taking part in a canonical composition"""
    s = set()
    for cp in range(0x110000):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        d = unicodedata.decomposition(chr(cp))
        if d and not d.startswith("<"):
            for p in d.split():
                s.add(chr(int(p, 16)))
    return frozenset(s)


SYMTYPES = frozenset((SymInt, SymStr, StrOfInt, SymBool))
