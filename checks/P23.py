"""Subtypes and the ready-made property types: which values they let through,
and what is stored for the others."""
import abc
import datetime
import decimal
import fractions
import numbers

from sx.api import harness, MISSING
from normalize import ListProperty, DictProperty, Property, Record, \
    from_json, to_json
from normalize.coll import list_of
from normalize.property.types import DateProperty, DatetimeProperty, \
    FloatProperty, IntegerProperty, IntProperty, LongProperty, \
    NumberProperty, StringProperty, UnicodeProperty
from normalize.subtype import subtype
import normalize.exc as exc

# (this check runs with the standard library's pure python datetime)
SYMBOLIC_DATES = True
VALIDATE_EVERY = 17
ASSUMPTIONS = ("the optional dateutil is not installed (it is not here): "
               "dates are parsed by the fallback in property/types.py",)
OUTSIDE = ("floats other than the listed ones, timezones, date strings with "
           "separators in other places than between the numbers, numeric "
           "strings of more than 3 (thorough: 4) characters")


class Strange(object):
    """has no order and no length; its truth cannot be told"""
    def __bool__(self):
        raise RuntimeError("no truth")

    def __repr__(self):
        return "Strange()"


class SubInt(int):
    pass


class SubStr(str):
    pass


STRANGE = Strange()


def anything(S, lo=-50, hi=50):
    """values of many types; numbers and strings symbolic"""
    k = S.choice(10, "kind")
    if k == 0:
        return S.int("v", lo, hi)
    if k == 1:
        return S.str("s", 2, alphabet="a1-")
    return [None, True, False, 2.5, [1], (), STRANGE, SubInt(7)][k - 2]


def is_int(S, v):
    return S.type(v) in (int, bool, SubInt)


# ------------------------------------------------------------- subtypes

@harness(witness=["in", "out", "not of the type"])
def between(S):
    """any range of integers"""
    lo, hi = S.int("lo"), S.int("hi")
    T = subtype("T", int, where=lambda x: lo <= x and x < hi)
    v = anything(S, None, None)
    got = isinstance(v, T)
    if is_int(S, v):
        want = lo <= v and v < hi
        S.check(got == want, "an instance exactly if the condition holds")
        S.witness("in" if want else "out")
    else:
        S.check(got is False or got == False, "of the base type only")
        S.witness("not of the type")
    S.check(issubclass(T, int) and isinstance(T, type), "a type")
    S.check(T.__name__ == "T" and str(T) == "<subtype T of int>", "its name")


@harness(slen=(3, 4), witness=["in", "out"])
def strings(S):
    """a condition on strings"""
    n = S.int("n", 0, 4)
    T = subtype("T", of=str,
                where=lambda x: len(x) >= n and not x.startswith("-"))
    s = S.str("s", S.p["slen"], alphabet="ab-")
    want = len(s) >= n and s[:1] != "-"
    S.check(isinstance(s, T) == want, "exactly if the condition holds")
    S.check(not isinstance(5, T) and not isinstance(None, T), "other types")
    S.witness("in" if want else "out")


CONDITIONS = ["value", "list", "none", "raise ValueError", "raise KeyError",
              "raise AttributeError", "raise TypeError", "raise Custom",
              "strange", "sometimes"]


class Custom(Exception):
    pass


ERRORS = {"raise ValueError": ValueError, "raise KeyError": KeyError,
          "raise AttributeError": AttributeError,
          "raise TypeError": TypeError, "raise Custom": Custom}


@harness(witness=["in", "out"])
def odd_conditions(S):
    """conditions that give no bool, or fail"""
    kind = S.pick(CONDITIONS, "condition")
    limit = S.int("limit")

    def where(x):
        if kind == "value":
            return x
        if kind == "list":
            return [x] * (1 if x > limit else 0)
        if kind == "none":
            return None
        if kind == "strange":
            return STRANGE
        if kind == "sometimes":
            if x > limit:
                return True
            raise Custom()
        raise ERRORS[kind]("no")
    T = subtype("T", int, where)
    v = S.int("v")
    r = S.outcome(lambda: isinstance(v, T))
    S.check(r.ok, "asking raises nothing")
    want = (kind == "value" and v != 0) or \
        (kind in ("list", "sometimes") and v > limit)
    S.check(r.value == want, "an instance exactly if the condition is true")
    S.witness("in" if want else "out")


@harness(witness=["in", "out"])
def of_subtypes(S):
    """subtypes of subtypes of subtypes"""
    lo, hi, no = S.int("lo"), S.int("hi"), S.int("no")
    A = subtype("A", int, where=lambda x: x >= lo)
    B = subtype("B", of=A, where=lambda x: x <= hi)
    C = subtype("C", of=B, where=lambda x: x != no)
    v = S.int("v")
    a = v >= lo
    b = a and v <= hi
    c = b and v != no
    S.check(isinstance(v, A) == a, "of the first")
    S.check(isinstance(v, B) == b, "of the second")
    S.check(isinstance(v, C) == c, "of the third")
    S.check(issubclass(C, B) and issubclass(C, A) and issubclass(B, A) and
            issubclass(C, int) and not issubclass(A, B), "subclasses")
    S.witness("in" if c else "out")


class Rec(Record):
    a = Property(isa=int)
    b = Property()


class SubRec(Rec):
    pass


class Base(metaclass=abc.ABCMeta):
    @abc.abstractmethod
    def size(self):
        pass


class Impl(Base):
    def __init__(self, n):
        self.n = n

    def size(self):
        return self.n


class Duck(object):
    def __init__(self, n):
        self.n = self.a = n

    def size(self):
        return self.n


@harness(witness=["in", "out", "unset"])
def of_classes(S):
    """of records and of abstract classes"""
    v = S.int("v")
    limit = S.int("limit")
    kind = S.choice(7, "kind")
    if kind < 4:
        T = subtype("T", Rec, where=lambda r: r.a > limit)
        if kind == 0:
            x, want = Rec(a=v), v > limit
        elif kind == 1:
            x, want = SubRec(a=v), v > limit
        elif kind == 2:
            x, want = Rec(), False
            S.witness("unset")
        else:
            x, want = Duck(v), False
        S.check(issubclass(T, Rec) and issubclass(T, Record), "subclass")
    else:
        T = subtype("T", Base, where=lambda r: r.size() > limit)
        if kind == 4:
            x, want = Impl(v), v > limit
        elif kind == 5:
            x, want = Duck(v), False
        else:
            N = subtype("N", numbers.Integral, where=lambda r: r > limit)
            T = N
            x, want = v, v > limit
    S.check(isinstance(x, T) == want, "exactly if the condition holds")
    S.witness("in" if want else "out")


@harness(witness=["as it is", "converted", "refused"])
def construct(S):
    """calling a subtype"""
    limit = S.int("limit")
    how = S.choice(4, "coerce")
    coerce = [None, abs, lambda x: None,
              lambda x: abs(int(x)) if x != 3 else "3"][how]
    T = subtype("T", int, lambda x: x > limit, coerce)
    v = S.pick([S.int("v"), S.str("s", 1, alphabet="15a-")], "v")
    r = S.outcome(lambda: T(v))
    inst = S.type(v) is int and v > limit
    if inst:
        S.check(r.ok and r.value is v, "an instance is returned as it is")
        S.witness("as it is")
        return
    if how == 0:
        S.check(r.raised(exc.SubtypeNoCoerceFunc), "no conversion")
        S.check(isinstance(r.exc, exc.CoercionError), "a coercion error")
        S.witness("refused")
        return
    c = S.outcome(lambda: coerce(v))
    if not c.ok:
        S.check(r.kind() == c.kind(), "the conversion's error")
        S.witness("refused")
    elif S.type(c.value) is int and c.value > limit:
        S.check(r.ok and S.eq(r.value, c.value), "converted")
        S.witness("converted")
    else:
        S.check(r.raised(exc.SubtypeCoerceError), "converted to a bad value")
        S.check(S.eq(r.exc.coerced, c.value), "the error tells the result")
        S.check(S.eq(r.exc.passed, v), "and the value")


@harness(witness=["end"])
def of_what(S):
    """bases that are no types"""
    bad = S.pick([None, 5, "int", (int, str), [int], STRANGE], "of")
    r = S.outcome(lambda: subtype("T", bad, lambda x: True))
    S.check(r.raised(exc.SubtypeOfWhat), "refused")
    S.witness("end")


@harness(witness=["as it is", "converted", "refused", "left out"])
def in_property(S):
    """properties whose type is a subtype"""
    limit = S.int("limit", -5, 5)
    whose = S.choice(3, "whose")
    T = subtype("T", int, lambda x: x > limit,
                coerce=(lambda x: -int(x) or None) if whose == 1 else None)
    U = subtype("U", str, lambda x: x[:1] == "a")
    both = S.flag("both")
    kwargs = {}
    if whose == 2:
        kwargs["coerce"] = lambda x: -int(x) or None
    if both:
        if whose != 2:
            S.assume(False)
        kwargs["isa"] = (T, U)
    else:
        kwargs["isa"] = T
    required = S.flag("required")

    class R(Record):
        p = Property(required=required, **kwargs)

    v = S.pick([S.int("v", -9, 9), S.str("s", 2, 1, alphabet="a15")], "v")
    good = S.type(v) is int and v > limit or (
        both and S.type(v) is str and v[0] == "a")
    at_init = S.flag("init")
    start = 100
    if at_init:
        r = S.outcome(lambda: R(p=v))
        rec = r.value
    else:
        rec = R(p=start)

        def assign():
            rec.p = v
        r = S.outcome(assign)
    if good:
        S.check(r.ok and S.get(rec, "p") is v, "stored as it is")
        S.witness("as it is")
        return
    num = S.outcome(lambda: -int(v))
    converted = whose != 0 and num.ok and num.value != 0 and \
        num.value > limit
    if converted:
        S.check(r.ok and S.eq(S.get(rec, "p"), num.value), "converted")
        S.witness("converted")
    elif whose and num.ok and num.value == 0 and at_init and not required:
        S.check(r.ok and S.get(rec, "p") is MISSING, "None: left unset")
        S.witness("left out")
    else:
        S.check(not r.ok and r.raised(exc.CoercionError), "refused")
        if not at_init:
            S.check(S.eq(S.get(rec, "p"), start), "the old value is kept")
        S.witness("refused")


COUNT = []


@harness(witness=["end"])
def in_collections(S):
    """items whose type is a subtype"""
    limit = S.int("limit", -5, 5)
    # (generic types are told apart by the name)
    COUNT.append(0)
    T = subtype("T%d" % len(COUNT), int, lambda x: x > limit,
                coerce=lambda x: int(x))

    class R(Record):
        l = ListProperty(of=T)
        d = DictProperty(of=T)

    n = S.choice(3, "n")
    vals = [S.pick([S.int("v", -9, 9), "4"], "v") for _ in range(n)]
    ok = True
    want = []
    for v in vals:
        w = 4 if S.type(v) is str else v
        want.append(w)
        if not w > limit:
            ok = False
    which = S.choice(3, "which")
    if which == 0:
        r = S.outcome(lambda: list(R(l=vals).l))
    elif which == 1:
        r = S.outcome(lambda: list(list_of(T)(vals)))
    else:
        r = S.outcome(lambda: [
            x for k, x in sorted(R(d=dict(
                (str(i), v) for i, v in enumerate(vals))).d.items())])
    S.check(r.ok == ok, "accepted exactly if all of the items are")
    if ok:
        S.check(S.eq(r.value, want), "the items, converted")
    S.witness("end")


# ------------------------------------------------- ready-made: numbers, text

class Ready(Record):
    i = IntProperty()
    l = LongProperty()
    g = IntegerProperty()
    n = NumberProperty()
    f = FloatProperty()
    s = StringProperty()
    u = UnicodeProperty()


NOT_A_NUMBER = object()


def number_of(S, slot, v):
    """(accepted, what is stored)"""
    t = S.type(v)
    if slot in ("i", "l"):
        if isinstance(v, int):
            return True, v
        conv = int
    elif slot == "g":
        if isinstance(v, numbers.Integral):
            return True, v
        conv = int
    elif slot == "n":
        if isinstance(v, numbers.Number):
            return True, v
        if t is str or t is SubStr:
            r = S.outcome(lambda: int(v))
            if r.ok:
                return True, r.value
        conv = float
    elif slot == "f":
        if t is float:
            return True, v
        conv = float
    else:
        return isinstance(v, str), v
    r = S.outcome(lambda: conv(v))
    return r.ok, r.value


def store(S, cls, slot, v):
    """the value stored when v is passed, in one of several ways"""
    how = S.choice(3, "how")
    if how == 0:
        return S.outcome(lambda: S.get(cls(**{slot: v}), slot))
    if how == 1:
        rec = cls()

        def assign():
            setattr(rec, slot, v)
            return getattr(rec, slot)
        r = S.outcome(assign)
        if not r.ok:
            S.check(S.get(rec, slot) is MISSING, "nothing is stored")
        return r
    return S.outcome(lambda: S.get(from_json(cls, {slot: v}), slot))


@harness(slen=(3, 4), witness=["as it is", "converted", "refused"])
def numeric_strings(S):
    """strings for the number types"""
    slot = S.pick(["i", "l", "g", "n"], "slot")
    v = S.str("s", S.p["slen"], alphabet="10-+ _.a")
    if slot == "n":
        i = S.outcome(lambda: int(v))
        S.assume(i.ok)
    ok, want = number_of(S, slot, v)
    r = store(S, Ready, slot, v)
    S.check(r.ok == ok, "accepted exactly if there is a conversion")
    if ok:
        S.check(S.eq(r.value, want), "the number is stored")
        S.witness("converted")
    else:
        S.check(r.raised(exc.CoerceError, exc.CoercionError,
                         exc.JsonConversionError), "a coercion error")
        S.witness("refused")
    w = S.int("w")
    r = store(S, Ready, slot, w)
    S.check(r.ok and S.eq(r.value, w), "an integer is stored as it is")
    S.witness("as it is")


VALUES = [True, 2.5, -3.0, 1e20, float("inf"), "1.5", "1e3", "nan", "inf",
          " 7 ", "", "x", "0x10", b"12", b"x", None, [], (), {},
          decimal.Decimal("1.5"), decimal.Decimal(7),
          fractions.Fraction(1, 3), 2 + 1j, SubInt(9), SubStr("8"),
          SubStr("b"), STRANGE, 10 ** 30, "-0", "٣"]


def equal(a, b):
    return a == b or a != a and b != b


@harness(witness=["as it is", "converted", "refused", "left out"])
def values(S):
    """values of all kinds for all of the types"""
    slot = S.pick(list("ilgnfsu"), "slot")
    v = VALUES[S.choice(len(VALUES), "value")]
    ok, want = number_of(S, slot, v)
    r = store(S, Ready, slot, v)
    if v is None and r.ok:
        S.check(r.value is MISSING, "None: left unset")
        S.witness("left out")
        return
    S.check(r.ok == ok, "accepted exactly if there is a conversion")
    if not ok:
        S.witness("refused")
        return
    if want is v:
        S.check(r.value is v, "stored as it is")
        S.witness("as it is")
    else:
        S.check(S.type(r.value) is S.type(want) and equal(r.value, want),
                "its conversion is stored")
        S.witness("converted")


@harness(slen=(3, 4), witness=["end"])
def text(S):
    """strings for the string types"""
    slot = S.pick(["s", "u"], "slot")
    v = S.str("s", S.p["slen"])
    r = store(S, Ready, slot, v)
    S.check(r.ok and S.eq(r.value, v), "stored as it is")
    n = S.int("n")
    S.check(not store(S, Ready, slot, n).ok, "a number is refused")
    S.witness("end")


# ------------------------------------------------------------------- dates

class Dated(Record):
    d = DateProperty()
    t = DatetimeProperty()


class SubDate(datetime.date):
    pass


class SubTime(datetime.datetime):
    pass


class Dateable(object):
    def __init__(self, d):
        self.d = d

    def date(self):
        return self.d


def ymd(S):
    """the days that all months have; the others are in last_days"""
    return S.int("year", 1, 9999), S.int("month", 1, 12), S.int("day", 1, 28)


def hms(S):
    return S.int("hour", 0, 23), S.int("minute", 0, 59), \
        S.int("second", 0, 59)


def parts(x):
    r = [x.year, x.month, x.day]
    if isinstance(x, datetime.datetime):
        r += [x.hour, x.minute, x.second, x.microsecond]
    return r


@harness(witness=["date", "datetime", "other"])
def dates(S):
    """dates and datetimes for properties of either type"""
    y, m, d = ymd(S)
    kind = S.choice(5, "kind")
    slot = S.pick(["d", "t"], "slot")
    if kind == 0:
        v = datetime.date(y, m, d)
        time = [0, 0, 0, 0]
    elif kind == 1:
        v = SubDate(y, m, d)
        time = [0, 0, 0, 0]
    elif kind == 4:
        v = Dateable(datetime.date(y, m, d))
        time = None
    else:
        h, mi, s = hms(S)
        us = S.int("us", 0, 999999)
        v = (SubTime if kind == 3 else datetime.datetime)(
            y, m, d, h, mi, s, us)
        time = [h, mi, s, us]
    r = store(S, Dated, slot, v)
    if slot == "d":
        S.check(r.ok, "accepted")
        S.check(isinstance(r.value, datetime.date) and
                not isinstance(r.value, datetime.datetime), "a date")
        S.check(S.eq(parts(r.value), [y, m, d]), "the day it is")
        if kind < 2:
            S.check(r.value is v, "stored as it is")
        S.witness("date")
    elif kind == 4:
        S.check(not r.ok, "not a datetime")
        S.witness("other")
    else:
        S.check(r.ok, "accepted")
        S.check(isinstance(r.value, datetime.datetime), "a datetime")
        S.check(S.eq(parts(r.value), [y, m, d] + time), "the time it is")
        if kind > 1:
            S.check(r.value is v, "stored as it is")
        S.witness("datetime")


@harness(witness=["end"])
def iso(S):
    """what is written to JSON is read back"""
    y, m, d = ymd(S)
    if S.flag("datetime"):
        h, mi, s = hms(S)
        us = 0
        if S.flag("us"):
            us = S.int("us", 1, 999999)
        rec = Dated(t=datetime.datetime(y, m, d, h, mi, s, us))
    else:
        rec = Dated(d=datetime.date(y, m, d))
    js = to_json(rec)
    for k in js:
        S.check(S.type(js[k]) is str, "written as a string")
        S.check(js[k] == rec.__dict__[k].isoformat(), "in ISO form")
    back = from_json(Dated, js)
    for slot in "d", "t":
        x, z = S.get(rec, slot), S.get(back, slot)
        S.check((x is MISSING) == (z is MISSING), "the same slots")
        if x is not MISSING:
            S.check(S.type(x) is S.type(z), "the same type")
            S.check(S.eq(parts(x), parts(z)), "the same time")
    S.witness("end")


def digits(S, label, n):
    return S.str(label, n, n, alphabet="0123456789")


@harness(witness=["accepted", "refused"])
def date_strings(S):
    """days, with and without separators, of any digits"""
    y = digits(S, "y", S.pick([4, 2], "ylen"))
    m = digits(S, "m", S.pick([2, 1], "mlen"))
    d = digits(S, "d", S.pick([2, 1], "dlen"))
    sep = S.pick(["-", ""], "sep")
    slot = S.pick(["d", "t"], "slot")
    if sep == "" and (len(m) != 2 or len(d) != 2):
        S.assume(False)
    mi, di = int(m), int(d)
    S.assume(di <= 28 or di > 31)   # (see last_days)
    yi = int(y)
    if len(y) == 2:
        yi += 2000 if yi <= 68 else 1900
    v = y + sep + m + sep + d
    rec = Dated()

    def assign():
        setattr(rec, slot, v)
        return getattr(rec, slot)
    r = S.outcome(assign)
    padded = len(m) == 2 and len(d) == 2
    valid = padded and yi >= 1 and 1 <= mi and mi <= 12 and 1 <= di and \
        di <= 28
    S.check(r.ok == valid, "accepted exactly if it is a day")
    if valid:
        S.check(S.eq(parts(r.value), [yi, mi, di] + (
            [0] * 4 if slot == "t" else [])), "that day")
        S.check(isinstance(r.value, datetime.datetime) == (slot == "t"),
                "of the slot's type")
        S.witness("accepted")
    else:
        S.check(r.raised(exc.CoerceError), "a coercion error")
        S.check(S.get(rec, slot) is MISSING, "nothing is stored")
        S.witness("refused")


@harness(witness=["accepted", "refused"])
def time_strings(S):
    """times of a day, of any digits"""
    h, m = digits(S, "h", 2), digits(S, "m", 2)
    time = h + ":" + m
    s = us = None
    form = S.choice(3, "form")
    if form:
        s = digits(S, "s", 2)
        time += ":" + s
    if form == 2:
        us = S.str("us", 6, 6, alphabet="019")
        time += "." + us
    day = S.pick(["2012-11-10", "20121110"], "day")
    zulu = form < 2 and S.flag("Z")
    slot = S.pick(["t", "d"], "slot")
    v = day + S.pick(["T", " "], "sep") + time + ("Z" if zulu else "")
    rec = Dated()

    def assign():
        setattr(rec, slot, v)
        return getattr(rec, slot)
    r = S.outcome(assign)
    hi, mi = int(h), int(m)
    si = int(s) if form else 0
    S.assume(si < 60 or si > 61)    # (leap seconds)
    valid = hi <= 23 and mi <= 59 and si <= 59
    S.check(r.ok == valid, "accepted exactly if it is a time")
    if valid:
        want = [2012, 11, 10]
        if slot == "t":
            want += [hi, mi, si, int(us) if us is not None else 0]
        S.check(S.eq(parts(r.value), want), "that time")
        S.witness("accepted")
    else:
        S.check(r.raised(exc.CoerceError), "a coercion error")
        S.witness("refused")


@harness(witness=["accepted", "refused"])
def last_days(S):
    """the ends of months"""
    y = S.pick([1900, 2000, 2011, 2012], "year")
    m = 1 + S.choice(12, "month")
    d = 28 + S.choice(5, "day")
    n = 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else \
        29 if y in (2000, 2012) else 28
    v = "%d-%02d-%02d" % (y, m, d)
    slot = S.pick(["d", "t"], "slot")
    r = S.outcome(lambda: getattr(Dated(**{slot: v}), slot))
    S.check(r.ok == (d <= n), "accepted exactly if it is a day")
    if r.ok:
        S.check(S.eq(parts(r.value)[:3], [y, m, d]), "that day")
    S.witness("accepted" if r.ok else "refused")


@harness(witness=["end"])
def no_dates(S):
    """what is no date"""
    v = S.pick([None, 20121110, 5.5, True, [], STRANGE, b"20121110", "",
                "today", "2012", "2012-11", "2012-11-10-", "12:34",
                "2012-11-10T12", "2012-11-10T1:34:56", "2012-1-1T12:34:56",
                "2012-1-1 12:34:56", "2012-11-10T12:34:5.123456",
                "2012-11-10Z", "20-12-11-10 ", datetime.time(1, 2)], "v")
    slot = S.pick(["d", "t"], "slot")
    rec = Dated()
    r = S.outcome(lambda: setattr(rec, slot, v))
    S.check(r.raised(exc.CoerceError), "refused")
    S.check(S.get(rec, slot) is MISSING, "nothing is stored")
    S.witness("end")
