"""repr and str of records and collections in every state."""
from sx.api import harness, MISSING
from checks import menu
import normalize
from normalize import Record, Property, ListProperty, DictProperty, \
    JsonRecord, RecordList
from normalize.coll import list_of, dict_of, ListCollection, DictCollection
from normalize.property import LazyProperty, ROProperty
from normalize.property.types import IntProperty, StringProperty
from normalize.property.json import JsonListProperty
from normalize.record.json import JsonRecordList, JsonRecordDict
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("leaf values whose own repr cannot be evaluated, slots whose "
           "default was deleted (the repr then applies the default again), "
           "strings longer than 2 characters, collections with more than 2 "
           "items, nesting deeper than 2")


class One(Record):
    x = Property(isa=int)


class Flat(Record):
    i = Property(isa=int)
    s = Property(isa=str)
    any = Property()
    ex = Property(isa=int, extraneous=True)


class Sub(Flat):
    b = Property(isa=One)
    a = Property()


CALLS = [0]


def calc():
    CALLS[0] += 1
    return 7


class Lazy(Record):
    l = LazyProperty(default=calc)
    ro = ROProperty(isa=int)
    d = Property(isa=int, default=3)
    v = Property(isa=int, v1_none=None)


class Nest(Record):
    one = Property(isa=One)
    items = ListProperty(of=One)
    d = DictProperty(of=One)


class Nums(Record):
    nums = ListProperty(of=int)
    d = DictProperty(of=str)


class Plain(Record):
    data = Property()


class Deep(Record):
    plain = Property(isa=Plain)
    plains = ListProperty(of=Plain)


class Pk(Record):
    id = Property()
    z = Property()
    primary_key = [id]


class Pk2(Record):
    a = Property(isa=One)
    b = Property(isa=str)
    c = Property()
    primary_key = [b, a]


class Empty(Record):
    pass


class JItem(Record):
    x = Property(isa=int)


class J(JsonRecord):
    i = Property(isa=int, json_name="I")
    one = Property(isa=One)
    items = JsonListProperty(of=JItem, json_name="Items")


class MyList(RecordList):
    itemtype = One


class MyNamed(RecordList):
    itemtype = One
    title = Property()
    pair = Property(isa=One)


class MyDict(DictCollection):
    itemtype = One
    title = Property(isa=str)


class JList(JsonRecordList):
    itemtype = One


class JNamed(JsonRecordList):
    itemtype = One
    title = Property(isa=str)


class JDict(JsonRecordDict):
    itemtype = One


class JDictNamed(JsonRecordDict):
    itemtype = int
    title = Property(isa=str)


class Strs(RecordList):
    itemtype = str


def i(S):
    return S.int("i")


def s(S):
    """any string (its repr a token), or one with the characters that the
    repr of records is itself made of"""
    if S.flag("tricky"):
        return S.pick(["(", "[x", "{", "()", "=", "'", '"', "\\'", "a\nb",
                       ", x=1"], "str")
    return S.str("s", S.p["slen"])


def one(S):
    return One(x=S.int("x")) if S.flag("x") else One()


def jitem(S):
    return JItem(x=S.int("x"))


def seq(what):
    return lambda S: [what(S) for _ in range(S.choice(3, "len"))]


def mapping(what):
    return lambda S: dict((k, what(S)) for k in S.pick(
        [(), ("a",), ("b", "a"), ("(",), ("{",), ("it's",)], "keys"))


def data(S):
    k = S.choice(7, "data")
    if k == 0:
        return [S.int("v"), {"k": [one(S)]}]
    if k == 1:
        return (S.int("v"),)
    if k == 2:
        return ()
    if k == 3:
        return {"(": S.str("v", 1)}
    if k == 4:
        return None
    if k == 5:
        return True
    return {1: one(S)}


def plain(S):
    return Plain(data=data(S)) if S.flag("data") else Plain()


SLOTS = {
    Empty: {},
    One: dict(x=i),
    Flat: dict(i=i, s=s, any=data, ex=i),
    Sub: dict(i=i, s=s, a=one, b=one),
    Lazy: dict(l=i, ro=i, d=i, v=i),
    Nest: dict(one=one, items=seq(one), d=mapping(one)),
    Nums: dict(nums=seq(i), d=mapping(s)),
    Plain: dict(data=data),
    Deep: dict(plain=plain, plains=seq(plain)),
    Pk: dict(id=data, z=i),
    Pk2: dict(a=one, b=s, c=i),
    J: dict(i=i, one=one, items=seq(jitem)),
}
COLLS = {
    MyList: (seq(one), {}), MyNamed: (seq(one), dict(title=data, pair=one)),
    MyDict: (mapping(one), dict(title=s)), JList: (seq(one), {}),
    JNamed: (seq(one), dict(title=s)),
    JDict: (mapping(one), {}), JDictNamed: (mapping(i), dict(title=s)),
    list_of(One): (seq(one), {}), Strs: (seq(s), {}),
    dict_of(One): (mapping(one), {}), list_of(int): (seq(i), {}),
    list_of(list_of(int)): (seq(seq(i)), {}),
    dict_of(list_of(One)): (mapping(seq(one)), {}),
}
ALL = sorted(list(SLOTS) + list(COLLS), key=lambda c: c.__name__)
NS = dict((c.__name__, c) for c in ALL)
NS["OneList"], NS["OneDict"] = list_of(One), dict_of(One)
NS["JItem"] = JItem
for c in (Deep, Nums, Nest, J):
    for p in c.properties.values():
        if p.valuetype is not None and issubclass(p.valuetype, Record):
            NS.setdefault(p.valuetype.__name__, p.valuetype)


def build(S, cls):
    if cls in COLLS:
        make, slots = COLLS[cls]
        r = cls(values=make(S))
        for n in sorted(slots):
            if S.flag("set." + n):
                setattr(r, n, slots[n](S))
        return r
    kw = {}
    for n in sorted(SLOTS[cls]):
        if S.flag("set." + n):
            kw[n] = SLOTS[cls][n](S)
    r = cls(**kw)
    if cls is J and S.flag("unknown"):
        r = J({"I": i(S), "zz": [i(S)], "o": {"a": None}})
    if cls is Lazy and S.flag("read"):
        r.l
    return r


def state(S, x):
    t = S.type(x)
    if isinstance(x, Record):
        ks = sorted(k for k in t.properties if k in x.__dict__)
        r = [t.__name__, ks, [state(S, x.__dict__[k]) for k in ks]]
        if isinstance(x, DictCollection):
            r.append([(k, state(S, x[k])) for k in x.keys()])
        elif isinstance(x, ListCollection):
            r.append([state(S, v) for v in x])
        return r
    if t is list:
        return [state(S, v) for v in x]
    if t is tuple:
        return tuple(state(S, v) for v in x)
    if t is dict:
        return dict((k, state(S, v)) for k, v in x.items())
    return x


@harness(slen=(1, 2), witness=["record", "collection"])
def roundtrip(S):
    cls = S.pick(ALL, "class")
    r = build(S, cls)
    name = cls.__name__
    CALLS[0] = 0
    before = state(S, r)
    o = S.outcome(lambda: repr(r))
    S.check(o.ok, name + ": repr raises " + o.kind())
    S.check(CALLS[0] == 0, name + ": repr computes a lazy slot")
    S.check(S.eq(state(S, r), before), name + ": repr changes the object")
    back = S.outcome(lambda: S.eval(o.value, NS))
    S.check(back.ok, name + ": repr does not evaluate: " + back.kind())
    c = back.value
    S.check(S.type(c) is cls, name + ": class")
    S.check(S.eq(state(S, c), before), name + ": slots or contents")
    S.check(bool(c == r), name + ": not equal")
    S.witness("collection" if cls in COLLS else "record")


@harness(slen=(1, 1), witness=["str"])
def never_raises(S):
    """str and formatting of every object work and change nothing"""
    cls = S.pick(ALL, "class")
    r = build(S, cls)
    before = state(S, r)
    lazy = cls is Lazy
    for what, fn in (("str", lambda: str(r)), ("%s", lambda: "%s" % (r,)),
                     ("format", lambda: "{0}".format(r))):
        o = S.outcome(fn)
        S.check(o.ok, "%s: %s raises %s" % (cls.__name__, what, o.kind()))
        S.check(o.value[:len(cls.__name__) + 1] == "<" + cls.__name__ or
                isinstance(r, DictCollection), cls.__name__ + ": " + what)
    if not lazy:
        S.check(S.eq(state(S, r), before), cls.__name__ + ": changed")
    S.witness("str")


ALPHA = "ab('\"\\{[=,)\n"


@harness(slen=(3, 5), witness=["list", "dict", "record"])
def strings(S):
    """any string, made of the characters that repr itself uses, wherever a
    string can be: the text is exact, and each of its characters symbolic"""
    S.exact_repr()
    k = S.choice(7, "k")
    t = S.str("t", S.p["slen"], 0, ALPHA)
    r = [lambda: Flat(s=t), lambda: Strs([t, "x"]),
         lambda: MyDict({t: One(x=1)}), lambda: MyDict({"k": One()}, title=t),
         lambda: Nums(d={"a": t}, nums=[1]), lambda: JNamed([One()], title=t),
         lambda: Pk2(a=One(x=2), b=t, c=[t])][k]()
    o = S.outcome(lambda: repr(r))
    S.check(o.ok, "repr raises " + o.kind())
    back = S.outcome(lambda: S.eval(o.value, NS))
    S.check(back.ok, "repr does not evaluate: " + back.kind())
    S.check(S.eq(state(S, back.value), state(S, r)), "another object")
    S.check(bool(back.value == r), "not equal")
    o = S.outcome(lambda: str(r))
    S.check(o.ok, "str raises " + o.kind())
    S.witness("record" if k in (0, 4, 6) else "dict" if k in (2, 3) else
              "list")


@harness(digits=(6, 12), witness=["short", "long", "list", "dict"])
def exact(S):
    """the exact text for any number (its digits symbolic) and string"""
    S.exact_repr(ints=True)
    top = 10 ** S.p["digits"]
    v = S.int("v", -top, top)
    text = ("-" if v < 0 else "") + str(abs(v))
    k = S.choice(5, "k")
    if k == 0:
        S.check(repr(One(x=v)) == "One(x=" + text + ")", "One")
        S.check(str(Pk(id=v, z=1)) == "<Pk " + text + ">", "str of Pk")
        S.witness("short")
    elif k == 1:
        # (the identity is cut off in str)
        t = S.str("t", 32, 26, "ab")
        key = "'" + t + "'"
        S.check(str(Pk(id=t, z=v)) == "<Pk " + (
            key if len(key) <= 32 else key[:30] + "...") + ">", "long str")
        S.check(repr(Pk(id=t, z=v)) == "Pk(id=" + key + ", z=" + text + ")",
                "long repr")
        S.witness("long")
    elif k == 2:
        r = MyList([One(x=v), One()])
        S.check(repr(r) == "MyList([One(x=" + text + "), One()])", "MyList")
        S.check(str(r) == "<MyList: 2 item(s)>", "str of list")
        S.witness("list")
    elif k == 3:
        S.check(repr(MyNamed([One(x=v)], title=v)) ==
                "MyNamed([One(x=" + text + ")], title=" + text + ")",
                "MyNamed")
    else:
        t = S.str("t", 2, 0, "ab(")
        S.check(repr(MyDict({"k": One(x=v)}, title=t)) ==
                "MyDict({'k': One(x=" + text + ")}, title='" + t + "')",
                "MyDict")
        S.check(repr(MyDict({t: One(x=v)})) ==
                "MyDict({'" + t + "': One(x=" + text + ")})", "MyDict key")
        S.witness("dict")


@harness(slen=(1, 1), witness=["text"])
def text(S):
    """the exact text for records of plain values"""
    v, t = S.int("v"), S.str("t", 1)
    r = Flat(i=v, s=t)
    S.check(repr(r) == "Flat(i=" + repr(v) + ", s=" + repr(t) + ")", "Flat")
    S.check(repr(MyList([One(x=v), One()])) ==
            "MyList([One(x=" + repr(v) + "), One()])", "MyList")
    S.check(repr(MyDict({"k": One(x=v)}, title=t)) ==
            "MyDict({'k': One(x=" + repr(v) + ")}, title=" + repr(t) + ")",
            "MyDict")
    S.check(str(Pk(id=v, z=t)) == "<Pk " + repr(v) + ">", "str")
    S.check(str(MyList([One(x=v)])) == "<MyList: 1 item(s)>", "str of list")
    S.witness("text")


@harness(witness=["unset", "set"])
def kinds(S):
    """a property of any kind, set or not"""
    f = menu.Field(S)
    r, a, x = f.build(S)
    menu.CALLS[0] = 0
    before = S.snap(r)
    o = S.outcome(lambda: repr(r))
    S.check(o.ok, f.name + ": repr raises " + o.kind())
    S.check(menu.CALLS[0] == 0, f.name + ": default called")
    S.check(S.eq(S.snap(r), before), f.name + ": changed by repr")
    ns = dict((c.__name__, c) for c in (f.cls, menu.One))
    t = f.cls.properties["x"].valuetype
    if isinstance(t, type):
        ns[t.__name__] = t
    e = S.outcome(lambda: S.eval(o.value, ns))
    S.check(e.ok, "%s: %s: eval raises %s" % (f.name, o.value, e.kind()))
    c = e.value
    S.check(S.type(c) is f.cls, f.name + ": class")
    S.check(sorted(c.__dict__) == sorted(r.__dict__), f.name + ": slots")
    S.check(("x" in c.__dict__) == (x is not MISSING), f.name + ": slot set")
    S.check(bool(c == r), f.name + ": equal")
    if x is not MISSING:
        S.check(S.type(c.x) is S.type(r.x) and bool(c.x == r.x),
                f.name + ": x")
    s = S.outcome(lambda: str(r))
    S.check(s.ok, f.name + ": str raises " + s.kind())
    S.witness("unset" if x is MISSING else "set")
