"""JSON output, and reading it back."""
from sx.api import harness, MISSING
from checks import menu
import normalize
from normalize import Record, Property, ListProperty, DictProperty, \
    JsonRecord, RecordList, from_json, to_json
from normalize.coll import list_of, dict_of, DictCollection
from normalize.property import LazyProperty, ROProperty
from normalize.property.json import JsonProperty, JsonListProperty, \
    JsonDictProperty
from normalize.property.types import IntProperty, StringProperty
from normalize.record.json import JsonRecordList, JsonRecordDict, AutoJsonRecord
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("floats, dates and other leaves that JSON has no form for, "
           "big integers in slots without a type, records in slots of several types without a json_in function, extra properties of "
           "collections, nesting deeper than 3, collections with more than 2 "
           "items, json_in/json_out functions that are not each other's "
           "inverse")
BIG = 2 ** 53


class Flat(Record):
    i = Property(isa=int)
    s = Property(isa=str)
    any = Property()
    ex = Property(isa=int, extraneous=True)


class Named(Record):
    """a plain record with JSON names"""
    i = Property(isa=int, json_name="I")
    s = Property(isa=str, json_name="the s")
    swap = Property(isa=int, json_name="other")
    other = Property(isa=int, json_name="swap")


class JFlat(JsonRecord):
    i = Property(isa=int, json_name="I")
    s = Property(isa=str)
    wrapped = Property(isa=int, json_in=lambda j: j[0],
                       json_out=lambda v: [v])
    hidden = Property(isa=int, json_name=None)
    ex = Property(isa=int, extraneous=True, json_name="EX")


class Defaults(JsonRecord):
    req = Property(isa=int, required=True)
    d = Property(isa=int, default=3)
    z = Property(isa=int, default=0, json_name="Z")
    v = Property(isa=int, v1_none=None)
    lazy = LazyProperty(default=lambda: 7, isa=int)
    ro = ROProperty(isa=int)


class Nest(Record):
    flat = Property(isa=Flat)
    named = Property(isa=Named)
    j = Property(isa=JFlat, json_name="J")


class JNest(JsonRecord):
    named = Property(isa=Named, json_name="N")
    j = Property(isa=JFlat)
    again = Property(isa=JFlat, json_in=lambda j: from_json(JFlat, j[0]),
                     json_out=lambda v: [to_json(v)])


class Lists(Record):
    flats = ListProperty(of=Flat)
    nameds = ListProperty(of=Named)
    js = ListProperty(of=JFlat)
    nums = ListProperty(of=int)


class JLists(JsonRecord):
    flats = JsonListProperty(of=Flat, json_name="Flats")
    nameds = JsonListProperty(of=Named)
    js = JsonListProperty(of=JFlat)
    nums = JsonListProperty(of=int)


class Dicts(Record):
    flats = DictProperty(of=Flat)
    nameds = DictProperty(of=Named)
    js = DictProperty(of=JFlat)
    nums = DictProperty(of=int)


class JDicts(JsonRecord):
    nameds = JsonDictProperty(of=Named, json_name="Nameds")
    js = JsonDictProperty(of=JFlat)
    nums = JsonDictProperty(of=int)


class Deep(Record):
    nest = Property(isa=Nest)
    lists = Property(isa=Lists, json_name="L")


class Typed(JsonRecord):
    n = IntProperty(json_name="N")
    t = StringProperty()


class JList(JsonRecordList):
    itemtype = Named


class JListJ(JsonRecordList):
    itemtype = JFlat


class JDict(JsonRecordDict):
    itemtype = Named


class JDictInt(JsonRecordDict):
    itemtype = int


class PList(RecordList):
    itemtype = Named


class PDict(DictCollection):
    itemtype = JFlat


# every maker gives the value, and the JSON expected of it
def number(S):
    v = S.int("i")
    return v, v


def string(S):
    v = S.str("s", 1)
    return v, v


def small(S):
    v = S.int("e", -9, 9)
    return v, v


def anything(S):
    k = S.choice(7, "any")
    if k == 0:
        return small(S)
    if k == 1:
        return string(S)
    if k == 2:
        return None, None
    if k == 3:
        v, w = small(S)
        return [v, "x", [None]], [w, "x", [None]]
    if k == 4:
        v, w = small(S)
        return {"k": {"l": v}}, {"k": {"l": w}}
    if k == 5:
        v = S.flag("bool")
        return v, v
    return [], []


def wrapped(S):
    v = S.int("w", -9, 9)
    return v, [v]


def rec(cls):
    return lambda S: build(S, cls)


def again(S):
    v, j = build(S, JFlat)
    return v, [j]


def seq(what):
    def make(S):
        vs = [what(S) for _ in range(S.choice(S.p["nitems"] + 1, "len"))]
        return [v for v, _ in vs], [j for _, j in vs]
    return make


def mapping(what):
    def make(S):
        ks = S.pick([(), ("a",), ("b", ""), ("I", "the s")][
            :S.p["nitems"] + 2], "keys")
        vs = [(k, what(S)) for k in ks]
        return dict((k, v[0]) for k, v in vs), dict((k, v[1]) for k, v in vs)
    return make


# slot -> maker, JSON key
SLOTS = {
    Flat: dict(i=(number, "i"), s=(string, "s"), any=(anything, "any"),
               ex=(small, "ex")),
    Named: dict(i=(number, "I"), s=(string, "the s"), swap=(small, "other"),
                other=(small, "swap")),
    JFlat: dict(i=(number, "I"), s=(string, "s"), wrapped=(wrapped,
                "wrapped"), ex=(small, "EX"), hidden=(small, None)),
    Defaults: dict(req=(number, "req"), d=(small, "d"), z=(small, "Z"),
                   v=(small, "v"), lazy=(small, "lazy"), ro=(small, "ro")),
    Nest: dict(flat=(rec(Flat), "flat"), named=(rec(Named), "named"),
               j=(rec(JFlat), "J")),
    JNest: dict(named=(rec(Named), "N"), j=(rec(JFlat), "j"),
                again=(again, "again")),
    Lists: dict(flats=(seq(rec(Flat)), "flats"),
                nameds=(seq(rec(Named)), "nameds"),
                js=(seq(rec(JFlat)), "js"), nums=(seq(number), "nums")),
    JLists: dict(flats=(seq(rec(Flat)), "Flats"),
                 nameds=(seq(rec(Named)), "nameds"),
                 js=(seq(rec(JFlat)), "js"), nums=(seq(number), "nums")),
    Dicts: dict(flats=(mapping(rec(Flat)), "flats"),
                nameds=(mapping(rec(Named)), "nameds"),
                js=(mapping(rec(JFlat)), "js"),
                nums=(mapping(number), "nums")),
    JDicts: dict(nameds=(mapping(rec(Named)), "Nameds"),
                 js=(mapping(rec(JFlat)), "js"),
                 nums=(mapping(number), "nums")),
    Deep: dict(nest=(rec(Nest), "nest"), lists=(rec(Lists), "L")),
    Typed: dict(n=(number, "N"), t=(string, "t")),
}
INNER = (Flat, Named, JFlat, Nest, Lists)
COLLS = {
    JList: seq(rec(Named)), JListJ: seq(rec(JFlat)), PList: seq(rec(Named)),
    JDict: mapping(rec(Named)), JDictInt: mapping(number),
    PDict: mapping(rec(JFlat)), list_of(Named): seq(rec(Named)),
    list_of(int): seq(number), dict_of(Named): mapping(rec(Named)),
}
ALL = sorted(list(SLOTS) + list(COLLS), key=lambda c: (c.__name__,
                                                       c.__module__))
DEPTH = [0]


def build(S, cls):
    """-> (record, expected JSON); inside other records at most one slot is
    set (and any other constellation is covered at the top)"""
    if cls in COLLS:
        v, j = COLLS[cls](S)
        return cls(values=v), j
    kw, js = {}, {}
    names = sorted(SLOTS[cls])
    if DEPTH[0] or len(names) > 4 or cls in (Lists, JLists, Dicts, JDicts,
                                             Nest, JNest):
        k = S.choice(len(names) + 1, "slot." + cls.__name__)
        chosen = names[k - 1:k] if k else []
    else:
        chosen = [n for n in names if S.flag("set." + n)]
    if cls is Defaults and "req" not in chosen:
        chosen = chosen + ["req"]
    DEPTH[0] += 1
    try:
        for n in chosen:
            kw[n], j = SLOTS[cls][n][0](S)
            if SLOTS[cls][n][1] is not None:
                js[SLOTS[cls][n][1]] = j
    finally:
        DEPTH[0] -= 1
    r = cls(**kw)
    if cls is Defaults:
        js.setdefault("d", 3)
        js.setdefault("Z", 0)
        js.setdefault("lazy", 7)
    return r, js


def top(S, cls):
    DEPTH[0] = 0
    return build(S, cls)


def check_out(S, got, want, msg):
    """the JSON is as expected: types, keys, scalars; integers either as they
    are or, when big, as text"""
    if type(want) is dict:
        S.check(type(got) is dict, msg + ": no dict")
        S.check(sorted(got) == sorted(want), "%s: keys %s" % (msg, sorted(
            got)))
        for k in want:
            S.check(type(k) is str, msg + ": key")
            check_out(S, got[k], want[k], msg + "." + k)
    elif type(want) is list:
        S.check(type(got) is list and len(got) == len(want), msg + ": list")
        for i in range(len(want)):
            check_out(S, got[i], want[i], "%s[%d]" % (msg, i))
    elif want is None or type(want) is bool:
        S.check(got is want, msg + ": constant")
    elif S.type(want) is str:
        S.check(S.type(got) is str and got == want, msg + ": string")
    elif S.type(got) is str:
        S.check(got == str(want), msg + ": number as text")
        S.check(want > 2 ** 50 or want < -2 ** 50, msg + ": small as text")
        S.witness("text")
    else:
        S.check(S.type(got) is int and got == want, msg + ": number")
        S.check(got <= BIG and got >= -BIG, msg + ": number a JSON reader "
                "would round")


def mutables(x):
    r = []
    if isinstance(x, Record):
        r.append(x)
        for v in x.__dict__.values():
            r.extend(mutables(v))
    elif type(x) in (list, dict):
        r.append(x)
        for v in (x.values() if type(x) is dict else x):
            r.extend(mutables(v))
    return r


def state(S, x, hide=True):
    """what reading shows; hidden slots left out"""
    t = S.type(x)
    if isinstance(x, Record):
        if isinstance(x, DictCollection):
            return [t.__name__, [(k, state(S, x[k])) for k in sorted(x)]]
        if isinstance(x, normalize.coll.Collection):
            return [t.__name__, [state(S, v) for v in x]]
        d = {}
        for n in t.properties:
            if n in ("hidden", "unknown_json_keys"):
                continue
            v = S.get(x, n)
            if v is not MISSING:
                d[n] = state(S, v)
        return [t.__name__, d]
    if t is list:
        return [state(S, v) for v in x]
    if t is dict:
        return dict((k, state(S, v)) for k, v in x.items())
    return x


def set_slots(S, x):
    """slots actually set; a default that applies anyway does not count"""
    if isinstance(x, normalize.coll.Collection):
        return [set_slots(S, v) for v in (
            [x[k] for k in sorted(x)] if isinstance(x, DictCollection)
            else x)]
    if isinstance(x, Record):
        return dict((k, set_slots(S, x.__dict__[k])) for k in x.__dict__
                    if k not in ("hidden", "z", "lazy"))
    return None


@harness(nitems=(1, 2), witness=["read back", "text"])
def roundtrip(S):
    cls = S.pick(ALL, "class")
    name = cls.__name__
    r, want = top(S, cls)
    lazy = cls is Defaults
    before = None if lazy else S.snap(r)
    o = S.outcome(lambda: to_json(r))
    S.check(o.ok, name + ": to_json: " + o.kind())
    check_out(S, o.value, want, name)
    if not lazy:
        S.check(S.eq(S.snap(r), before), name + ": to_json changes it")
    mine = mutables(r)
    for x in mutables(o.value):
        for y in mine:
            S.check(x is not y, name + ": shares structure")
    js = o.value
    had = S.snap(js)
    via = S.pick(["struct", "str", "bytes", "bytearray", "class"], "via")
    if via == "class" and not issubclass(cls, JsonRecord):
        return
    if via == "class":
        b = S.outcome(lambda: cls(js))
    elif via == "struct":
        b = S.outcome(lambda: from_json(cls, js))
    else:
        text = S.json_text(js, via)
        b = S.outcome(lambda: from_json(cls, text))
    S.check(b.ok, "%s: reading back %s: %s" % (name, via, b.kind()))
    c = b.value
    S.check(S.type(c) is cls, name + ": class")
    S.check(S.eq(S.snap(js), had), name + ": reading modifies the input")
    S.check(S.eq(state(S, c), state(S, r)), name + ": values")
    S.check(S.eq(set_slots(S, c), set_slots(S, r)), name + ": slots set")
    if not has_hidden(r):
        S.check(bool(c == r), name + ": not equal")
    S.witness("read back")
    again = S.outcome(lambda: to_json(c))
    S.check(again.ok and S.eq(again.value, js), name + ": written again")


def has_hidden(x):
    if isinstance(x, Record):
        return "hidden" in x.__dict__ or any(
            has_hidden(v) for v in x.__dict__.values())
    if type(x) in (list, dict):
        return any(has_hidden(v) for v in (
            x.values() if type(x) is dict else x))
    return False


@harness(nitems=(1, 1), witness=["in", "out"])
def extraneous(S):
    """extraneous slots are written on request only, at every depth"""
    k = S.choice(4, "k")
    r, j = top(S, JFlat)
    if k == 1:
        r, j = JNest(j=r), {"j": j}
    elif k == 2:
        r, j = JLists(js=[r]), {"js": [j]}
    elif k == 3:
        r, j = JListJ(values=[r]), [j]
    ex = S.flag("extraneous")
    o = S.outcome(lambda: r.json_data(extraneous=ex))
    S.check(o.ok, "json_data: " + o.kind())
    check_out(S, o.value, j if ex else strip(j), "json_data")
    if not ex:
        d = S.outcome(lambda: r.json_data())
        S.check(d.ok and S.eq(d.value, o.value), "default")
    o = S.outcome(lambda: to_json(r, extraneous=ex))
    S.check(o.ok, "to_json: " + o.kind())
    check_out(S, o.value, j if ex else strip(j), "to_json")
    S.witness("in" if ex else "out")


def strip(j):
    if type(j) is dict:
        return dict((k, strip(v)) for k, v in j.items() if k != "EX")
    if type(j) is list:
        return [strip(v) for v in j]
    return j


@harness(witness=["magnitude"])
def magnitude(S):
    """integers of any size, in every place, come back the same"""
    v = S.int("v")
    k = S.choice(6, "where")
    if k == 0:
        r, get = Flat(i=v), lambda c: c.i
    elif k == 1:
        r, get = Lists(nums=[1, v]), lambda c: c.nums[1]
    elif k == 2:
        r, get = Dicts(nums={"k": v}), lambda c: c.nums["k"]
    elif k == 3:
        r, get = JLists(nums=[v]), lambda c: c.nums[0]
    elif k == 4:
        r, get = Nest(j=JFlat(i=v)), lambda c: c.j.i
    else:
        r, get = Typed(n=v), lambda c: c.n
    c = from_json(type(r), S.json_text(to_json(r), "str"))
    S.check(get(c) == v and S.type(get(c)) is int, "integer changed")
    S.check(to_json(v) == v or to_json(v) == str(v), "to_json of an integer")
    S.witness("magnitude")


@harness(witness=["prop", "unset"])
def single(S):
    """to_json of one property gives the value under its key"""
    r, want = top(S, JFlat)
    n = S.pick(sorted(SLOTS[JFlat]), "prop")
    key = SLOTS[JFlat][n][1]
    p = n if S.flag("by name") else JFlat.properties[n]
    o = S.outcome(lambda: to_json(r, prop=p))
    if n not in r.__dict__:
        S.check(o.raised(AttributeError), n + ": " + o.kind())
        S.witness("unset")
    elif key is not None:
        S.check(o.ok, n + ": " + o.kind())
        check_out(S, o.value, want[key], n)
        S.witness("prop")


@harness(witness=["plain", "refused"])
def plain(S):
    """plain values are converted structurally; what has no JSON form raises
    TypeError"""
    k = S.choice(6, "k")
    if k == 0:
        v, want = anything(S)
    elif k == 1:
        v = (S.int("a", -9, 9), [S.str("b", 1)])
        want = [v[0], [v[1][0]]]
    elif k == 2:
        r, j = top(S, JFlat)
        v, want = {"x": [r, None]}, {"x": [j, None]}
    elif k == 3:
        r, j = top(S, Named)
        v, want = (r, r), [j, j]
    elif k == 4:
        v, want = frozenset([3]), [3]
    else:
        v = S.pick([object(), 1j, range(3), {"x": object()}], "bad")
        o = S.outcome(lambda: to_json(v))
        S.check(o.raised(TypeError), "no JSON form: " + o.kind())
        S.witness("refused")
        return
    o = S.outcome(lambda: to_json(v))
    S.check(o.ok, "plain: " + o.kind())
    check_out(S, o.value, want, "plain")
    for x in mutables(o.value):
        for y in mutables(v):
            S.check(x is not y, "plain: shares structure")
    S.witness("plain")


@harness(witness=["unset", "set", "hidden"])
def kinds(S):
    """a property of any kind, set or not"""
    f = menu.Field(S, [k for k in menu.KINDS if k not in (
        "coerced", "union")], json=True)
    r, a, x = f.build(S)
    # there are no tuples in JSON
    S.assume(f.kind != "maybe" or type(x) is not tuple)
    lazy = f.kind in ("lazy", "lazyself", "rolazy", "listlazy")
    if x is MISSING and (lazy or f.kind == "v1default"):
        # the others read as unset
        x = f.unset
    if type(x) is tuple:
        x = list(x)
    if f.extraneous and S.flag("without"):
        want_x, extr = MISSING, False
    else:
        want_x, extr = x, True
    method = f.base is JsonRecord and S.flag("method")
    o = S.outcome(lambda: r.json_data(extraneous=extr) if method else
                  to_json(r, extraneous=extr))
    S.check(o.ok, f.name + ": raises " + o.kind())
    want = {"a": a}
    if want_x is not MISSING and f.json_name is not None:
        want[f.json_name] = want_x
    else:
        S.witness("unset" if want_x is MISSING else "hidden")
    check_out(S, o.value, want, f.name)
    if f.required and f.json_name is None:
        return
    if f.required and want_x is MISSING:
        i = S.outcome(lambda: from_json(f.cls, o.value))
        S.check(not i.ok, f.name + ": read without what is required")
        return
    i = S.outcome(lambda: from_json(f.cls, o.value))
    S.check(i.ok, f.name + ": reading raises " + i.kind())
    c = i.value
    S.check(S.type(c) is f.cls, f.name + ": class")
    S.check(c.a == a, f.name + ": a")
    if f.json_name is not None and want_x is not MISSING:
        S.witness("set")
        if f.kind in ("plain", "check", "unsafe", "maybe", "defaultfn",
                      "lazy", "diffas"):
            # no type that would turn a list into a tuple, or text into an
            # integer
            got = c.x
            S.check(type(got) is type(want_x) and got == want_x or
                    got == o.value[f.json_name], f.name + ": x")
        else:
            S.check(bool(c.x == r.x) and S.type(c.x) is S.type(r.x),
                    f.name + ": x")
            S.check(bool(c == r), f.name + ": equal")


class Leaf(Record):
    """written by a method of its own"""
    v = Property()


class Plain(object):
    def __init__(self, v):
        self.v = v


METHODS = {
    "none": lambda self: ["mine", self.v],
    "positional": lambda self, extraneous=False: ["mine", self.v, extraneous],
    "kwonly": lambda self, *, extraneous=False: ["mine", self.v, extraneous],
    "other kwonly": lambda self, *, indent=0: ["mine", self.v, indent],
    "two kwonly": lambda self, *, indent=0, extraneous=None:
        ["mine", self.v, indent, extraneous],
    "other": lambda self, indent=0: ["mine", self.v, indent],
}
EXTRA = {"none": [], "positional": ["?"], "kwonly": ["?"],
         "other kwonly": [0], "two kwonly": [0, "?"], "other": [0]}
OWN = dict(
    ((base.__name__, m), type("%s_%s" % (base.__name__, m.replace(" ", "_")),
                              (base,), {"json_data": f}))
    for base in (Leaf, Plain) for m, f in METHODS.items())


class Holder(Record):
    one = Property()
    many = ListProperty(of=object)
    named = DictProperty(of=object)
    out = Property(json_out=lambda v: v.v)
    last = Property(isa=int)


class JHolder(JsonRecord):
    one = Property()
    many = JsonListProperty(of=object)
    named = JsonDictProperty(of=object)
    out = Property(json_out=lambda v: v.v)
    last = Property(isa=int)


def place(S, cls, x, what):
    """the value somewhere in a record, and how its JSON form lies there"""
    where = S.pick(["one", "many", "named", "list in slot", "dict in slot",
                    "top", "top list"], what)
    n = S.int("last", -BIG // 8, BIG // 8)
    if where == "one":
        return cls(one=x, last=n), lambda j: {"one": j, "last": n}
    if where == "many":
        return cls(many=[n, x], last=n), lambda j: {"many": [n, j], "last": n}
    if where == "named":
        return (cls(named={"k": x}, last=n),
                lambda j: {"named": {"k": j}, "last": n})
    if where == "list in slot":
        return cls(one=[x, n], last=n), lambda j: {"one": [j, n], "last": n}
    if where == "dict in slot":
        return (cls(one={"k": x}, last=n),
                lambda j: {"one": {"k": j}, "last": n})
    if where == "top":
        return [x], lambda j: [j]
    return list_of(object)([x, n]), lambda j: [j, n]


@harness(witness=["method"])
def own_methods(S):
    """an object's json_data method is used wherever the object is, and is
    told whether extraneous values are wanted if it has such an argument"""
    base = S.pick(["Leaf", "Plain"], "base")
    m = S.pick(sorted(METHODS), "method")
    own = OWN[base, m]
    v = S.int("v", -BIG // 8, BIG // 8)
    x = own(v=v) if base == "Leaf" else own(v)
    doc, want = place(S, S.pick([Holder, JHolder], "holder"), x, "where")
    ex = S.flag("extraneous")
    for again in range(2):
        o = S.outcome(lambda: to_json(doc, ex))
        S.check(o.ok, "raises " + o.kind())
        j = ["mine", v] + [ex if e == "?" else e for e in EXTRA[m]]
        S.check(S.same(o.value, want(j)), "another form")
    S.witness("method")


class KHolder(JsonRecord):
    unknown_json_keys = JsonProperty(json_name=None)
    last = Property(isa=int)


@harness(witness=["written", "left out"])
def own_methods_unknown(S):
    """also among the keys that belong to no property"""
    base = S.pick(["Leaf", "Plain"], "base")
    m = S.pick(sorted(METHODS), "method")
    own = OWN[base, m]
    v = S.int("v", -BIG // 8, BIG // 8)
    n = S.int("last", -BIG // 8, BIG // 8)
    x = own(v=v) if base == "Leaf" else own(v)
    cls = S.pick([JHolder, KHolder, AutoJsonRecord], "holder")
    inside = S.pick(["value", "list", "dict"], "inside")
    r = cls({"last": n, "zz": None})
    r.unknown_json_keys["zz"] = (
        x if inside == "value" else [n, x] if inside == "list" else {"k": x})
    ex = S.flag("extraneous")
    o = S.outcome(lambda: r.json_data(extraneous=ex))
    S.check(o.ok, "raises " + o.kind())
    if cls is JHolder and not ex:
        S.check(S.same(o.value, {"last": n}), "written")
        S.witness("left out")
        return
    j = ["mine", v] + [ex if e == "?" else e for e in EXTRA[m]]
    S.check(S.same(o.value, {"last": n, "zz": (
        j if inside == "value" else [n, j] if inside == "list" else
        {"k": j})}), "another form")
    S.witness("written")


class Oops(Exception):
    pass


def _raises(self):
    raise self.v


ERRORS = [AttributeError("a"), KeyError("k"), ValueError("v"), Oops("o"),
          TypeError("t")]


@harness(witness=["method", "function"])
def errors(S):
    """an error in a json_data method or a json_out function is not taken for
    a slot which is not set"""
    e = S.pick(ERRORS, "error")
    cls = S.pick([Holder, JHolder], "holder")
    ex = S.flag("extraneous")
    if S.flag("function"):
        n = S.int("n")
        if isinstance(e, AttributeError):
            # no attribute v
            doc = cls(out=n, last=n)
        else:
            x = Plain(0)
            x.__class__ = Failing
            x.e = e
            doc = cls(out=x, last=n)
        S.witness("function")
    else:
        base = S.pick(["Leaf", "Plain"], "base")
        own = RAISING[base]
        x = own(v=e) if base == "Leaf" else own(e)
        doc, _ = place(S, cls, x, "where")
        S.witness("method")
    o = S.outcome(lambda: to_json(doc, ex))
    S.check(not o.ok, "the error is swallowed")
    S.check(isinstance(o.exc, type(e)), "raises " + o.kind())


class Failing(Plain):
    @property
    def v(self):
        raise self.e

    @v.setter
    def v(self, value):
        pass


RAISING = dict((base.__name__, type("Raising" + base.__name__, (base,),
                                    {"json_data": _raises}))
               for base in (Leaf, Plain))


class Inner(Record):
    v = Property(isa=int)
    e = Property(isa=int, extraneous=True)


class Slots(Record):
    plain = Property()
    named = Property(json_name="N")
    out = Property(json_out=lambda x: ["out", x])
    typed = Property(isa=Inner, json_name="T")
    hidden = Property(json_name=None)
    unset = Property(json_name="U")


@harness(witness=["property", "slot", "unset"])
def one_slot(S):
    """the JSON form of one slot, asked of the property or of the record"""
    v, e = S.int("v", -BIG // 8, BIG // 8), S.int("e", -BIG // 8, BIG // 8)
    name = S.pick(["plain", "named", "out", "typed", "hidden", "unset"],
                  "slot")
    prop = Slots.properties[name]
    what = "record" if name == "typed" else S.pick(
        ["int", "list", "record"], "value")
    value = {"int": lambda: v, "list": lambda: [v, e],
             "record": lambda: Inner(v=v, e=e)}[what]()
    r = Slots()
    if name != "unset":
        setattr(r, name, value)
    ex = S.pick([None, True, False], "extraneous")

    def form(default):
        if name == "out":
            return None
        return ({"v": v, "e": e} if (default if ex is None else ex) else
                {"v": v}) if what == "record" else value
    args = () if ex is None else (ex,)
    if name != "plain" and S.flag("property"):
        # asked of the property: without extraneous values by default
        o = S.outcome(lambda: prop.to_json(value, *args))
        S.check(o.ok, "property: " + o.kind())
        want = form(False)
        S.witness("property")
    else:
        o = S.outcome(lambda: to_json(r, *args, prop=S.pick(
            [name, prop], "prop")))
        if name == "unset":
            S.check(o.raised(AttributeError), "unset: " + o.kind())
            S.witness("unset")
            return
        S.check(o.ok, "slot: " + o.kind())
        want = form(True)
        S.witness("slot")
    if name == "out":
        S.check(type(o.value) is list and len(o.value) == 2 and
                o.value[0] == "out" and
                (o.value[1] is value or S.eq(o.value[1], value)),
                "json_out is not used")
    else:
        S.check(S.same(o.value, want), "another form")
