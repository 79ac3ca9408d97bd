"""Pickling and copying of records and collections in every state."""
from sx.api import harness, MISSING
from checks import menu
import copy
import normalize
from normalize import Record, Property, ListProperty, DictProperty, \
    JsonRecord, RecordList
from normalize.coll import list_of, dict_of, ListCollection, DictCollection
from normalize.property import LazyProperty, ROProperty, SafeProperty, \
    LazySafeProperty
from normalize.property.types import IntProperty
from normalize.record.json import JsonRecordList, JsonRecordDict
from normalize.property.json import JsonListProperty
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("nesting deeper than 2, collections with more than 2 items, "
           "classes that are not importable by name, records in reference "
           "cycles")


class Flat(Record):
    i = Property(isa=int)
    s = Property(isa=str)
    any = Property()
    ex = Property(isa=int, extraneous=True)


class Req(Record):
    r = Property(isa=int, required=True)
    d = Property(isa=int, default=3)
    fn = Property(default=lambda: [1])
    ro = ROProperty(isa=int)
    v1 = Property(isa=int, v1_none=None)


CALLS = [0]


def calc():
    CALLS[0] += 1
    return 7


class Lazy(Record):
    l = LazyProperty(default=calc)
    ls = LazySafeProperty(isa=int, default=calc)
    o = Property(isa=int)


class One(Record):
    x = Property(isa=int)


class Nest(Record):
    one = Property(isa=One)
    two = ROProperty(isa=One)
    n = Property(isa=int)


class Lists(Record):
    items = ListProperty(of=One)
    nums = ListProperty(of=int)


class Dicts(Record):
    items = DictProperty(of=One)
    roitems = DictProperty(of=int, traits=["ro"])


class Named(ListCollection):
    title = Property(isa=str)


class NamedDict(DictCollection):
    title = Property(isa=str)
    one = Property(isa=One)
    tag = Property(isa=int, required=True)


class WithNamed(Record):
    items = ListProperty(of=One, coll=Named)
    entries = DictProperty(of=int, coll=NamedDict)


class Plain(Record):
    data = Property()


class J(JsonRecord):
    i = Property(isa=int, json_name="I")
    one = Property(isa=One)
    items = JsonListProperty(of=One, json_name="Items")


class Pk(Record):
    id = Property(isa=int)
    z = Property(extraneous=True)
    primary_key = [id]


class MyList(RecordList):
    itemtype = One


class MyNamed(RecordList):
    itemtype = One
    title = Property(isa=str)
    pair = Property(isa=One)


class MyDict(DictCollection):
    itemtype = One
    title = Property(isa=str)


class JList(JsonRecordList):
    itemtype = One


class JDict(JsonRecordDict):
    itemtype = One


class Sub(Flat):
    more = Property(isa=One)


def i(S):
    return S.int("i")


def s(S):
    return S.str("s", 1)


def one(S):
    return One(x=S.int("x")) if S.flag("x") else One()


def ones(S):
    return [one(S) for _ in range(S.choice(S.p["nitems"] + 1, "len"))]


def ints(S):
    return [i(S) for _ in range(S.choice(S.p["nitems"] + 1, "len"))]


def onedict(S):
    return dict((k, one(S)) for k in S.pick(
        [(), ("a",), ("b", "a")], "keys"))


def intdict(S):
    return dict((k, i(S)) for k in S.pick([(), ("a",), ("b", "a")], "keys"))


def data(S):
    k = S.choice(4, "data")
    if k == 0:
        return [one(S), {"k": [i(S)]}]
    if k == 1:
        x = one(S)
        return [x, x]
    if k == 2:
        return (one(S), None)
    return None


def named(S):
    c = WithNamed.properties["items"].valuetype(ones(S))
    if S.flag("title"):
        c.title = s(S)
    return c


def nameddict(S):
    c = WithNamed.properties["entries"].valuetype(intdict(S), tag=4)
    if S.flag("title"):
        c.title = s(S)
    if S.flag("one"):
        c.one = one(S)
    return c


SLOTS = {
    Flat: dict(i=i, s=s, any=one, ex=i),
    Sub: dict(i=i, s=s, more=one),
    Lazy: dict(l=i, ls=i, o=i),
    Req: dict(d=i, fn=i, ro=i, v1=i),
    Nest: dict(one=one, two=one, n=i),
    Lists: dict(items=ones, nums=ints),
    Dicts: dict(items=onedict, roitems=intdict),
    WithNamed: dict(items=named, entries=nameddict),
    Plain: dict(data=data),
    J: dict(i=i, one=one, items=ones),
    Pk: dict(id=i, z=i),
    One: dict(x=i),
}
COLLS = {
    MyList: (ones, {}), MyNamed: (ones, dict(title=s, pair=one)),
    MyDict: (onedict, dict(title=s)), JList: (ones, {}),
    JDict: (onedict, {}), list_of(One): (ones, {}),
    dict_of(One): (onedict, {}), list_of(int): (ints, {}),
}
ALL = sorted(list(SLOTS) + list(COLLS), key=lambda c: c.__name__)
HOWS = ["copy", "deepcopy"] + list(range(6))


def build(S, cls):
    if cls in COLLS:
        make, slots = COLLS[cls]
        r = cls(make(S))
    else:
        slots = SLOTS[cls]
        kw = {}
        if cls is Req:
            kw["r"] = i(S)
        for n in sorted(slots):
            if S.flag("set." + n):
                kw[n] = slots[n](S)
        r = cls(**kw)
        if cls is J and S.flag("unknown"):
            r = J({"I": i(S), "zz": [i(S)]})
        if cls is Lazy and S.flag("read"):
            r.l, r.ls
        if cls is Req and S.flag("deleted"):
            del r.d
        return r
    for n in sorted(slots):
        if S.flag("set." + n):
            setattr(r, n, slots[n](S))
    return r


def state(S, x, seen=None):
    """class, set slots and their state, contents; lazy slots not computed"""
    t = S.type(x)
    if isinstance(x, Record):
        r = [t.__name__, sorted(k for k in t.properties if k in x.__dict__)]
        r.append([state(S, x.__dict__[k]) for k in r[1]])
        if isinstance(x, DictCollection):
            r.append([(k, state(S, x[k])) for k in x.keys()])
        elif isinstance(x, ListCollection):
            r.append([state(S, v) for v in x])
        if isinstance(x, JsonRecord):
            r.append(state(S, S.get(x, "unknown_json_keys")))
        return r
    if t is list:
        return [state(S, v) for v in x]
    if t is tuple:
        return tuple(state(S, v) for v in x)
    if t is dict:
        return dict((k, state(S, v)) for k, v in x.items())
    return x


def parts(x):
    """every mutable object reachable"""
    r = []
    if isinstance(x, Record):
        r.append(x)
        for v in x.__dict__.values():
            r.extend(parts(v))
    elif type(x) in (list, tuple):
        if type(x) is list:
            r.append(x)
        for v in x:
            r.extend(parts(v))
    elif type(x) is dict:
        r.append(x)
        for v in x.values():
            r.extend(parts(v))
    return r


def dup(S, x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    return S.pickle(x, how)


@harness(nitems=(2, 3), witness=["copy", "deep", "pickled"])
def copies(S):
    cls = S.pick(ALL, "class")
    r = build(S, cls)
    how = S.pick(HOWS, "how")
    name = "%s/%s" % (cls.__name__, how)
    before = state(S, r)
    CALLS[0] = 0
    o = S.outcome(lambda: dup(S, r, how))
    S.check(o.ok, name + ": raises " + o.kind())
    c = o.value
    S.check(CALLS[0] == 0, name + ": lazy default computed")
    S.check(S.eq(state(S, r), before), name + ": original changed")
    S.check(S.type(c) is cls, name + ": class")
    S.check(c is not r, name + ": same object")
    S.check(S.eq(state(S, c), before), name + ": slots")
    S.check(bool(c == r) and not (c != r), name + ": equal")
    if how == "copy":
        S.witness("copy")
        # contents are shared, the record or collection itself is not
        for n in r.__dict__:
            if n in cls.properties:
                S.check(c.__dict__[n] is r.__dict__[n], name + ": " + n)
    else:
        mine = parts(r)
        for x in parts(c):
            for y in mine:
                S.check(x is not y,
                        name + ": shares a " + type(x).__name__)
        S.check(len(parts(c)) == len(mine), name + ": parts")
        S.witness("deep" if how == "deepcopy" else "pickled")


def change(S, x, cls):
    """change a record or collection through its public interface; returns
    whether something was changed"""
    if isinstance(x, DictCollection):
        x["zz"] = One(x=5) if cls.itemtype is One else 5
        return True
    if isinstance(x, ListCollection):
        x.append(One(x=5) if cls.itemtype is One else 5)
        return True
    for n in sorted(cls.properties):
        p = cls.properties[n]
        if isinstance(p, ROProperty) or "ro" in getattr(p, "traits", ()):
            continue
        if p.valuetype is int:
            setattr(x, n, 12345)
            return True
        if n == "data":
            x.data = 5
            return True
    return False


@harness(nitems=(1, 2), witness=["changed", "inner"])
def independent(S):
    """changing the copy, or what is inside a deep one, never shows in the
    original, nor the other way round"""
    cls = S.pick(ALL, "class")
    r = build(S, cls)
    how = S.pick(["copy", "deepcopy", 0, 2, 4], "how")
    name = "%s/%s" % (cls.__name__, how)
    c = dup(S, r, how)
    if S.flag("swap"):
        r, c = c, r
    before = state(S, r)
    if change(S, c, cls):
        S.witness("changed")
    if how != "copy":
        for x in parts(c):
            if x is c or not isinstance(x, Record):
                continue
            change(S, x, type(x))
            S.witness("inner")
    S.check(S.eq(state(S, r), before), name + ": change shows in the other")


@harness(witness=["ro", "type", "unknown", "required"])
def working(S):
    """properties of copies keep their protection"""
    how = S.pick(HOWS, "how")
    k = S.choice(4, "what")
    v = S.int("v", -1000, 1000)
    if k == 0:
        c = dup(S, Req(r=1, ro=v), how)
        o = S.outcome(lambda: setattr(c, "ro", v))
        S.check(o.raised(exc.ReadOnlyAttributeError), "read-only: set")
        o = S.outcome(lambda: delattr(c, "ro"))
        S.check(o.raised(AttributeError), "read-only: delete")
        S.check(c.ro == v, "read-only: value")
        S.witness("ro")
    elif k == 1:
        c = dup(S, Lists(items=[One(x=v)], nums=[v]), how)
        o = S.outcome(lambda: c.items.append("bad"))
        S.check(not o.ok, "list: accepts anything")
        o = S.outcome(lambda: setattr(c.items[0], "x", "bad"))
        S.check(o.raised(exc.CoerceError, ValueError), "item: any value")
        o = S.outcome(lambda: c.items.append({"x": v}))
        S.check(o.ok and c.items[1] == One(x=v), "list: no coercion")
        S.witness("type")
    elif k == 2:
        c = dup(S, J({"I": v, "q": [v]}), how)
        S.check(S.eq(c.json_data(True), {"I": v, "q": [v]}), "json_data")
        S.witness("unknown")
    else:
        c = dup(S, Req(r=v), how)
        o = S.outcome(lambda: delattr(c, "r"))
        S.check(not o.ok, "required slot deleted")
        S.check(c.v1 is None and c.d == 3, "defaults")
        c.d = "17"
        S.check(c.d == 17, "coercion")
        S.witness("required")


@harness(witness=["equal", "different", "hash"])
def twins(S):
    """a copy and its original compare alike with any other object"""
    cls = S.pick([Flat, Sub, Req, Nest, Pk, J, Lists, Dicts, MyNamed, JDict],
                 "class")
    v, w = S.int("v"), S.int("w")

    def make(x, y, z):
        if cls is Req:
            return cls(r=x, fn=0, d=y) if z else cls(r=x, fn=0, v1=y)
        if cls is Pk:
            return cls(id=x, z=y) if z else cls(id=x)
        if cls in (Flat, Sub):
            return cls(i=x, any=y, ex=y) if z else cls(i=x)
        if cls is Nest:
            return cls(one=One(x=x), two=One(x=y)) if z else \
                cls(one=One(x=x), n=y)
        if cls is Lists:
            return cls(items=[One(x=x), One(x=y)], nums=[x] if z else [])
        if cls is Dicts:
            return cls(items={"a": One(x=x)}, roitems={"k": y} if z else {})
        if cls is MyNamed:
            r = cls([One(x=x), One(x=y)])
            if z:
                r.title = "t"
            return r
        if cls is JDict:
            return cls({"a": One(x=x)} if z else
                       {"a": One(x=x), "b": One(x=y)})
        return cls({"I": x, "q": [y]}) if z else cls({"I": x})
    z = S.flag("form")
    r = make(v, w, z)
    other = make(S.int("v"), S.int("w"), z if S.flag("alike") else not z)
    how = S.pick(HOWS, "how")
    c = dup(S, r, how)
    same = bool(r == other)
    S.check(bool(c == other) == same and bool(other == c) == same,
            "%s/%s: compares unlike its original" % (cls.__name__, how))
    S.check(bool(c != other) == (not same), "!=")
    S.witness("equal" if same else "different")
    if cls is not Lists and cls is not J:
        S.check(S.hash(c) == S.hash(r), "hash differs")
        S.witness("hash")


@harness(size=(2, 3), nops=(1, 2), witness=["list", "dict"])
def diverge(S):
    """a copied collection and its original go separate ways: any history of
    changes (any index, any key) of one of them, against a model of each"""
    how = S.pick(["copy", "deepcopy", 0, 2, 4], "how")
    n = S.choice(S.p["size"] + 1, "n")
    if S.flag("dict"):
        keys = [S.str("key", 1, 0, "abc") for _ in range(n)]
        a = dict_of(int)()
        model = []
        for k in keys:
            v = S.int("v")
            a[k] = v
            model = [m for m in model if not m[0] == k] + [(k, v)]
        b = dup(S, a, how)
        models = [model, list(model)]
        for _ in range(S.p["nops"]):
            who = S.choice(2, "who")
            x, m = (a, b)[who], models[who]
            k = S.str("k", 1, 0, "abc")
            rest = [p for p in m if not p[0] == k]
            if S.flag("set"):
                v = S.int("new")
                x[k] = v
                rest = rest + [(k, v)]
            else:
                o = S.outcome(lambda: x.pop(k))
                S.check(o.ok == (len(rest) < len(m)), "pop: " + o.kind())
            models[who] = rest
        for x, m in ((a, models[0]), (b, models[1])):
            S.check(len(x) == len(m), "%s: size" % how)
            for k, v in m:
                o = S.outcome(lambda: x[k])
                S.check(o.ok and o.value == v, "%s: item" % how)
        S.witness("dict")
        return
    xs = [S.int("x") for _ in range(n)]
    a = list_of(int)(xs)
    b = dup(S, a, how)
    models = [xs, list(xs)]
    for _ in range(S.p["nops"]):
        who = S.choice(2, "who")
        x, m = (a, b)[who], models[who]
        i, v = S.int("i", -6, 6), S.int("new")
        k = S.choice(4, "op")
        if k == 0:
            x.insert(i, v)
            m.insert(i, v)
        elif k == 1:
            o = S.outcome(lambda: x.pop(i))
            S.check(o.ok == (-len(m) <= i < len(m)), "pop: " + o.kind())
            if o.ok:
                S.check(o.value == m.pop(i), "popped")
        elif k == 2:
            o = S.outcome(lambda: x.__setitem__(i, v))
            S.check(o.ok == (-len(m) <= i < len(m)), "set: " + o.kind())
            if o.ok:
                m[i] = v
        else:
            x.extend([v, i])
            m.extend([v, i])
    for x, m in ((a, models[0]), (b, models[1])):
        S.check(len(x) == len(m), "%s: length" % how)
        for y, v in zip(x, m):
            S.check(y == v, "%s: item" % how)
    S.witness("list")


@harness(witness=["unset", "set"])
def kinds(S):
    """a property of any kind, set or not"""
    f = menu.Field(S)
    r, a, x = f.build(S)
    how = S.pick(HOWS if S.tier != "quick" else ["copy", "deepcopy", 0, 2, 5],
                 "how")
    name = "%s/%s" % (f.name, how)
    before = state(S, r)
    menu.CALLS[0] = 0
    o = S.outcome(lambda: dup(S, r, how))
    S.check(o.ok, name + ": raises " + o.kind())
    c = o.value
    S.check(S.type(c) is f.cls and c is not r, name + ": class")
    S.check(menu.CALLS[0] == 0, name + ": default called")
    S.check(S.eq(state(S, r), before), name + ": original changed")
    S.check(S.eq(state(S, c), before), name + ": slots")
    S.check(c.a == a and ("x" in c.__dict__) == (x is not MISSING),
            name + ": slot set")
    S.check(bool(c == r) and not (c != r), name + ": equal")
    c.a = a + 1
    S.check(r.a == a, name + ": shared")
    S.check(bool(c != r), name + ": different")
    S.witness("unset" if x is MISSING else "set")


MODULES = ["m", "m_1", "p.m", "p.q.m", "p.q.r.m", "p.builtins", "p__q__.m",
           "m.__main__"]


@harness(witness=["end"])
def packages(S):
    """wherever the type of the items is defined"""
    import sys
    import types
    mod = S.pick(MODULES, "module")
    cname = S.pick(["Thing", "int", "Thing_2"], "class name")
    made = []
    try:
        parts_ = mod.split(".")
        for n in range(1, len(parts_) + 1):
            full = "vp08_" + ".".join(parts_[:n])
            if full not in sys.modules:
                sys.modules[full] = types.ModuleType(full)
                made.append(full)
        # a distinct class per path
        cls = type(cname, (Record,), {"x": Property(isa=int),
                                      "__module__": full})
        setattr(sys.modules[full], cname, cls)
        gen = S.pick([list_of, dict_of], "of")(cls)
        S.check(gen.itemtype is cls, "item type")
        v = S.int("v")
        c = gen([cls(x=v)]) if gen.suffix == "List" else gen({"k": cls(x=v)})
        how = S.pick(HOWS, "how")
        o = S.outcome(lambda: dup(S, c, how))
        S.check(o.ok, "%s of a list of %s.%s: %s" % (how, mod, cname,
                                                    o.kind()))
        S.check(S.type(o.value) is gen, "class of the copy")
        S.check(bool(o.value == c), "copy differs")
        S.check(S.eq(state(S, o.value), state(S, c)), "contents")
    finally:
        from normalize.coll import GENERIC_TYPES
        for k in [k for k in GENERIC_TYPES
                  if GENERIC_TYPES[k].itemtype.__module__ in made]:
            del GENERIC_TYPES[k]
        for n in made:
            del sys.modules[n]
    S.witness("end")
