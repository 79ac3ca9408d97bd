"""Visitors: every slot is visited once, and casting takes it back."""
from sx.api import harness, MISSING
import normalize.exc as exc
from normalize import Property, Record
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.selector import MultiFieldSelector
from normalize.visitor import Visitor, VisitorPattern
from checks.difflib_ref import Opt, keyed
from checks.menu import Field

OUTSIDE = ("collections of more than two items (three in the thorough tier), "
           "structures deeper than four levels, filters of more than two "
           "paths, casting slots of several record types or of records and "
           "other types (documented to need a custom grok), slots of several "
           "record types that a value is of, and of which nothing is left in "
           "the result (the next type is tried), values that are "
           "no records in such slots with apply_empty_slots, filters with "
           "wildcards on collections with properties of their own, reflecting "
           "with filters of single items or on types that contain themselves")


class Item(Record):
    s = Property()
    t = Property()
    e = Property(extraneous=True)


class Sub(Record):
    p = Property()
    item = Property(isa=Item)


class Titled(ListCollection):
    itemtype = Item
    title = Property()
    x = Property(extraneous=True)


class Named(DictCollection):
    itemtype = int
    name = Property()


class Other(Record):
    s = Property()
    z = Property()


class SubItem(Item):
    more = Property()


class SubSub(SubItem):
    deep = Property()


class Rec(Record):
    a = Property()
    b = Property(isa=int)
    x = Property(extraneous=True)
    item = Property(isa=Item)
    sub = Property(isa=Sub)
    words = ListProperty(of=int)
    numbers = DictProperty(of=int)
    items = ListProperty(of=Item)
    map = DictProperty(of=Item)
    titled = Property(isa=Titled)
    named = Property(isa=Named)
    rows = ListProperty(of=list_of(int))
    union = Property(isa=(Other, SubItem, Item, str))
    lazy = Property(lazy=True, default=5)


NAMES = ["a", "b", "x", "item", "sub", "words", "numbers", "items", "map",
         "titled", "named", "rows", "union"]


def item(S, label):
    kind = S.choice(4, label + ".kind")
    kw = [{"s": 1, "t": 2}, {"s": 1}, {}, {"s": 1, "e": 1}][kind]
    return Item(**dict((k, S.int(label + "." + k)) for k in kw))


def ints(S, label, n):
    return [S.int(label) for _ in range(S.choice(n + 1, label + ".n"))]


def simple_items(S, label, n):
    return [Item(s=S.int(label), t=S.int(label + ".t"))
            for _ in range(S.choice(n + 1, label + ".n"))]


def content(S, name, n):
    label = name
    if name in ("a", "b", "x"):
        return S.int(label)
    if name == "item":
        if S.flag("sub"):
            return SubItem(t=S.int("t"), more=S.int("more"))
        return item(S, label)
    if name == "sub":
        kw = {"p": S.int(label)} if S.flag("p") else {}
        if S.flag("sub.item"):
            kw["item"] = item(S, label)
        return Sub(**kw)
    if name == "words":
        return ints(S, label, n)
    if name == "numbers":
        return dict(zip(["values", "l", "m"], ints(S, label, n)))
    if name == "items":
        return simple_items(S, label, n)
    if name == "map":
        return dict(zip("klm", simple_items(S, label, n)))
    if name == "titled":
        kw = [{}, {"title": S.int("title")},
              {"title": S.int("title"), "x": S.int("x")}][S.choice(3, "own")]
        return Titled(simple_items(S, label, n), **kw)
    if name == "named":
        kw = {"name": S.int("name")} if S.flag("own") else {}
        return Named(dict(zip("klm", ints(S, label, n))), **kw)
    if name == "rows":
        return [ints(S, label, 2) for _ in range(S.choice(3, "rows.n"))]
    k = S.choice(4, "kind")
    if k == 0:
        return S.str("text", 2, 0, u"xy")
    if k == 1:
        if S.flag("subsub"):
            return SubSub(s=S.int("s", 0, 5), more=S.int("more", 0, 5),
                          deep=S.int("d"))
        return SubItem(s=S.int("s", 0, 5), more=S.int("more", 0, 5))
    return item(S, label) if k == 2 else Other(s=S.int("s"), z=S.int("z"))


def declared(v, types):
    """the type a record is visited as"""
    for t in types if isinstance(types, tuple) else (types,):
        if t is not None and isinstance(v, t):
            return t
    return type(v)


def record(S, names, n):
    return Rec(**dict((name, content(S, name, n)) for name in names))


class Options(object):
    def __init__(self, paths=None, extraneous=False, apply_empty_slots=False,
                 ignore_none=True, ignore_empty_string=False):
        self.paths = paths
        self.extraneous = extraneous
        self.apply_empty_slots = apply_empty_slots
        self.ignore_none = ignore_none
        self.ignore_empty_string = ignore_empty_string

    def kwargs(self):
        kw = dict((k, v) for k, v in self.__dict__.items() if k != "paths")
        if self.paths:
            kw["filter"] = [list(p) for p in self.paths]
        return kw

    def visited(self, prop, at):
        if prop.extraneous and not self.extraneous:
            return False
        return Opt(paths=self.paths).selected(at + (prop.name,))

    def kept(self, x):
        if x is None and self.ignore_none:
            return False
        if isinstance(x, str) and len(x) == 0 and self.ignore_empty_string:
            return False
        return True


class Expected(object):
    """what a visit should call, and return"""
    def __init__(self, o, convert):
        self.o = o
        self.convert = convert
        self.log = []

    def leaf(self, v, at, prop):
        self.log.append((at, v, prop))
        return self.convert(v)

    def visit(self, v, type_, at):
        props = {}
        for name in type_.properties:
            prop = type_.properties[name]
            if not self.o.visited(prop, at):
                continue
            try:
                x = getattr(v, name)
            except AttributeError:
                if not self.o.apply_empty_slots:
                    continue
                x = self.leaf(MISSING, at + (name,), name)
            else:
                if isinstance(x, Record):
                    x = self.visit(x, declared(x, prop.valuetype), at + (name,))
                else:
                    x = self.leaf(x, at + (name,), name)
            if self.o.kept(x):
                props[name] = x
        if not issubclass(type_, DictCollection) and \
                not issubclass(type_, ListCollection):
            return props
        out = []
        for k, x in keyed(v):
            if isinstance(x, Record):
                x = self.visit(x, type_.itemtype, at + (k,))
            elif Opt(paths=self.o.paths).selected(at + (k,)):
                x = self.leaf(x, at + (k,), None)
            else:
                continue
            if self.o.kept(x):
                out.append((k, x))
        if issubclass(type_, DictCollection):
            out = dict(out)
        else:
            out = [x for k, x in out]
        if any(self.o.visited(p, at) for p in type_.properties.values()):
            props["values"] = out
            return props
        return out


def plus_one(v):
    """a conversion with all kinds of results"""
    if v is MISSING:
        return "unset"
    if isinstance(v, str):
        return v
    if v == 7:
        return None
    if v == 8:
        return ""
    return v + 1


def visitor(convert, log):
    class Logging(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            at = tuple(visitor.field_selector.selectors)
            if isinstance(value, (AttributeError, KeyError)):
                value = MISSING
            log.append((at, value, prop.name if prop else None))
            return convert(value)

        @classmethod
        def reverse(cls, value, prop, visitor):
            return cls.apply(value, prop, visitor)
    return Logging


def in_order(log):
    return sorted(log, key=lambda x: repr(x[0]))


def same_log(S, found, expected):
    S.check([x[0] for x in in_order(found)] ==
            [x[0] for x in in_order(expected)],
            "visited %s, not %s" % ([x[0] for x in in_order(found)],
                                    [x[0] for x in in_order(expected)]))
    for x, y in zip(in_order(found), in_order(expected)):
        S.check(x[2] == y[2], "%r is visited as %r" % (x[0], x[2]))
        S.check(S.same(x[1], y[1]) or x[1] == y[1],
                "the value visited at %r" % (x[0],))


def verify(S, rec, o, convert=plus_one):
    log = []
    before = S.snap(rec)
    found = visitor(convert, log).visit(rec, **o.kwargs())
    S.check(S.eq(S.snap(rec), before), "the record is modified")
    ref = Expected(o, convert)
    expected = ref.visit(rec, type(rec), ())
    same_log(S, log, ref.log)
    S.check(S.eq(found, expected), "result")
    return found


@harness(n=(2, 3), witness=["end"])
def one_slot(S):
    """a record with one slot set, all options"""
    o = Options(extraneous=S.flag("extraneous"),
                apply_empty_slots=S.flag("apply_empty_slots"))
    name = S.pick(NAMES + [None], "slot")
    if name == "union":
        S.assume(not o.apply_empty_slots)
    verify(S, record(S, [name] if name else [], S.p["n"]), o)
    S.witness("end")


@harness(n=(1, 2), witness=["end"])
def two_slots(S):
    """any two slots"""
    i = S.choice(len(NAMES), "one")
    j = S.choice(len(NAMES), "two")
    S.assume(i < j)
    o = Options()
    rec = record(S, [NAMES[i], NAMES[j]], S.p["n"]) if S.tier != "quick" \
        else Rec(**dict((x, content(S, x, 1) if x not in (
            "items", "sub", "item", "union", "rows", "map", "titled")
            else {"items": [Item(s=S.int(x))], "item": Item(t=S.int(x)),
                  "sub": Sub(item=Item(s=S.int(x))), "union": Item(),
                  "rows": [[S.int(x)]], "map": {"k": Item()},
                  "titled": Titled([Item()], title=S.int(x))}[x])
            for x in (NAMES[i], NAMES[j])))
    verify(S, rec, o, lambda v: v)
    S.witness("end")


@harness(witness=["none", "empty", "kept"])
def results(S):
    """results that are None or empty are left out as asked"""
    o = Options(ignore_none=S.flag("none"), ignore_empty_string=S.flag("es"),
                apply_empty_slots=S.flag("empty"))

    def convert(v):
        if v is MISSING:
            return None
        if v is not None and not isinstance(v, str) and v > 10:
            return [None, "", 0][v % 3]
        return v
    where = S.pick(["slot", "items", "map", "item", "list"], "where")
    vals = [S.pick([None, "", S.int("n", 0, 99)], "v")
            for _ in range(S.choice(2, "two") + 1)]
    if where == "slot":
        rec = Rec(a=vals[0], item=Item(t=vals[-1]))
    elif where == "items":
        rec = Rec(items=[Item(s=v) for v in vals])
    elif where == "map":
        rec = Rec(map=dict((k, Item(s=v)) for k, v in zip("kl", vals)))
    elif where == "item":
        rec = list_of(object)(vals)
    else:
        rec = dict_of(object)(dict(zip("kl", vals)))
    verify(S, rec, o, convert)
    for v in vals:
        S.witness("none" if v is None else
                  "kept" if not isinstance(v, str) else "empty")


PATHS = [("a",), ("x",), ("nope",), ("item",), ("item", "s"), ("item", "e"),
         ("sub",), ("sub", "p"), ("sub", "item", "t"), ("words",),
         ("words", 0), ("words", 1), ("words", None), ("numbers", "l"),
         ("items",), ("items", None), ("items", None, "s"), ("items", 0),
         ("items", 1, "t"), ("map", "k"), ("map", None, "t"), ("titled",),
         ("titled", "title"), ("titled", 0, "s"), ("named", "k"),
         ("named", "name"), ("rows", 0), ("rows", None, 1), ("rows", 1, 0),
         ("union", "s"), ("lazy",)]


@harness(n=(2, 3), witness=["something", "nothing"])
def filtered(S):
    """only what is selected is visited"""
    path = S.pick(PATHS, "path")
    names = [path[0]] if path[0] not in ("nope", "lazy") else []
    rec = record(S, names, S.p["n"])
    others = dict(a=1, item=Item(s=2), words=[3], items=[Item(s=1)],
                  map={"k": Item(t=4)}, union="y")
    for k in others:
        if k not in names:
            setattr(rec, k, others[k])
    o = Options(paths=[path], extraneous=S.flag("extraneous"))
    found = verify(S, rec, o, lambda v: v)
    S.witness("something" if found else "nothing")


@harness(witness=["end"])
def filters(S):
    """several paths, in several forms"""
    paths = S.pick([
        [("a",), ("item", "s")], [("items", None, "s"), ("items", None, "t")],
        [("items", 0, "s"), ("items", 1, "t")],
        [("words", 1), ("sub", "p")], [("titled", "title"), ("titled", 0)],
        [("map", "k", "s"), ("map", "l", "t")], [("rows", 0), ("rows", 1, 1)],
    ], "paths")
    names = sorted(set(p[0] for p in paths))
    rec = record(S, names, 2)
    o = Options(paths=paths)
    found = verify(S, rec, o, lambda v: v)
    lists = [list(p) for p in paths]
    for kw in ({"visit_filter": lists}, {"filter": MultiFieldSelector(*lists)},
               {"visit_filter": MultiFieldSelector(*lists)},
               {"filter": tuple(reversed(paths))}):
        S.check(S.eq(VisitorPattern.visit(rec, **kw), found), "forms")
    S.check(S.eq(VisitorPattern.visit(rec, filter=None),
                 VisitorPattern.visit(rec)), "no filter")
    S.witness("end")


def compare_all(S, a, b):
    """are these the same in all details"""
    S.check(S.type(a) is S.type(b), "type")
    if isinstance(a, Record):
        for name in sorted(type(a).properties):
            if name == "lazy":
                continue
            x, y = S.get(a, name), S.get(b, name)
            if x is MISSING or y is MISSING:
                S.check(x is y, name + " is set")
            else:
                compare_all(S, x, y)
        if not isinstance(a, (ListCollection, DictCollection)):
            return
        xs, ys = dict(keyed(a)), dict(keyed(b))
        S.check(list(xs) == list(ys) or
                isinstance(a, DictCollection) and set(xs) == set(ys), "keys")
        for k in xs:
            if k in ys:
                compare_all(S, xs[k], ys[k])
    else:
        S.check(a == b, "value")


@harness(n=(2, 3), witness=["end"])
def round_trip(S):
    """casting what a visit returns gives an equal record"""
    name = S.pick([x for x in NAMES if x != "union"] + [None], "slot")
    rec = record(S, [name] if name else [], S.p["n"])
    S.assume(S.type(S.get(rec, "item")) is not SubItem)
    S.check(VisitorPattern.cast(Rec, VisitorPattern.visit(rec)) == rec,
            "not equal")
    kw = dict(extraneous=True, ignore_none=S.flag("none"))
    if S.flag("empty"):
        kw["ignore_empty_string"] = True
    log = []
    V = visitor(lambda v: v, log)
    visited = V.visit(rec, **kw)
    seen = list(log)
    del log[:]
    before = S.snap(visited)
    back = V.cast(Rec, visited, **kw)
    S.check(S.eq(S.snap(visited), before), "the structure is modified")
    same_log(S, log, seen)
    compare_all(S, back, rec)
    S.check(S.eq(V.visit(back, **kw), visited), "again")
    S.witness("end")


@harness(witness=["end"])
def conversions(S):
    """conversions and their inverses"""
    class Shift(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            return value + (10 if prop is None else len(prop.name))

        @classmethod
        def reverse(cls, value, prop, visitor):
            return value - (10 if prop is None else len(prop.name))
    name = S.pick([x for x in NAMES if x != "union"], "slot")
    rec = record(S, [name], 2)
    S.assume(S.type(S.get(rec, "item")) is not SubItem)
    there = Shift.visit(rec, extraneous=True)
    compare_all(S, Shift.cast(Rec, there, extraneous=True), rec)
    S.witness("end")


@harness(witness=["record", "collection"])
def by_type(S):
    """visits of collections, and of plain structures as a given type"""
    which = S.choice(6, "which")
    n, m = S.int("n"), S.int("m")
    V = VisitorPattern
    if which == 0:
        S.check(S.eq(V.visit({"s": n, "nope": m}, Item), {"s": n}), "dict")
        S.check(S.eq(V.visit({"item": {"t": n}, "p": m}, Sub),
                     {"item": {"t": n}, "p": m}), "dicts")
    elif which == 1:
        S.check(S.eq(V.visit([n, m], list_of(int)), [n, m]), "list")
        S.check(S.eq(V.visit([{"s": n}, Item(t=m)], list_of(Item)),
                     [{"s": n}, {"t": m}]), "list of dicts")
    elif which == 2:
        S.check(S.eq(V.visit({"k": n}, dict_of(int)), {"k": n}), "dict")
        S.check(S.eq(V.visit({"k": {"s": n}}, dict_of(Item)),
                     {"k": {"s": n}}), "dict of dicts")
    elif which == 3:
        c = list_of(Item)([Item(s=n), Item(t=m)])
        S.check(S.eq(V.visit(c), [{"s": n}, {"t": m}]), "list")
        S.check(V.cast(type(c), V.visit(c)) == c, "round trip")
        verify(S, c, Options(paths=[S.pick([(0,), (None, "s"), (1, "t")],
                                           "path")]))
    elif which == 4:
        c = Titled([Item(s=n)], title=m)
        S.check(S.eq(V.visit(c), {"title": m, "values": [{"s": n}]}), "own")
        S.check(V.cast(Titled, V.visit(c)) == c, "round trip")
        verify(S, c, Options(paths=[S.pick([(0,), ("title",), (0, "s")],
                                           "path")]))
    else:
        c = dict_of(int)({"k": n, "l": m})
        S.check(S.eq(V.visit(c), {"k": n, "l": m}), "dict")
        S.check(V.cast(type(c), V.visit(c)) == c, "round trip")
        S.check(S.eq(V.visit(c, Named), {"values": {"k": n, "l": m}}),
                "as another type")
        S.check(V.cast(Named, {"k": n, "l": m}) == Named({"k": n, "l": m}),
                "without own properties")
        verify(S, c, Options(paths=[S.pick([("k",), (None,), ("z",)],
                                           "path")]))
    S.witness("record" if which == 0 else "collection")


@harness(witness=["end"])
def cast_list_from_dict(S):
    """the values of a dict can be cast to a list"""
    log = []
    n, m, o = S.int("n"), S.int("m"), S.int("o")
    V = visitor(lambda v: v, log)
    c = V.cast(list_of(int), {"b": m, "a": n, "c": o})
    S.check([c[0], c[1], c[2]] == [n, m, o], "by the order of keys")
    S.check([x[0] for x in log] == [(0,), (1,), (2,)], "locations")
    del log[:]
    r = V.cast(Rec, {"items": {"b": {"s": m}, "a": {"t": n}}},
               filter=[["items", 1, "s"]])
    S.check([x[0] for x in log] == [("items", 1, "s")], "filtered")
    S.check(r.items[1].s == m, "filtered")
    S.witness("end")


@harness(witness=["end"])
def cast_filtered(S):
    """filters apply to casts, too"""
    path = S.pick([p for p in PATHS if p[0] not in (
        "nope", "lazy", "titled", "named", "union", "x")], "path")
    rec = record(S, [path[0]], 2)
    if path[0] != "a":
        rec.a = 5
    plain = VisitorPattern.visit(rec, extraneous=True)
    log = []
    V = visitor(lambda v: v, log)
    back = V.cast(Rec, plain, filter=[list(path)])
    ref = Expected(Options(paths=[path]), lambda v: v)
    ref.visit(rec, Rec, ())
    same_log(S, log, ref.log)
    ref = Expected(Options(), lambda v: v)
    S.check(S.eq(VisitorPattern.visit(back, filter=[list(path)]),
                 VisitorPattern.visit(rec, filter=[list(path)]))
            or path[-1] in (0, 1) or path[:1] == ("rows",),
            "selected fields are kept")
    S.witness("end")


@harness(witness=["end"])
def cast_errors(S):
    """what does not fit is reported, with its location"""
    n = S.int("n")
    bad, where = S.pick([
        ({"item": n}, ("item",)), ({"items": n}, ("items",)),
        ({"items": [{"s": n}, n]}, ("items", 1)), ({"map": n}, ("map",)),
        ({"map": {"k": n}}, ("map", "k")), (n, ()), ([n], ()),
        ({"sub": {"item": [n]}}, ("sub", "item")), ({"words": n}, ("words",)),
        ({"titled": [n]}, ("titled",)),
        ({"titled": {"values": n}}, ("titled",)),
        ({"titled": {"values": [n], "title": n}}, ("titled", 0)),
    ], "bad")
    out = S.outcome(lambda: VisitorPattern.cast(Rec, bad))
    S.check(out.raised(exc.VisitorGrokRecordError), out.kind())
    if out.raised(exc.VisitorGrokRecordError):
        S.check(tuple(out.exc.field_selector.selectors) == where,
                "location %r" % (out.exc.field_selector,))
    S.witness("end")


class Failing(Record):
    def fail(self):
        if self.d == 0:
            raise ZeroDivisionError("d")
        if self.d == 1:
            raise IndexError("d")
        if self.d == 2:
            raise KeyError("d")
        return self.n + self.d
    n = Property()
    d = Property()
    q = Property(lazy=True, default=fail)


class HasFailing(Record):
    failing = Property(isa=Failing)
    list = ListProperty(of=Failing)


@harness(witness=["fails", "works", "unset"])
def visit_errors(S):
    """slots that fail are reported"""
    kw = {"n": S.int("n"), "d": S.int("d", -2, 2)}
    if S.flag("unset"):
        del kw["d"]
    rec = Failing(**kw)
    whole = S.pick([rec, HasFailing(failing=rec), HasFailing(list=[rec])],
                   "whole")
    out = S.outcome(lambda: VisitorPattern.visit(whole))
    if "d" in kw and 0 <= kw["d"] < 2:
        S.check(out.raised(exc.VisitorPropError), out.kind())
        if out.raised(exc.VisitorPropError):
            S.check(out.exc.prop_name == "q" and
                    isinstance(out.exc.exception, (
                        ZeroDivisionError, IndexError)),
                    "what failed")
        S.witness("fails")
    elif "d" not in kw:
        S.check(out.ok, out.kind())
        S.witness("unset")
    else:
        S.check(out.ok, out.kind())
        S.witness("works")
    for v in (S.int("v"), None, "x", [1], {"a": 1}):
        out = S.outcome(lambda: VisitorPattern.visit(v))
        S.check(out.raised(TypeError), "only records have a type to visit")
    for v in (S.int("v"), None, {"a": 1}):
        out = S.outcome(lambda: VisitorPattern.visit(v, list_of(Item)))
        S.check(out.raised(exc.VisitorUnpackError), out.kind())


@harness(witness=["end"])
def stop(S):
    """custom unpack functions can stop the descent"""
    limit = S.int("limit")

    class Stopping(VisitorPattern):
        @classmethod
        def unpack(cls, value, value_type, visitor):
            if value_type is Item:
                if S.get(value, "s") is MISSING:
                    return cls.StopVisiting
                if value.s > limit:
                    return cls.StopVisiting(limit)
            return super(Stopping, cls).unpack(value, value_type, visitor)
    vals = [S.int("s") if S.flag("s?") else MISSING for _ in range(2)]

    def one(v):
        return Item() if v is MISSING else Item(s=v)

    def want(v):
        return None if v is MISSING else limit if v > limit else {"s": v}
    rec = Rec(item=one(vals[0]), items=[one(v) for v in vals],
              map={"k": one(vals[1])})
    found = Stopping.visit(rec)
    expected = {"items": [want(v) for v in vals if v is not MISSING],
                "map": {}, "lazy": 5}
    if vals[0] is not MISSING:
        expected["item"] = want(vals[0])
    if vals[1] is not MISSING:
        expected["map"]["k"] = want(vals[1])
    S.check(S.eq(found, expected), "result")
    S.witness("end")


@harness(witness=["opaque", "properties", "items"])
def unpacked(S):
    """custom unpack functions can leave out the properties or the items"""
    how = S.pick(["opaque", "properties", "items", "only properties"], "how")
    n, m = S.int("n"), S.int("m")
    value, props, items = S.pick([
        (Item(s=n), {"s": n}, None),
        (Titled([Item(t=n)], title=m), {"title": m}, None),
        (Rec.properties["items"].valuetype([Item(s=n), Item(t=m)]), {},
         [{"s": n}, {"t": m}]),
    ], "value")
    target = S.type(value)
    if how == "items" and items is None:
        return

    class Unpack(VisitorPattern):
        @classmethod
        def unpack(cls, value, value_type, visitor):
            get, gen = super(Unpack, cls).unpack(value, value_type, visitor)
            if value_type is not target or visitor.cue:
                return get, gen
            return {"opaque": (None, None), "properties": (get, None),
                    "items": (None, gen), "only properties": get}[how]

        @classmethod
        def apply(cls, value, prop, visitor):
            return ("opaque", value) if prop is None else value
    got = Unpack.visit(value)
    if how == "opaque":
        S.check(got[0] == "opaque" and got[1] is value, "not applied to it")
    else:
        S.check(S.eq(got, items if how == "items" else props), "result")
    S.witness(how.split()[-1])


class Custom(Visitor):
    """a visitor with a state of its own"""
    mark = None

    def copy(self):
        c = super(Custom, self).copy()
        c.mark = self.mark
        return c


@harness(witness=["end"])
def hooks(S):
    """visitor classes, aggregate and reduce functions can be replaced"""
    seen = []

    class Hooks(VisitorPattern):
        Visitor = Custom

        @classmethod
        def apply(cls, value, prop, visitor):
            seen.append((tuple(visitor.cue), visitor.mark, type(visitor)))
            return value

        @classmethod
        def aggregate(cls, items, coll_type, visitor):
            return [coll_type.__name__] + [k for k, v in items]

        @classmethod
        def reduce(cls, props, coll, value_type, visitor):
            if coll is not None:
                return coll
            return sorted((k.name, v) for k, v in props)
    n, m = S.int("n"), S.int("m")
    rec = Rec(a=n, items=[Item(s=m), Item()], sub=Sub(item=Item(t=n)))
    found = Hooks.visit(rec)
    S.check(S.eq(found, [("a", n), ("items", ["ItemList", 0, 1]), ("lazy", 5),
                         ("sub", [("item", [("t", n)])])]), "result")
    S.check(sorted(x[0] for x in seen) == [
        ("a",), ("items", 0, "s"), ("lazy",), ("sub", "item", "t")],
        "visited")
    S.check(all(x[2] is Custom for x in seen), "visitor")
    S.check(all(x[1] is None for x in seen), "its state")
    S.witness("end")


@harness(witness=["clash", "fine"])
def name_clash(S):
    """an own property called 'values' cannot be told from the items"""
    n = S.int("n", 0, 3)
    v = ListClash([1, 2], other=n) if S.flag("other") else ListClash([1, 2])
    out = S.outcome(lambda: ClashVisitor.visit(v, value_type=ListClash))
    if ("other" in v.__dict__) and n:
        S.check(out.raised(exc.VisitorTooSimple), out.kind())
        S.witness("clash")
    else:
        S.check(out.ok, out.kind())
        S.witness("fine")


class ListClash(ListCollection):
    itemtype = int
    other = Property()


class ClashVisitor(VisitorPattern):
    """reports the property 'other' as 'values'"""
    @classmethod
    def map_record(cls, visitor, get_value, record_type):
        for prop, v in super(ClashVisitor, cls).map_record(
                visitor, get_value, record_type):
            yield Renamed(), v


class Renamed(object):
    name = "values"


@harness(witness=["end"])
def reflect(S):
    """reflecting on types visits all their properties"""
    seen = []

    class Types(VisitorPattern):
        @classmethod
        def propinfo(cls, value, prop, visitor):
            seen.append((tuple(visitor.cue), value if prop is None else prop))
            return super(Types, cls).propinfo(value, prop, visitor)
    x = S.flag("extraneous")
    kw = {"extraneous": True} if x else {}
    what = S.pick([Rec, Titled, list_of(int), Sub], "type")
    if S.flag("instance"):
        value = {Rec: Rec(a=S.int("a")), Titled: Titled([]), Sub: Sub(p=1),
                 list_of(int): list_of(int)([S.int("a")])}[what]
    else:
        value = what
    found = Types.reflect(value, **kw)
    expected, log = info(what, x, ())
    S.check(S.eq(found, expected), "%r" % (found,))
    S.check(sorted(map(repr, [c for c, p in seen])) ==
            sorted(map(repr, [c for c, p in log])), "visited")
    want = dict((repr(c), p) for c, p in log)
    for c, p in seen:
        S.check(want.get(repr(c)) is p, "as")
    S.check(S.outcome(lambda: Types.reflect(int)).raised(TypeError), "int")
    S.check(S.outcome(lambda: Types.reflect(S.int("z"))).raised(TypeError),
            "a number")
    S.witness("end")


def info(type_, x, at):
    """the information on a type, and what is visited for it"""
    log = []
    if not issubclass(type_, Record):
        return {"name": type_.__name__}, [(at, type_)]
    out = {"name": type_.__name__}
    props = {}
    for name, prop in type_.properties.items():
        if prop.extraneous and not x:
            continue
        t = prop.valuetype
        first = t[0] if isinstance(t, tuple) else t
        if first is not None and issubclass(first, Record):
            props[name], more = info(first, x, at + (name,))
            log += more
        else:
            props[name] = {"name": name}
            if t is not None:
                props[name]["type"] = t.__name__
            log.append((at + (name,), prop))
    if props:
        out["properties"] = props
    if hasattr(type_, "itemtype") and type_.itemtype is not None:
        out["itemtype"], more = info(type_.itemtype, x,
                                     at + (type_.itemtype,))
        log += more
    return out, log


@harness(witness=["end"])
def any_kind(S):
    """a slot of any kind, whichever way it is declared"""
    field = Field(S)
    o = Options(extraneous=S.flag("extraneous?"),
                apply_empty_slots=field.kind != "union" and S.flag("empty"))
    rec = field.build(S)[0]
    verify(S, rec, o, lambda v: 0 if v is MISSING else v)
    S.witness("end")


@harness(witness=["end"])
def any_kind_back(S):
    """a slot of any kind is cast back"""
    field = Field(S)
    S.assume(field.kind not in ("union", "coerced"))
    rec = field.build(S)[0]
    kw = dict(extraneous=True, ignore_none=field.kind == "v1")
    visited = VisitorPattern.visit(rec, **kw)
    back = VisitorPattern.cast(field.cls, visited, **kw)
    S.check(S.type(back) is field.cls, "type")
    S.check(back == rec, "equal")
    S.check(S.same(S.get(back, "a"), S.get(rec, "a")), "a")
    S.check(S.eq(VisitorPattern.visit(back, **kw), visited), "again")
    S.witness("end")
