"""Comparisons of collections: every item is accounted for."""
from sx.api import harness, MISSING
import normalize.exc as exc
from normalize import Record, Property
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.diff import DiffOptions, diff_iter
from normalize.property.coll import DictProperty, ListProperty
from checks.difflib_ref import (Opt, Ref, bag, delta, keyed, swapped,
                                triples)

OUTSIDE = ("collections of more than three items (four for plain values in "
           "the thorough tier), items nested deeper than two levels, "
           "approximate matches in nested collections, collections of several "
           "item types (rejected), own properties of collections that are "
           "compared with nothing; which of several equally similar items are "
           "matched is left open")


class Item(Record):
    x = Property()
    y = Property()


class Row(Record):
    x = Property()
    y = Property()
    z = Property()


class Keyed(Record):
    id = Property()
    x = Property()
    e = Property(extraneous=True)
    primary_key = [id]


class Double(Record):
    k = Property()
    l = Property()
    x = Property()
    primary_key = [k, l]


class Holder(Record):
    item = Property(isa=Item)
    n = Property()


class Group(Record):
    name = Property()
    items = ListProperty(of=Keyed)
    primary_key = [name]


class Nest(Record):
    name = Property()
    items = ListProperty(of=Item)
    map = DictProperty(of=Item)


class Slots(Record):
    plain = Property()
    items = ListProperty(of=Item)
    keyed = ListProperty(of=Keyed)
    map = DictProperty(of=Item)


class Titled(ListCollection):
    itemtype = Item
    title = Property()
    sub = Property(isa=Item)


class Index(DictCollection):
    itemtype = Keyed
    title = Property()


class Clean(ListCollection):
    itemtype = int

    @classmethod
    def compare_item_as(cls, v):
        return v if v > 0 else 0


class CleanMap(DictCollection):
    itemtype = int

    @classmethod
    def compare_item_as(cls, v):
        return v if v > 0 else 0


KEYS = "pqr"


def verify(S, a, b, opt, **more):
    """exactly the differences specified, both ways around"""
    kw = dict(opt.kwargs(), **more)
    ref = Ref(S, opt)
    before = S.snap(a), S.snap(b)
    found = triples(diff_iter(a, b, **kw))
    back = triples(diff_iter(b, a, **kw))
    S.check(S.eq(before, (S.snap(a), S.snap(b))), "collections are modified")
    expected = ref.compare(a, b)
    S.check(bag(found) == bag(expected), delta(found, expected))
    S.check(bag(back) == bag(swapped(found)),
            "comparing the other way around: " + delta(back, swapped(found)))
    for kind, x, y in found:
        S.witness(kind)
    if not found:
        S.witness("same")
    return found


def options(S):
    k = S.choice(4, "options")
    return Opt(unchanged=k > 1, moved=k in (1, 2))


def numbers(S, label, n):
    return [S.int(label) for _ in range(S.choice(n + 1, label + ".n"))]


def plain(S, label, n, kind):
    """a collection of plain values"""
    vals = numbers(S, label, n)
    if kind in ("dict_of", "dict", "CleanMap"):
        keys = KEYS
        if S.flag(label + ".other"):
            keys = "qsp"
        vals = dict(zip(keys, vals))
        return {"dict_of": dict_of(int), "dict": dict,
                "CleanMap": CleanMap}[kind](vals)
    return {"list_of": list_of(int), "list": list, "tuple": tuple,
            "Clean": Clean}[kind](vals)


@harness(n=(3, 4), witness=["added", "removed", "modified", "moved", "none",
                            "same"])
def plain_items(S):
    """lists and dicts of plain values"""
    kind = S.pick(["list_of", "dict_of", "Clean", "CleanMap"], "kind")
    opt = options(S)
    n = S.p["n"]
    a, b = plain(S, "a", n, kind), plain(S, "b", n - 1, kind)
    verify(S, a, b, opt)


@harness(n=(2, 3), witness=["added", "removed", "modified", "same"])
def plain_slots(S):
    """containers of plain values in slots"""
    kind = S.pick(["list", "tuple", "dict"], "kind")
    opt = options(S)
    n = S.p["n"]
    verify(S, Slots(plain=plain(S, "a", n, kind)),
           Slots(plain=plain(S, "b", n, kind)), opt)


def odd(S, label):
    """values that are no simple ones, as the items of a plain container"""
    n = S.int(label)
    return S.pick([
        n, [n], (n,), {"k": n}, {"j": 1, "k": n}, {"k": n, "j": 1}, "[1]",
        "{'k': 1}", ([n], 1), {1, 2}, {2, 1}, None, [[n], {"k": [n]}],
        frozenset([1]),
    ], label + ".v")


@harness(n=(1, 2), witness=["modified", "same"])
def unhashable_items(S):
    """items that are containers"""
    a, b = [odd(S, "a")], [odd(S, "b")]
    if S.p["n"] > 1 and S.flag("second"):
        a.insert(S.choice(2, "at"), b[0])
    if S.flag("dict"):
        a, b = dict(zip(KEYS, a)), dict(zip(KEYS, b))
    verify(S, Slots(plain=a), Slots(plain=b), Opt())


def items(S, label, n, cls=Item, lo=0):
    """records, of which some fields are set"""
    out = []
    for _ in range(S.choice(n + 1 - lo, label + ".n") + lo):
        kw = {"x": S.int(label + ".x")}
        if S.flag(label + ".y?"):
            kw["y"] = S.int(label + ".y")
        out.append(cls(**kw))
    return out


def coll(S, label, what, vals):
    if what == "list":
        return list_of(S.type(vals[0]) if vals else Item)(vals)
    keys = S.pick([KEYS, "qps"], label + ".keys") if vals else KEYS
    return dict_of(Item)(dict(zip(keys, vals)))


@harness(n=(2, 3), witness=["added", "removed", "moved", "none", "same"])
def record_items(S):
    """records without keys are matched by all of their values"""
    what = S.pick(["list", "dict"], "what")
    opt = options(S)
    n = S.p["n"]
    a = coll(S, "a", what, items(S, "a", n))
    b = coll(S, "b", what, items(S, "b", 2))
    found = verify(S, a, b, opt, fuzzy_match=False)
    if what == "list" and not opt.unchanged and not opt.moved:
        S.check(not found or not a == b, "equal lists have differences")


def keyed_items(S, label, n, cls=Keyed):
    out = []
    for _ in range(S.choice(n + 1, label + ".n")):
        kw = {"id": S.int(label + ".id")}
        if S.flag(label + ".x?"):
            kw["x"] = S.int(label + ".x")
        out.append(Keyed(**kw))
    return out


@harness(n=(2, 3), witness=["added", "removed", "modified", "moved", "none",
                            "same"])
def key_items(S):
    """records with keys are matched by these, and compared"""
    opt = options(S)
    a = keyed_items(S, "a", S.p["n"])
    b = keyed_items(S, "b", 2)
    if S.flag("dict"):
        a = dict_of(Keyed)(dict(zip(KEYS, a)))
        b = dict_of(Keyed)(dict(zip(S.pick([KEYS, "qps"], "keys"), b)))
    else:
        a, b = list_of(Keyed)(a), list_of(Keyed)(b)
    found = verify(S, a, b, opt, fuzzy_match=S.flag("fuzzy"))
    for kind, x, y in found:
        if kind == "modified":
            S.check(a[x[0]].id == b[y[0]].id,
                    "items with different keys are compared")


def fuzzy(S, a, b, opt):
    kw = opt.kwargs()
    before = S.snap(a), S.snap(b)
    found = triples(diff_iter(a, b, **kw))
    S.check(S.eq(before, (S.snap(a), S.snap(b))), "collections are modified")
    ref = Ref(S, opt)
    ref.check_fuzzy(a, b, found)
    exact = ref.compare(a, b)
    if not opt.unchanged and not opt.moved:
        S.check(bool(exact) == bool(found),
                "approximate matching hides or invents differences")
    if any(k == "modified" for k, x, y in found):
        S.witness("pair")
    if not found:
        S.witness("same")
    S.witness("end")


@harness(n=(2, 3), witness=["pair", "same", "end"])
def similar(S):
    """similar items without keys are matched approximately"""
    opt = options(S)
    n = S.p["n"]
    fuzzy(S, coll(S, "a", "list", items(S, "a", n)),
          coll(S, "b", "list", items(S, "b", 2)), opt)


@harness(witness=["pair", "end"])
def similar_rows(S):
    """the most similar ones first"""
    rows = [[Row(x=S.int("x"), y=S.int("y"), z=1) for _ in range(k)]
            for k in (1, 2)]
    if S.flag("swap"):
        rows.reverse()
    fuzzy(S, list_of(Row)(rows[0]), list_of(Row)(rows[1]),
          Opt(moved=S.flag("moved")))


@harness(n=(1, 2), witness=["pair", "same", "end"])
def similar_keys(S):
    """records with several keys, of which some match"""
    opt = Opt(unchanged=S.flag("unchanged"))
    colls = []
    for l, n in ("a", 2), ("b", S.p["n"]):
        vals = []
        for _ in range(S.choice(n + 1, l + ".n")):
            kw = {"k": S.int(l + ".k"), "l": S.int(l + ".l")}
            if S.flag(l + ".x?"):
                kw["x"] = S.int(l + ".x")
            vals.append(Double(**kw))
        colls.append(list_of(Double)(vals))
    fuzzy(S, colls[0], colls[1], opt)


@harness(witness=["pair", "end"])
def similar_nested(S):
    """records within items count when they are the same"""
    colls = []
    for l in "ab":
        vals = []
        for _ in range(S.choice(2, l + ".n") + 1):
            kw = {"n": S.int(l + ".m")}
            k = S.choice(3, l + ".item")
            if k:
                kw["item"] = Item(x=S.int(l + ".x") if k == 1 else 3)
            if k == 2:
                kw["item"].y = 5
            vals.append(Holder(**kw))
        colls.append(list_of(Holder)(vals))
    fuzzy(S, colls[0], colls[1], Opt())


@harness(witness=["deep", "end"])
def nested(S):
    """collections within items of collections"""
    opt = options(S)
    colls = []
    for l, n in ("a", 2), ("b", 1):
        vals = []
        for i in range(n):
            kw = {"name": S.int(l + ".name")}
            k = S.choice(3, l + ".items")
            if k:
                kw["items"] = [{"id": S.int(l + ".id"), "x": j}
                               for j in range(k - 1)]
            vals.append(Group(**kw))
        colls.append(list_of(Group)(vals))
    found = verify(S, colls[0], colls[1], opt, fuzzy_match=False)
    if any(len(x) > 2 for k, x, y in found):
        S.witness("deep")
    S.witness("end")


@harness(witness=["deep", "end"])
def nested_ids(S):
    """items are the same when the collections within are"""
    colls = []
    for l in "ab":
        kw = {"name": S.int(l + ".name")}
        k = S.choice(5, l + ".items")
        if k in (1, 2):
            kw["items"] = [Item(x=S.int(l + ".x")) for j in range(k - 1)]
        elif k in (3, 4):
            kw["map"] = dict((j, Item(x=S.int(l + ".x")))
                             for j in KEYS[:k - 3] or "q")
        colls.append(list_of(Nest)([Nest(**kw)]))
    verify(S, colls[0], colls[1], Opt(), fuzzy_match=False)
    S.witness("deep")
    S.witness("end")


def maybe_empty(S, label, n):
    out = []
    for _ in range(S.choice(n + 1, label + ".n")):
        kw = {}
        k = S.choice(6, label)
        if k == 1:
            kw["x"] = S.int(label + ".x")
        elif k == 2:
            kw["x"] = None
        elif k == 3:
            kw = {"x": "", "y": None}
        elif k == 4:
            kw = {"y": S.pick([0, False, "z"], label + ".y")}
        out.append(Item(**kw))
    return out


@harness(n=(2, 2), witness=["dropped", "end"])
def empty_items(S):
    """ignore_empty_items drops the items with nothing in them, and only
    those"""
    opt = Opt(ignore_empty_items=True, unchanged=S.flag("unchanged"))
    a, b = maybe_empty(S, "a", S.p["n"]), maybe_empty(S, "b", 1)
    found = verify(S, list_of(Item)(a), list_of(Item)(b), opt,
                   fuzzy_match=False)
    ref = Ref(S, opt)
    if any(ref.empty(v, ()) for v in a):
        S.witness("dropped")
        for k, x, y in found:
            S.check(not x or not ref.empty(a[x[0]], ()),
                    "an empty item is reported")
    if all(ref.empty(v, ()) for v in a + b):
        S.check(not found, "empty items are reported")
    S.witness("end")


@harness(witness=["dropped", "end"])
def empty_keyed(S):
    """items with keys are empty when their keys are"""
    opt = Opt(ignore_empty_items=True)
    colls = []
    for l in "ab":
        vals = []
        for _ in range(S.choice(3, l + ".n")):
            kw = {"x": S.int(l + ".x")}
            k = S.choice(4, l)
            if k == 1:
                kw["id"] = S.int(l + ".id")
            elif k == 2:
                kw["id"] = ""
            elif k == 3:
                kw["id"] = 0
            vals.append(Keyed(**kw))
        colls.append(list_of(Keyed)(vals))
    verify(S, colls[0], colls[1], opt, fuzzy_match=False)
    S.witness("dropped")
    S.witness("end")


@harness(n=(2, 3), witness=["added", "removed", "modified", "none", "same"])
def recursive(S):
    """recurse=True compares what is found under the same key"""
    what = S.pick(["list", "dict"], "what")
    opt = Opt(recurse=True, unchanged=S.flag("unchanged"))
    n = S.p["n"]
    a = coll(S, "a", what, items(S, "a", n))
    b = coll(S, "b", what, items(S, "b", 2))
    verify(S, a, b, opt)


@harness(witness=["title", "sub", "item", "end"])
def own_properties(S):
    """collections with properties: these and the items are compared"""
    opt = Opt(unchanged=S.flag("unchanged"))
    colls = []
    for l in "ab":
        kw = {}
        if S.flag(l + ".title?"):
            kw["title"] = S.int(l + ".title")
        if S.flag(l + ".sub?"):
            kw["sub"] = Item(x=S.int(l + ".sub"))
        vals = [Item(x=S.int(l)) for _ in range(S.choice(2, l + ".n"))]
        colls.append(Titled(vals, **kw))
    for kind, x, y in verify(S, colls[0], colls[1], opt, fuzzy_match=False):
        S.witness(x[0] if x and x[0] in ("title", "sub") else "item")
    S.witness("end")


@harness(witness=["title", "item", "end"])
def own_properties_dict(S):
    colls = []
    for l in "ab":
        kw = {}
        if S.flag(l + ".title?"):
            kw["title"] = S.int(l + ".title")
        vals = dict((k, Keyed(id=S.int(l), x=S.int(l + ".x")))
                    for k in KEYS[:S.choice(2, l + ".n") + 1])
        colls.append(Index(vals, **kw))
    for kind, x, y in verify(S, colls[0], colls[1], Opt(),
                             fuzzy_match=False):
        S.witness("title" if x and x[0] == "title" else "item")
    S.witness("end")


@harness(witness=["added", "removed", "same", "end"])
def in_slots(S):
    """collections in slots, of which one may not be there"""
    opt = options(S)
    slot = S.pick(["items", "keyed", "map"], "slot")
    recs = []
    for l in "ab":
        kw = {}
        k = S.choice(3, l)
        if k:
            n = [S.int(l + ".n") for _ in range(k - 1)]
            kw[slot] = (
                dict((j, Item(x=i)) for j, i in zip(KEYS, n))
                if slot == "map" else
                [Keyed(id=i, x=i) if slot == "keyed" else Item(x=i)
                 for i in n])
        recs.append(Slots(**kw))
    verify(S, recs[0], recs[1], opt, fuzzy_match=False)
    S.witness("end")


@harness(witness=["end"])
def unsupported(S):
    """collections of several types of items are refused"""
    class Both(ListCollection):
        itemtype = (Item, Keyed)

        @classmethod
        def coerceitem(cls, v):
            return v
    o = S.outcome(lambda: list(diff_iter(Both([Item(x=1)]),
                                         Both([Item(x=S.int("x"))]))))
    S.check(o.raised(exc.CollectionItemTypeUnsupported), o.kind())
    S.witness("end")
