"""Comparisons with a compare_filter: the selected fields and nothing else."""
from sx.api import harness, MISSING
from normalize import Record, Property
from normalize.coll import dict_of, list_of
from normalize.diff import DiffOptions, diff, diff_iter
from normalize.property.coll import DictProperty, ListProperty
from normalize.selector import FieldSelector, MultiFieldSelector
from checks.difflib_ref import Opt, Ref, bag, delta, swapped, triples

OUTSIDE = ("filters of more than two paths (three in the thorough tier), "
           "collections of more than two items (three in the thorough tier), "
           "filters that select different fields of the items at different "
           "indices (unless the values of the fields are disjoint), filters with wildcards on collections with properties "
           "of their own, negative indices")


class Item(Record):
    s = Property()
    t = Property()
    e = Property(extraneous=True)


class Sub(Record):
    p = Property()
    item = Property(isa=Item)


class Keyed(Record):
    id = Property()
    x = Property()
    y = Property()
    primary_key = [id]


class Double(Record):
    k = Property()
    l = Property()
    x = Property()
    primary_key = [k, l]


class Holder(Record):
    n = Property()
    item = Property(isa=Item)
    items = ListProperty(of=Item)


class Group(Record):
    name = Property()
    items = ListProperty(of=Item)
    map = DictProperty(of=Item)
    primary_key = [name]


class Rec(Record):
    holder = Property(isa=Holder)
    groups = ListProperty(of=Group)
    a = Property()
    b = Property()
    x = Property(extraneous=True)
    item = Property(isa=Item)
    sub = Property(isa=Sub)
    words = ListProperty(of=int)
    plain = Property()
    numbers = DictProperty(of=int)
    items = ListProperty(of=Item)
    keyed = ListProperty(of=Keyed)
    double = ListProperty(of=Double)
    map = DictProperty(of=Item)
    holders = ListProperty(of=Holder)


def num(S, label):
    return S.int(label)


def item(S, label):
    kw = {"s": num(S, label + ".s"), "t": num(S, label + ".t")}
    kind = S.choice(
        3 if S.tier == "thorough" or len(label) > 1 else 1, label + ".kind")
    if kind == 1:
        del kw["s"]
    elif kind == 2:
        kw["e"] = num(S, label + ".e")
    return Item(**kw)


def keyed(S, label):
    return Keyed(id=num(S, label + ".id"), x=num(S, label + ".x"),
                 y=num(S, label + ".y"))


def double(S, label):
    return Double(k=num(S, label + ".k"), l=num(S, label + ".l"),
                  x=num(S, label + ".x"))


def holder(S, label):
    return Holder(n=num(S, label + ".n"), item=Item(s=num(S, label + ".s"),
                                                    t=num(S, label + ".t")),
                  items=[Item(s=num(S, label + ".i"))])


def several(S, label, make, n):
    return [make(S, label) for _ in range(S.choice(n, label + ".n") + 1)]


def content(S, label, name, n):
    """a value for the slot"""
    if name in ("a", "b", "x"):
        return num(S, label)
    if name == "item":
        return item(S, label + name)
    if name == "sub":
        kw = {"p": num(S, label)}
        if S.flag(label + ".item?"):
            kw["item"] = item(S, label + name)
        return Sub(**kw)
    if name == "words":
        return several(S, label, num, n)
    if name == "plain":
        vals = several(S, label, num, n)
        if S.flag(label + ".dict"):
            return dict(zip("kl", vals))
        return vals
    if name == "numbers":
        return dict(zip("kl" if S.flag(label + ".kl") else "lk",
                        several(S, label, num, n)))
    if name == "map":
        return dict(zip("kl", several(S, label, item, n)))
    make = {"items": item, "keyed": keyed, "double": double,
            "holders": holder}[name]
    return several(S, label, make, n)


PATHS = [("a",), ("x",), ("nope",),
         ("item",), ("item", "s"), ("item", "e"), ("item", "nope"),
         ("sub",), ("sub", "p"), ("sub", "item"), ("sub", "item", "t"),
         ("words",), ("words", 0), ("words", 1), ("words", None),
         ("plain",), ("plain", 0), ("plain", "k"), ("plain", None),
         ("numbers", "k"), ("numbers", None),
         ("items",), ("items", None), ("items", None, "s"), ("items", 0),
         ("items", 1, "s"), ("items", None, "e"),
         ("keyed", None, "id"), ("keyed", None, "x"), ("keyed", 0, "x"),
         ("keyed", 1), ("keyed",),
         ("double", None, "k"), ("double", None, "x"), ("double", 0, "l"),
         ("map", None, "s"), ("map", "k"), ("map", "l", "s"), ("map",),
         ("holders", None, "n"), ("holders", None, "item", "s"),
         ("holders", None, "items", None, "s"), ("holders", 0, "items", 0)]


def options(S, paths):
    k = S.choice(4, "options")
    return Opt(unchanged=k == 1, extraneous=k == 2, ignore_empty_slots=k == 3,
               moved=k == 1, paths=paths)


def verify(S, a, b, opt, symmetric=True):
    before = S.snap(a), S.snap(b)
    kw = dict(opt.kwargs(), fuzzy_match=False)
    flt = [list(p) for p in opt.paths]
    found = triples(diff_iter(a, b, compare_filter=flt, **kw))
    S.check(S.eq(before, (S.snap(a), S.snap(b))), "records are modified")
    expected = Ref(S, opt).compare(a, b)
    S.check(bag(found) == bag(expected), delta(found, expected))
    if symmetric:
        back = triples(diff_iter(b, a, compare_filter=flt, **kw))
        S.check(bag(back) == bag(swapped(found)),
                "comparing the other way around: " +
                delta(back, swapped(found)))
    S.witness("found" if found else "same")


def pair(S, names, n):
    """records that may differ in the given slots, and differ elsewhere"""
    out = []
    for l in "ab":
        kw = {}
        for name in names:
            if S.flag(l + "." + name):
                kw[name] = content(S, l, name, n)
        for name in ("b", "item", "words", "keyed"):
            if name not in names:
                kw[name] = {
                    "b": l, "item": Item(s=l), "words": [ord(l)],
                    "keyed": [Keyed(id=l, x=l)]}[name]
        out.append(Rec(**kw))
    return out


@harness(n=(2, 2), witness=["found", "same"])
def one_path(S):
    """filters of a single path"""
    path = S.pick([p for p in PATHS if p[0] not in SYM], "path")
    a, b = pair(S, [path[0]] if path[0] != "nope" else ["a"], S.p["n"])
    verify(S, a, b, options(S, [path]))


SYM = ("keyed", "double", "items", "map", "holders")


@harness(n=(2, 2), witness=["found", "same"])
def items_of(S):
    """filters of a single path into a collection of records"""
    path = S.pick([p for p in PATHS if p[0] in SYM], "path")
    n = S.p["n"]
    recs = []
    for l in "ab":
        vals = content(S, l, path[0], n)
        recs.append(Rec(b=l, **{path[0]: vals}))
    verify(S, recs[0], recs[1], options(S, [path]))


@harness(witness=["found", "same"])
def index(S):
    """any index, and any key"""
    i = S.int("i", 0, 3)
    name = S.pick(["items", "words", "map", "plain", "keyed"], "slot")
    if name in ("map",):
        i = S.str("key", 1, 0, u"klm")
    path = (name, i, "s") if name in ("items", "map") and S.flag("s") else \
        (name, i)
    recs = []
    for l in "ab":
        n = S.choice(2, l + ".n") + 1
        if name in ("words", "plain"):
            v = [num(S, l) for _ in range(n)]
        elif name == "keyed":
            v = [Keyed(id=num(S, l), x=num(S, l + ".x")) for _ in range(n)]
        else:
            v = [Item(s=num(S, l), t=num(S, l + ".t")) for _ in range(n)]
            if name == "map":
                v = dict(zip("kl", v))
        recs.append(Rec(b=l, **{name: v}))
    verify(S, recs[0], recs[1], Opt(paths=[path], unchanged=S.flag("un")))


def compatible(paths):
    """no mixing of wildcards and indices, nor of different fields at
    different indices"""
    for p in paths:
        for q in paths:
            if p == q:
                continue
            n = 0
            while n < min(len(p), len(q)) and p[n] == q[n]:
                n += 1
            if n == min(len(p), len(q)):
                return False        # one includes the other
            if p[n] is None or q[n] is None:
                return False
            if isinstance(p[n], int) or p[0] == "map" and n == 1:
                if p[n + 1:] != q[n + 1:]:
                    return False
    return True


MORE = PATHS + [("keyed", None, "y"), ("double", None, "l"), ("b",),
                ("items", None, "t"), ("items", 0, "s"), ("map", None, "t"),
                ("keyed", 1, "x"), ("double", 1, "l"), ("map", "k", "s")]
PAIRS = [(p, q) for i, p in enumerate(MORE) for q in MORE[:i]
         if p[0] == q[0] and compatible([p, q])]
ACROSS = [(("a",), ("items", None, "s")), (("item", "s"), ("sub", "p")),
          (("words", 0), ("numbers", "k")), (("b",), ("keyed", None, "x")),
          (("sub", "item", "t"), ("item", "e")),
          (("map", "k", "s"), ("plain", 0)), (("nope",), ("a",))]


@harness(n=(2, 2), witness=["found", "same"])
def two_paths(S):
    """two paths into the same slot"""
    paths = S.pick(PAIRS, "paths")
    recs = [Rec(b=l, **{paths[0][0]: content(S, l, paths[0][0], S.p["n"])})
            for l in "ab"]
    verify(S, recs[0], recs[1], Opt(paths=paths, moved=S.flag("moved")))


@harness(n=(1, 2), witness=["found", "same"])
def across(S):
    """paths into different slots"""
    paths = S.pick(ACROSS, "paths")
    recs = [Rec(x=l, **dict((p[0], content(S, l + p[0], p[0], S.p["n"]))
                            for p in paths if p[0] != "nope")) for l in "ab"]
    verify(S, recs[0], recs[1], Opt(paths=paths))


@harness(witness=["found", "same"])
def part_of_a_key(S):
    """a primary key identifies items only if all of it is selected"""
    which = S.pick(["k", "l", "x", "kl", "kx", "lx", "klx"], "which")
    paths = [("double", None, c) for c in which]
    recs = [Rec(double=[Double(k=S.int(l + "k"), l=S.int(l + "l"),
                               x=S.int(l + "x"))
                        for _ in range(S.choice(2, l + ".n") + 1)])
            for l in "ab"]
    verify(S, recs[0], recs[1], Opt(paths=paths, unchanged=S.flag("un")))


@harness(witness=["found", "same"])
def empty_items(S):
    """with ignore_empty_items, what matters is what is selected"""
    paths = S.pick([[("items", None, "s")], [("items", None, "s"),
                                             ("items", None, "t")],
                    [("items",)], [("keyed", None, "x")],
                    [("keyed", None, "id"), ("keyed", None, "x")]], "paths")
    recs = []
    for l in "ab":
        v = []
        for _ in range(S.choice(2, l + ".n") + 1):
            if len(v) and S.tier == "quick":
                vals = [S.int(l), None]
            else:
                vals = [S.pick([None, "", S.int(l)], l + "v")
                        for _ in range(2)]
            v.append(Item(s=vals[0], t=vals[1]) if paths[0][0] == "items" else
                     Keyed(id=vals[0], x=vals[1]))
        recs.append(Rec(**{paths[0][0]: v}))
    verify(S, recs[0], recs[1], Opt(paths=paths, ignore_empty_items=True))


TOP = [[(None, "s")], [(0, "s")], [(1,)], [(None, "e")],
       [(None, "s"), (None, "t")], [(0, "s"), (1, "s")]]


@harness(witness=["found", "same"])
def collections(S):
    """filters of collections that are compared by themselves"""
    paths = S.pick(TOP, "paths")
    a, b = [list_of(Item)([
        Item(s=num(S, l + ".s"), t=num(S, l + ".t"))
        for _ in range(S.choice(2, l) + 1)]) for l in "ab"]
    verify(S, a, b, Opt(paths=paths, unchanged=S.flag("un")))


@harness(witness=["found", "same"])
def nested_ids(S):
    """items identified by what is within, of which only a part is
    selected"""
    paths = S.pick([[("holders", None, "item", "s")],
                    [("holders", None, "items", None, "s")],
                    [("holders", None, "n"), ("holders", None, "item", "t")],
                    [("holders", None, "items", 0)],
                    [("holders", None, "items", None, "t")]], "paths")
    recs = []
    for l in "ab":
        v = []
        for _ in range(S.choice(2, l + ".n") + 1):
            more = len(paths[0]) == 4 and len(v) == 0
            v.append(Holder(
                n=S.int(l + "n"), item=Item(s=S.int(l + "s"),
                                            t=S.int(l + "t")),
                items=[Item(s=S.int(l + "is"), t=S.int(l + "it"))
                       for _ in range(S.choice(3 if more else 2, l + ".m"))]))
        recs.append(Rec(holders=v))
    verify(S, recs[0], recs[1], Opt(paths=paths, moved=S.flag("moved")))


@harness(witness=["found", "same"])
def within(S):
    """collections further down"""
    paths = S.pick([
        [("holder", "items", 0)], [("holder", "items", 1, "s")],
        [("holder", "items", None, "t")], [("holder", "item", "s")],
        [("groups", None, "name"), ("groups", None, "items", None, "s")],
        [("groups", None, "name"), ("groups", None, "items", 0, "s")],
        [("groups", None, "name"), ("groups", None, "map", "k")],
        [("groups", None, "items", 0, "s")],
        [("groups", 1)], [("groups", 0, "name"), ("groups", 0, "items", 1)],
    ], "paths")
    recs = []
    for l in "ab":
        def items():
            return [Item(s=S.int(l + "s"), t=S.int(l + "t"))
                    for _ in range(S.choice(2, l + ".n") + 1)]
        if paths[0][0] == "holder":
            kw = {"holder": Holder(n=S.int(l), items=items(),
                                   item=Item(s=S.int(l + "s")))}
        elif paths[-1][-2:] == ("map", "k"):
            kw = {"groups": [Group(name="g", map=dict(zip(
                "kl" if S.flag(l + ".kl") else "lk", items())))]}
        else:
            kw = {"groups": [Group(name="g", items=items())]}
            if S.flag(l + ".two"):
                kw["groups"].insert(0, Group(
                    name=S.pick(["g", "h"], l + ".name"),
                    items=[Item(s=1, t=2)]))
        recs.append(Rec(**kw))
    verify(S, recs[0], recs[1], Opt(paths=paths, moved=S.flag("moved")))


@harness(witness=["found", "same"])
def per_index(S):
    """different fields of different items"""
    paths, kind = S.pick([
        ([("items", 0, "s"), ("items", 1, "t")], "items"),
        ([("items", 1, "s"), ("items", 0, "t")], "items"),
        ([("map", "k", "s"), ("map", "l", "t")], "map"),
        ([("keyed", 0, "id"), ("keyed", 0, "x"), ("keyed", 1, "id"),
          ("keyed", 1, "y")], "keyed")], "paths")
    recs = []
    for l in "ab":
        v = []
        for i in range(S.choice(2, l) + 1):
            x, y = S.int(l + "s", 0, 9), S.int(l + "t", 10, 19)
            v.append(Item(s=x, t=y) if kind != "keyed" else
                     Keyed(id="pq"[i], x=x, y=y))
        if kind == "map":
            v = dict(zip("kl", v))
        recs.append(Rec(**{kind: v}))
    verify(S, recs[0], recs[1], Opt(paths=paths, unchanged=S.flag("un")))


@harness(witness=["found", "same"])
def similar(S):
    """approximate matches only look at what is selected"""
    paths = S.pick([[(None, "s")], [(None, "s"), (None, "t")],
                    [(0, "s"), (1, "s")], [(None, "item", "s"), (None, "s")]],
                   "paths")
    kind = list_of(Item) if paths[-1] != (None, "s") or len(paths) == 1 \
        else list_of(Three)
    cls = kind.itemtype
    recs = []
    for l in "ab":
        v = []
        for _ in range(S.choice(2, l) + 1):
            kw = {"s": S.int(l + "s"), "t": S.int(l + "t")}
            if cls is Three:
                kw = {"s": kw["s"], "item": Item(**kw)}
            v.append(cls(**kw))
        recs.append(kind(v))
    opt = Opt(paths=paths, unchanged=S.flag("un"))
    found = triples(diff_iter(
        recs[0], recs[1], compare_filter=[list(p) for p in paths],
        **opt.kwargs()))
    Ref(S, opt).check_fuzzy(recs[0], recs[1], found)
    S.witness("found" if found else "same")


class Three(Record):
    s = Property()
    item = Property(isa=Item)
    u = Property()


@harness(witness=["found", "same"])
def independent(S):
    """what is not selected does not matter for anything"""
    name, paths, hide = S.pick([
        ("items", [("items", None, "s")], "t"),
        ("items", [("items", None, "t")], "e"),
        ("items", [("items", 0, "s")], "t"),
        ("keyed", [("keyed", None, "x")], "id"),
        ("keyed", [("keyed", None, "id"), ("keyed", None, "x")], "y"),
        ("double", [("double", None, "k"), ("double", None, "x")], "l"),
        ("map", [("map", None, "s")], "t"),
        ("item", [("item", "s")], "t"),
        ("sub", [("sub", "p")], "item")], "case")
    make = {"items": Item, "keyed": Keyed, "double": Double, "map": Item,
            "item": Item, "sub": Sub}[name]
    fields = sorted(make.properties)

    def one(label, shape, hidden):
        kw = dict(shape)
        if make is Sub:
            kw["item"] = Item(s=S.int(hidden))
        elif S.tier == "quick" or S.flag(hidden + "?"):
            kw[hide] = S.int(hidden)
        return make(**kw)

    recs, others = [], []
    for l in "ab":
        n = 1 if name in ("item", "sub") else S.choice(2, l + ".n") + 1
        shapes = [dict((f, S.int(l + f)) for f in fields
                       if f != hide and (f != "item")) for _ in range(n)]
        for out in (recs, others):
            v = [one(l, shape, "hidden") for shape in shapes]
            if name in ("item", "sub"):
                v = v[0]
            elif name == "map":
                v = dict(zip("kl", v))
            out.append(Rec(b=S.int("b"), **{name: v}))
    kw = dict(compare_filter=[list(p) for p in paths], unchanged=S.flag("un"))
    one_way = triples(diff_iter(recs[0], recs[1], **kw))
    other_way = triples(diff_iter(others[0], others[1], **kw))
    S.check(bag(one_way) == bag(other_way), delta(one_way, other_way))
    S.witness("found" if one_way else "same")


@harness(witness=["found", "same"])
def forms(S):
    """filters can be given in several ways"""
    paths = S.pick([[("a",)], [("items", None, "s")], [("item", "s"), ("b",)],
                    [("items", 0, "s")], [("keyed", None, "id"), ("a",)]],
                   "paths")
    names = sorted(set(p[0] for p in paths))
    a, b = [Rec(x=l, **dict((n, content(S, l, n, 1)) for n in names))
            for l in "ab"]
    lists = [list(p) for p in paths]
    mfs = MultiFieldSelector(*lists)
    want = triples(diff_iter(a, b, compare_filter=mfs))
    for flt in (lists, [tuple(p) for p in paths], tuple(lists),
                [FieldSelector(p) for p in lists],
                list(reversed(lists)), lists + lists,
                MultiFieldSelector.from_path(mfs.path)):
        found = triples(diff_iter(a, b, compare_filter=flt))
        S.check(bag(found) == bag(want), delta(found, want))
    o = DiffOptions(compare_filter=lists)
    S.check(bag(triples(diff_iter(a, b, options=o))) == bag(want), "options")
    S.check(bag(triples(diff_iter(a, b, options=o))) == bag(want), "again")
    S.check(bag(triples(diff(a, b, compare_filter=mfs))) == bag(want),
            "diff()")
    S.check(bag(triples(a.diff_iter(b, compare_filter=mfs))) == bag(want),
            ".diff_iter()")
    S.check(bag(triples(a.diff(b, compare_filter=mfs))) == bag(want),
            ".diff()")
    everything = triples(diff_iter(a, b))
    S.check(bag(triples(diff_iter(a, b, compare_filter=None))) ==
            bag(everything), "None is no filter")
    S.check(bag(triples(diff_iter(a, b, compare_filter=[[n] for n in
                                                        Rec.properties]))) ==
            bag(everything), "a filter of everything")
    if names[-1] not in ("items", "keyed"):
        S.check(not bag(want) - bag(everything), "a part of all differences")
    S.witness("found" if want else "same")


@harness(witness=["found", "same"])
def extraneous(S):
    """extraneous fields are compared on request, within the selection"""
    x = S.flag("extraneous")
    paths = S.pick([[], [("x",)], [("a",)], [("item", "e")], [("item", "s")],
                    [("items", None, "e")], [("x",), ("item",)]], "paths")
    recs = []
    for l in "ab":
        kw = {"a": num(S, l), "x": num(S, l + "x")}
        kw["item"] = Item(s=num(S, l + "s"), e=num(S, l + "e"))
        if paths and paths[0][0] == "items":
            kw["items"] = [Item(s=1, e=num(S, l + "e"))]
        recs.append(Rec(**kw))
    opt = Opt(paths=paths, extraneous=x)
    if not paths:
        found = triples(diff_iter(recs[0], recs[1], extraneous=x))
        want = Ref(S, opt).compare(*recs)
        S.check(bag(found) == bag(want), delta(found, want))
        S.witness("found" if found else "same")
    else:
        verify(S, recs[0], recs[1], opt)
