"""Comparisons of records against a plain specification of what differs."""
from sx.api import harness, MISSING
import normalize.exc as exc
from normalize import JsonRecord, Record, Property, V1Property
from normalize.coll import ListCollection, list_of, dict_of
from normalize.diff import Diff, DiffInfo, DiffOptions, DiffTypes
from normalize.diff import diff, diff_iter
from normalize.property import LazyProperty, ROProperty
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonListProperty
from normalize.record.json import JsonDiff, JsonDiffInfo
from checks.difflib_ref import Opt, Ref, bag, delta, swapped, triples
from checks.menu import Field

OUTSIDE = ("records nested deeper than three levels, list and dict slots with "
           "more than two items (see P19 for collections), comparing with "
           "duck_type objects that hold empty containers where the other side "
           "has nothing; strings with white space or combining characters "
           "(see P20)")


class Sub(Record):
    p = Property()
    q = Property(isa=int)


class SubSub(Sub):
    z = Property()


class Deep(Record):
    sub = Property(isa=Sub)
    w = Property()


class Flat(Record):
    a = Property()
    b = Property()
    c = Property(isa=int)


class Outer(Record):
    a = Property()
    deep = Property(isa=Deep)
    sub = Property(isa=Sub)


class Kinds(Record):
    v1 = V1Property(isa=int)
    v2 = V1Property(isa=int, v1_none=0)
    ro = ROProperty()
    raw = Property(traits=["unsafe"])
    lazy = LazyProperty(isa=int, default=lambda self: self.base + 1)
    base = Property(isa=int, default=1)


class Extra(Record):
    a = Property()
    x = Property(extraneous=True)
    sub = Property(isa=Sub)
    xsub = Property(isa=Sub, extraneous=True)


class Lists(Record):
    nums = ListProperty(of=int)
    subs = ListProperty(of=Sub)
    map = DictProperty(of=Sub)
    a = Property()


class Keyed(Record):
    id = Property(isa=int)
    x = Property()
    primary_key = [id]


class JSub(JsonRecord):
    p = Property()


class JRec(JsonRecord):
    a = Property()
    sub = Property(isa=JSub)
    items = JsonListProperty(of=JSub)


class Alien(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class AlienSlots(object):
    a = None

    def __init__(self, b):
        self.c = b

    @property
    def b(self):
        return self.c


def put(S, kw, name, what, unset=True):
    """a slot that may be unset, None, or some value"""
    k = S.choice(3 if unset else 2, name)
    if k == 0:
        kw[name] = S.int(name)
    elif k == 1:
        kw[name] = S.pick(what, name)
    return kw


def some_sub(S, label, cls=Sub):
    kw = {}
    if S.flag(label + ".p?"):
        kw["p"] = S.int(label + ".p")
    if S.flag(label + ".q?"):
        kw["q"] = S.int(label + ".q")
    return cls(**kw)


def verify(S, a, b, opt, **more):
    """the differences are exactly those specified, both ways around, and
    neither side is modified"""
    kw = dict(opt.kwargs(), **more)
    ref = Ref(S, opt)
    before = S.snap(a), S.snap(b)
    found = triples(diff_iter(a, b, **kw))
    back = triples(diff_iter(b, a, **kw))
    S.check(S.eq(before, (S.snap(a), S.snap(b))), "records are modified")
    expected = ref.compare(a, b)
    S.check(bag(found) == bag(expected), delta(found, expected))
    S.check(bag(back) == bag(swapped(found)),
            "comparing the other way around: " + delta(back, swapped(found)))
    return found


def located(S, a, b, found):
    """selectors lead to what differs"""
    for d in found:
        kind = d.diff_type
        va = S.outcome(lambda: d.base.get(a))
        vb = S.outcome(lambda: d.other.get(b))
        if kind == DiffTypes.MODIFIED:
            S.check(va.ok and vb.ok and not va.value == vb.value,
                    "both sides of a modification are there and differ")
        elif kind == DiffTypes.REMOVED:
            S.check(va.ok, "what was removed is in the first record")
        elif kind == DiffTypes.ADDED:
            S.check(vb.ok, "what was added is in the second record")
        elif kind == DiffTypes.NO_CHANGE:
            S.check(va.ok and vb.ok and va.value == vb.value,
                    "what did not change is equal")


@harness(witness=["added", "removed", "modified", "none", "same"])
def flat(S):
    """slots of any value, one by one"""
    opt = Opt(unchanged=S.flag("unchanged"))
    a, b = {}, {}
    for d in a, b:
        put(S, d, "a", [None, "x"])
        put(S, d, "b", ["x"])
        if S.flag("c?"):
            d["c"] = S.int("c")
    a, b = Flat(**a), Flat(**b)
    found = verify(S, a, b, opt)
    located(S, a, b, diff_iter(a, b, unchanged=opt.unchanged))
    if not opt.unchanged:
        S.check((not found) == (a == b),
                "no differences exactly when the records are equal")
    for k in found:
        S.witness(k[0])
    if not found:
        S.witness("same")


@harness(witness=["deep", "same"])
def nested(S):
    """records in records"""
    opt = Opt(unchanged=S.flag("unchanged"))
    recs = []
    for l in "ab":
        kw = {}
        k = S.choice(3, l + ".sub")
        if k == 1:
            kw["sub"] = some_sub(S, l)
        elif k == 2:
            kw["sub"] = SubSub(p=S.int(l + ".p"), z=1)
        k = S.choice(3, l + ".deep")
        if k == 1:
            kw["deep"] = Deep(w=S.int(l + ".w"))
        elif k == 2:
            kw["deep"] = Deep(sub=Sub(p=S.int(l + ".dp")))
        recs.append(Outer(**kw))
    a, b = recs
    found = verify(S, a, b, opt)
    if not opt.unchanged:
        S.check((not found) == (a == b),
                "no differences exactly when the records are equal")
        if not found:
            S.witness("same")
    if any(len(d[1]) == 3 for d in found):
        S.witness("deep")


def anything(S, label):
    """some value of any kind, as plain as needed"""
    k = S.choice(10, label)
    n = S.int(label + ".n") if k in (0, 2, 3, 4, 5, 7) else None
    return (n, "1", [n], (n,), {"k": n}, Sub(p=n), SubSub(p=1), [1, n],
            None, True)[k]


@harness(witness=["modified", "none"])
def mixed(S):
    """values of different kinds in one slot"""
    opt = Opt(unchanged=S.flag("unchanged"))
    a = Flat(a=anything(S, "a"))
    b = Flat(a=anything(S, "b")) if S.flag("b?") else Flat()
    for k in verify(S, a, b, opt):
        S.witness(k[0])


@harness(witness=["lazy", "v1", "end"])
def kinds(S):
    """properties of all kinds are compared by the values they read as"""
    opt = Opt(unchanged=S.flag("unchanged"))
    recs = []
    for l in "ab":
        kw = {"base": S.int(l + ".base")}
        k = S.choice(7, l)
        if k == 1:
            kw["v1"] = S.int(l + ".v1")
        elif k == 2:
            kw["v2"] = S.int(l + ".v2")
        elif k == 3:
            kw["ro"] = S.int(l + ".ro")
        elif k == 4:
            kw["raw"] = S.int(l + ".raw")
        elif k == 5:
            kw["lazy"] = S.int(l + ".lazy")
        elif k == 6:
            del kw["base"]
        recs.append(Kinds(**kw))
    found = verify(S, recs[0], recs[1], opt)
    for k, x, y in found:
        if k != "none":
            S.witness("lazy" if x == ("lazy",) else
                      "v1" if x == ("v1",) else "other")
    S.witness("end")


@harness(witness=["x", "xsub", "none"])
def extraneous(S):
    """extraneous slots are compared on request only"""
    opt = Opt(unchanged=S.flag("unchanged"), extraneous=S.flag("extraneous"))
    recs = []
    for l in "ab":
        kw = {"a": S.int(l + ".a")}
        k = S.choice(4, l)
        if k & 1:
            kw["x"] = S.int(l + ".x")
        if k & 2:
            kw["xsub"] = Sub(p=S.int(l + ".p"))
        recs.append(Extra(**kw))
    found = verify(S, recs[0], recs[1], opt)
    for d in found:
        if d[1][0] in ("x", "xsub"):
            S.check(opt.extraneous, "an extraneous slot is compared")
            S.witness(d[1][0])
    if not found:
        S.check(recs[0] == recs[1], "equal records")
        S.witness("none")


@harness(witness=["deep", "end"])
def with_collections(S):
    """lists and dicts in slots, next to other slots"""
    opt = Opt(unchanged=S.flag("unchanged"))
    recs = []
    kind = S.choice(3, "kind")
    for l in "ab":
        kw = {"a": S.int(l + ".a")}
        n = S.choice(4, l + ".n")
        if n:
            if kind == 0:
                kw["nums"] = [S.int(l + ".i") for i in range(n - 1)]
            elif kind == 1:
                kw["subs"] = [Sub(p=S.int(l + ".i")) for i in range(n - 1)]
            else:
                kw["map"] = dict((k, Sub(p=S.int(l + ".i")))
                                 for k in "xy"[:n - 1])
        recs.append(Lists(**kw))
    found = verify(S, recs[0], recs[1], opt, fuzzy_match=False)
    if not opt.unchanged and kind != 2:
        if recs[0] == recs[1]:
            S.check(not found, "equal records have no differences")
    if any(len(d[1]) > 1 or len(d[2]) > 1 for d in found):
        S.witness("deep")
    S.witness("end")


@harness(witness=["same", "differs"])
def ducks(S):
    """objects that are no records compare like the record they resemble"""
    opt = Opt(unchanged=S.flag("unchanged"))
    a, b = {}, {}
    for d in a, b:
        put(S, d, "a", [None])
        put(S, d, "c", [7])
    rec = Flat(**a)
    twin = Flat(**b)
    kw = dict(opt.kwargs(), duck_type=True)
    expected = triples(diff_iter(rec, twin, **opt.kwargs()))
    how = S.choice(3, "how")
    if how == 0:
        other = Alien(**b)
    elif how == 1:
        other = Alien(extra=1, **b)
    else:
        other = type("FlatToo", (Record,), {
            "a": Property(), "c": Property(), "d": Property()})(**b)
    found = triples(diff_iter(rec, other, **kw))
    S.check(bag(found) == bag(expected), delta(found, expected))
    o = S.outcome(lambda: list(diff_iter(rec, other)))
    S.check(o.raised(TypeError), "other types are compared only on request")
    S.witness("differs" if any(d[0] != "none" for d in found) else "same")


@harness(witness=["end"])
def duck_nested(S):
    """duck typing applies to what is within, too"""
    n, m = S.int("n"), S.int("m")
    a = Outer(a=n, sub=Sub(p=n), deep=Deep(sub=Sub(p=1, q=2)))
    b = Alien(a=m, sub=Alien(p=m), deep=Alien(sub=AlienSub(m)))
    twin = Outer(a=m, sub=Sub(p=m), deep=Deep(sub=Sub(p=m, q=2)))
    found = triples(diff_iter(a, b, duck_type=True))
    expected = triples(diff_iter(a, twin))
    S.check(bag(found) == bag(expected), delta(found, expected))
    S.witness("end")


class AlienSub(object):
    q = 2

    def __init__(self, n):
        self.n = n

    @property
    def p(self):
        return self.n


@harness(witness=["end"])
def type_errors(S):
    """only records of one class are compared"""
    a = S.pick([Flat(a=1), Sub(p=1), Lists(nums=[1])])
    b = S.pick([Outer(a=1), SubSub(p=1), JRec(a=1), Keyed(id=1)])
    o = S.outcome(lambda: list(diff_iter(a, b)))
    S.check(o.raised(TypeError), "records of different classes: %s" %
            o.kind())
    o = S.outcome(lambda: list(diff_iter(b, a)))
    S.check(o.raised(TypeError), "records of different classes: %s" %
            o.kind())
    o = S.outcome(lambda: list(
        diff_iter(a, a, options=DiffOptions(), unchanged=True)))
    S.check(o.raised(exc.DiffOptionsException),
            "options are given in one way")
    S.witness("end")


@harness(witness=["differs", "end"])
def entry_points(S):
    """functions and methods, eager or not, report the same"""
    kw = {"unchanged": S.flag("unchanged")}
    a = Outer(a=S.int("a"), sub=some_sub(S, "a"))
    b = Outer(a=S.int("b"), sub=some_sub(S, "b"))
    expected = triples(diff_iter(a, b, **kw))
    options = DiffOptions(**kw)
    for what, got in (
        ("diff_iter method", a.diff_iter(b, **kw)),
        ("diff_iter with options", diff_iter(a, b, options=options)),
        ("diff", diff(a, b, **kw)),
        ("diff with options", a.diff(b, options=options)),
        ("diff method", a.diff(b, **kw)),
    ):
        S.check(bag(triples(got)) == bag(expected), what)
    d = a.diff(b, **kw)
    S.check(isinstance(d, Diff), "a Diff is returned")
    S.check(d.base_type_name == "Outer" and d.other_type_name == "Outer",
            "names of the types compared")
    S.check(len(d) == len(expected), "number of differences")
    S.check(all(isinstance(x, DiffInfo) for x in d), "of DiffInfo")
    if expected:
        S.witness("differs")
    S.witness("end")


@harness(witness=["differs", "end"])
def json_records(S):
    """JSON records report the same as other records, ready for JSON"""
    kw = {"unchanged": S.flag("unchanged"), "fuzzy_match": False}
    recs = []
    for l in "ab":
        v = {"a": S.int(l + ".a")}
        if S.flag(l + ".sub"):
            v["sub"] = {"p": S.int(l + ".p")}
        if S.flag(l + ".items"):
            v["items"] = [{"p": S.int(l + ".i")}]
        recs.append(JRec(v))
    a, b = recs
    opt = Opt(unchanged=kw["unchanged"])
    expected = Ref(S, opt).compare(a, b)
    d = a.diff(b, **kw)
    S.check(isinstance(d, JsonDiff), "a JsonDiff is returned")
    S.check(all(isinstance(x, JsonDiffInfo) for x in d), "of JsonDiffInfo")
    S.check(bag(triples(d)) == bag(expected), delta(triples(d), expected))
    S.check(bag(triples(a.diff_iter(b, **kw))) == bag(expected), "diff_iter")
    S.check(bag(triples(diff_iter(a, b, **kw))) == bag(expected), "function")
    out = d.json_data()
    S.check(bag([(x["diff_type"], tuple(x["base"]), tuple(x["other"]))
                 for x in out]) == bag(expected), "JSON of the differences")
    if expected:
        S.witness("differs")
    S.witness("end")


@harness(witness=["end"])
def one_level_of_keys(S):
    """primary keys do not matter when two records are compared directly"""
    a = Keyed(id=S.int("i"), x=S.int("x"))
    b = Keyed(id=S.int("i"), x=S.int("x"))
    verify(S, a, b, Opt(unchanged=S.flag("unchanged")))
    S.witness("end")


@harness(witness=["same", "differs"])
def any_kind(S):
    """a slot of any kind, whichever way it is declared"""
    field = Field(S, alphabet=u"aB1")
    opt = Opt(unchanged=S.flag("unchanged"), extraneous=S.flag("extraneous?"))
    a, b = field.build(S, ".a")[0], field.build(S, ".b")[0]
    found = verify(S, a, b, opt)
    if not opt.unchanged and not (opt.extraneous and field.extraneous):
        S.check((not found) == (a == b),
                "no differences exactly when the records are equal")
    S.witness("differs" if found else "same")
