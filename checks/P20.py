"""Clean-ups before comparison: text, emptiness, and those of properties."""
import unicodedata
import functools
from sx.api import harness, MISSING
from normalize import Record, Property
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.diff import DiffOptions, diff_iter
from normalize.property.coll import DictProperty, ListProperty
from checks.difflib_ref import Opt, Ref, bag, delta, swapped, triples

OUTSIDE = ("strings longer than three characters (four in the thorough tier) "
           "and characters outside the alphabets below; letters whose upper "
           "case depends on what follows or on the language; other kinds of "
           "composed characters")

# letters with case variants, white space of several kinds, a composed
# character, its base letter and its accent, something else
TEXT = u"aA \t\u00a0e\u00e9\u0301E"
SPACES = u"a \t\n\r\u00a0\u2003\x1f"
CASES = u"aAbB1_\u00e9\u00c9"
MARKS = u"e\u0301\u00e9\u0327\u0229x"

class Item(Record):
    s = Property()
    t = Property(isa=str)


class Row(Record):
    id = Property(isa=str)
    s = Property()
    primary_key = [id]


class Slots(Record):
    s = Property()
    t = Property(isa=str)
    item = Property(isa=Item)
    words = ListProperty(of=str)
    plain = Property()
    items = ListProperty(of=Item)
    rows = ListProperty(of=Row)
    map = DictProperty(of=Item)


def collapse(text):
    """white space runs are one space each, and none at the ends"""
    out = u""
    gap = False
    for ch in text:
        if ch.isspace():
            gap = True
        else:
            if gap and len(out):
                out = out + u" "
            gap = False
            out = out + ch
    return out


UPPER = {u"a": u"A", u"b": u"B", u"e": u"E", u"x": u"X",
         u"\u00e9": u"\u00c9", u"\u0229": u"\u0228"}


def upper(text):
    out = u""
    for ch in text:
        for low in UPPER:
            if ch == low:
                ch = UPPER[low]
                break
        out = out + ch
    return out


def flags(S):
    return dict(ignore_ws=S.flag("ignore_ws"),
                ignore_case=S.flag("ignore_case"),
                unicode_normal=S.flag("unicode_normal"))


def cleaner(kw):
    def clean(s):
        if kw["ignore_ws"]:
            s = collapse(s)
        if kw["ignore_case"]:
            s = upper(s)
        if kw["unicode_normal"]:
            s = unicodedata.normalize("NFC", s)
        return s
    return clean


def compared(S, a, b, **kw):
    """is anything different, both ways around"""
    found = list(diff_iter(a, b, **kw))
    back = list(diff_iter(b, a, **kw))
    S.check(bool(found) == bool(back), "depends on the order")
    return triples(found)


@harness(n=(2, 3), witness=["same", "differ"])
def text(S):
    """equal as strings exactly when the clean strings are"""
    kw = flags(S)
    clean = cleaner(kw)
    s = S.str("s", S.p["n"], 0, TEXT)
    t = S.str("t", 2, 0, TEXT)
    found = compared(S, Slots(t=s), Slots(t=t), **kw)
    want = [] if clean(s) == clean(t) else [("modified", ("t",), ("t",))]
    S.check(found == want, "%r" % (found,))
    S.witness("differ" if found else "same")


def one_option(S, alphabet, option, clean):
    s = S.str("s", S.p["n"], 0, alphabet)
    t = S.str("t", S.p["n"], 0, alphabet)
    off = dict(ignore_ws=False, ignore_case=False, unicode_normal=False)
    on = dict(off)
    on[option] = True
    a, b = Slots(s=s), Slots(s=t)
    S.check((not compared(S, a, b, **on)) == (clean(s) == clean(t)),
            "with " + option)
    S.check((not compared(S, a, b, **off)) == (s == t), "without " + option)
    S.witness("end")


@harness(n=(3, 4), witness=["end"])
def white_space(S):
    one_option(S, SPACES, "ignore_ws", collapse)


@harness(n=(2, 3), witness=["end"])
def letter_case(S):
    one_option(S, CASES, "ignore_case", upper)


@harness(n=(2, 3), witness=["end"])
def composition(S):
    one_option(S, MARKS, "unicode_normal",
               lambda s: unicodedata.normalize("NFC", s))


@harness(n=(3, 4), witness=["end"])
def idempotent(S):
    """cleaning up what is clean changes nothing"""
    kw = flags(S)
    o = DiffOptions(**kw)
    s = S.str("s", S.p["n"], 0, TEXT)
    once = o.normalize_val(s)
    S.check(o.normalize_val(once) == once, "a second clean-up")
    S.check(once == cleaner(kw)(s), "cleaned up")
    S.check(S.type(once) is str, "still text")
    n = S.int("n")
    for v in (n, None, True, 1.5, (s,), [s]):
        S.check(o.normalize_val(v) is v or o.normalize_val(v) == v,
                "only text is cleaned up")
    S.witness("end")


@harness(witness=["end"])
def defaults(S):
    """the defaults: white space and composition are ignored, case is not"""
    s, t = S.str("s", 2, 0, TEXT), S.str("t", 2, 0, TEXT)
    kw = dict(ignore_ws=True, ignore_case=False, unicode_normal=True)
    clean = cleaner(kw)
    a, b = Slots(s=s), Slots(s=t)
    S.check((not compared(S, a, b)) == (clean(s) == clean(t)), "defaults")
    S.witness("end")


WHERE = ["slot", "typed", "item", "plain", "tuple", "dict", "record",
         "items", "rows", "map", "keys"]


def placed(where, s):
    """a record with the text in some place"""
    if where == "slot":
        return Slots(s=s)
    if where == "typed":
        return Slots(t=s)
    if where == "item":
        return Slots(words=[s])
    if where == "plain":
        return Slots(plain=[s])
    if where == "tuple":
        return Slots(plain=(s, 1))
    if where == "dict":
        return Slots(plain={"k": s})
    if where == "record":
        return Slots(item=Item(t=s))
    if where == "items":
        return Slots(items=[Item(s=s), Item(s=1)])
    if where == "rows":
        return Slots(rows=[Row(id="k", s=s)])
    if where == "map":
        return Slots(map={"k": Item(t=s)})
    return Slots(rows=[Row(id=s, s="x")])


@harness(n=(1, 2), m=(1, 2), witness=["same", "differ"])
def everywhere(S):
    """text is cleaned up wherever it is"""
    kw = flags(S)
    where = S.pick(WHERE, "where")
    s = S.str("s", S.p["n"], 0, TEXT)
    t = S.str("t", S.p["m"], 0, TEXT)
    clean = cleaner(kw)
    a, b = placed(where, s), placed(where, t)
    found = compared(S, a, b, **kw)
    S.check((not found) == (clean(s) == clean(t)), where)
    opt = Opt(text=clean)
    found = triples(diff_iter(a, b, fuzzy_match=False, **kw))
    expected = Ref(S, opt).compare(a, b)
    S.check(bag(found) == bag(expected), delta(found, expected))
    S.witness("differ" if found else "same")


def value(S, label):
    k = S.choice(11, label)
    if k == 0:
        return S.str(label, 2, 0, u"x \t")
    return [None, 0, False, S.int(label + ".n") if k == 4 else 1, 0.0,
            [], (), {}, b"", "x"][k - 1]


@harness(witness=["same", "differ", "one-sided"])
def empty_slots(S):
    """with ignore_empty_slots, None and empty strings are as good as unset,
    and nothing else is"""
    ws = S.flag("ignore_ws")
    opt = Opt(ignore_empty_slots=S.flag("ignore_empty_slots"),
              unchanged=S.flag("unchanged"), text=collapse if ws else None)
    recs = []
    for l in "ab":
        kw = {}
        if S.flag(l + "?"):
            kw["s"] = value(S, l)
        recs.append(Slots(**kw))
    a, b = recs
    kw = dict(opt.kwargs(), ignore_ws=ws, ignore_case=False,
              unicode_normal=False)
    found = triples(diff_iter(a, b, **kw))
    back = triples(diff_iter(b, a, **kw))
    expected = Ref(S, opt).compare(a, b)
    S.check(bag(found) == bag(expected), delta(found, expected))
    S.check(bag(back) == bag(swapped(found)), delta(back, swapped(found)))
    for k, x, y in found:
        S.witness("one-sided" if k in ("added", "removed") else
                  "same" if k == "none" else "differ")
    if not found:
        S.witness("same")


def nothing_much(S, label):
    """a value with (nearly) nothing within"""
    k = S.choice(13, label)
    s = S.str(label, 1, 0, u"x ")
    return dict([
        {}, {"item": Item()}, {"item": Item(s=s)}, {"item": Item(s=None, t=s)},
        {"words": []}, {"words": [s]}, {"items": []}, {"items": [Item(s=s)]},
        {"items": [Item(), Item(t=s)]}, {"map": {"k": Item(s=s)}},
        {"plain": [s, None]}, {"plain": {"k": s}}, {"s": s}][k])


@harness(witness=["ignored", "reported"])
def empty_within(S):
    """records and collections with nothing but empty slots are not there,
    either"""
    opt = Opt(ignore_empty_slots=True, unchanged=S.flag("unchanged"),
              text=collapse)
    a, b = Slots(**nothing_much(S, "a")), Slots()
    if S.flag("swap"):
        a, b = b, a
    found = triples(diff_iter(a, b, **opt.kwargs()))
    expected = Ref(S, opt).compare(a, b)
    S.check(bag(found) == bag(expected), delta(found, expected))
    if found and not all(k == "none" for k, x, y in found):
        S.witness("reported")
    else:
        S.witness("ignored")


@harness(witness=["same", "differ"])
def empty_in_items(S):
    """empty slots of items neither matter for what is the same"""
    opt = Opt(ignore_empty_slots=True, text=collapse)
    colls = []
    for l in "ab":
        kw = {"t": "k"}
        if S.flag(l + "?"):
            kw["s"] = S.pick([None, "", " ", 0, "x"], l)
        colls.append(list_of(Item)([Item(**kw)]))
    found = triples(diff_iter(colls[0], colls[1], fuzzy_match=False,
                              **opt.kwargs()))
    expected = Ref(S, opt).compare(*colls)
    S.check(bag(found) == bag(expected), delta(found, expected))
    S.witness("differ" if found else "same")


CALLS = []


def parity(v):
    return v % 2


class Cleaned(Record):
    id = Property(compare_as=lambda v: v % 2)
    m = Property(isa=int, compare_as=lambda self, v: v + self.d, default=0)
    z = Property(compare_as=lambda self: self.d)
    w = Property(compare_as=lambda: "constant")
    d = Property(isa=int, default=0)
    n = Property(isa=str, compare_as=lambda v: v[:1])


class Cleaner(object):
    def third(self, v):
        return v % 3

    @classmethod
    def fifth(cls, v):
        return v % 5

    def __call__(self, v):
        return v % 4

    def nothing(self):
        return "constant"


def partly(n, v):
    return v % n


class CleanedBy(Record):
    """whatever can be called does for a clean-up"""
    a = Property(compare_as=Cleaner().third)
    b = Property(compare_as=Cleaner.fifth)
    c = Property(compare_as=Cleaner())
    d = Property(compare_as=Cleaner().nothing)
    e = Property(compare_as=functools.partial(partly, 7))
    f = Property(compare_as=abs)
    g = Property(isa=str, compare_as=str.lower)


class KeyedCleaned(Record):
    id = Property(isa=int, compare_as=parity)
    x = Property(isa=int, compare_as=lambda v: abs(v))
    primary_key = [id]


class NotCalled(Record):
    """a clean-up that fails for what is not a number"""
    v = Property(isa=int, compare_as=lambda v: v + 1)
    o = Property()


class CleanList(ListCollection):
    itemtype = int

    def compare_item_as(self, v):
        return (v + 1) % 3


class CleanDict(DictCollection):
    itemtype = int

    def compare_item_as(self, v):
        return (v + 1) % 3


def exactly(S, a, b, opt, **kw):
    found = triples(diff_iter(a, b, **dict(opt.kwargs(), **kw)))
    back = triples(diff_iter(b, a, **dict(opt.kwargs(), **kw)))
    expected = Ref(S, opt).compare(a, b)
    S.check(bag(found) == bag(expected), delta(found, expected))
    S.check(bag(back) == bag(swapped(found)), delta(back, swapped(found)))
    S.witness("differ" if any(k != "none" for k, x, y in found) else "same")


@harness(witness=["same", "differ"])
def compare_as(S):
    """clean-up functions of properties, with and without arguments"""
    recs = []
    slot = S.pick(["id", "m", "z", "w", "n"], "slot")
    for l in "ab":
        kw = {"d": S.int(l + ".d", -9, 9)}
        if S.flag(l + "?"):
            kw[slot] = (S.str(l, 2, 0, u"xy") if slot == "n" else
                        S.int(l, -99, 99))
        recs.append(Cleaned(**kw))
    exactly(S, recs[0], recs[1], Opt(unchanged=S.flag("unchanged")))


@harness(witness=["same", "differ"])
def compare_as_callables(S):
    slot = S.pick("abcdefg", "slot")
    clean = {"a": lambda v: v % 3, "b": lambda v: v % 5, "c": lambda v: v % 4,
             "d": lambda v: 0, "e": lambda v: v % 7, "f": abs,
             "g": lambda v: v.lower()}[slot]
    vs = [S.str(l, 2, 0, u"aAbB") if slot == "g" else S.int(l, -99, 99)
          for l in "ab"]
    recs = [CleanedBy(**{slot: v}) for v in vs]
    o = S.outcome(lambda: triples(diff_iter(*recs)))
    S.check(o.ok, "clean-up of %s: %s" % (slot, o.kind()))
    same = clean(vs[0]) == clean(vs[1])
    S.check((not o.value) == bool(same), "clean-up of " + slot)
    S.check(len(o.value) <= 1, "number of differences")
    S.witness("same" if same else "differ")


@harness(witness=["same", "differ"])
def compare_as_in_items(S):
    """they apply to the items of collections, too"""
    what = S.pick(["keyed", "all", "CleanList", "CleanDict"], "what")
    opt = Opt(unchanged=S.flag("unchanged"))
    colls = []
    for l in "ab":
        n = [S.int(l, -9, 9) for _ in range(S.choice(2, l + ".n") + 1)]
        if what == "keyed":
            v = list_of(KeyedCleaned)([
                KeyedCleaned(id=i, x=S.int(l + ".x", -9, 9)) for i in n])
        elif what == "all":
            v = list_of(NotCalled)([
                NotCalled(v=i) if S.flag(l + "?") else NotCalled(o=i)
                for i in n])
        elif what == "CleanList":
            v = CleanList(n)
        else:
            v = CleanDict(dict(zip("pq", n)))
        colls.append(v)
    exactly(S, colls[0], colls[1], opt, fuzzy_match=False)


class Hooks(DiffOptions):
    """a custom comparison: small numbers are as good as nothing, and numbers
    are compared by their tens"""
    def normalize_val(self, value=DiffOptions._nothing):
        value = super(Hooks, self).normalize_val(value)
        if isinstance(value, int):
            if value < 3:
                return self._nothing
            return value // 10
        return value


class SlotHooks(DiffOptions):
    def normalize_slot(self, value=DiffOptions._nothing, prop=None):
        if prop.name == "s" and value is self._nothing:
            return 7
        return super(SlotHooks, self).normalize_slot(value, prop)


class EqualHooks(DiffOptions):
    def items_equal(self, a, b):
        return abs(a - b) < 5


@harness(witness=["hooks", "slot", "equal"])
def hooks(S):
    """the functions of custom options are used for both sides"""
    n, m = S.int("n", 0, 99), S.int("m", 0, 99)
    which = S.choice(3, "hooks")
    there = S.flag("there")
    a, b = Slots(s=n), Slots(s=m) if there else Slots()
    if which == 0:
        o = Hooks()
        x = None if n < 3 else n // 10
        y = None if not there or m < 3 else m // 10
        want = ([] if x is None and y is None else ["added"] if x is None else
                ["removed"] if y is None else [] if x == y else ["modified"])
        S.witness("hooks")
    elif which == 1:
        o = SlotHooks()
        want = [] if n == (m if there else 7) else ["modified"]
        S.witness("slot")
    else:
        o = EqualHooks()
        want = (["removed"] if not there else
                [] if abs(n - m) < 5 else ["modified"])
        S.witness("equal")
    found = [k for k, x, y in triples(diff_iter(a, b, options=o))]
    S.check(found == want, "%r" % (found,))
