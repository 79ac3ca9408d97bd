"""Diffs as values: their text, their types, their life as record lists."""
import copy
import itertools
from sx.api import harness, MISSING
from normalize import Record, Property, ListProperty, FieldSelector
from normalize.coll import list_of
from normalize.diff import Diff, DiffInfo, DiffOptions, DiffTypes, diff, \
    diff_iter
from normalize.selector import MultiFieldSelector
import normalize.exc as exc

OUTSIDE = ("diffs of more than three differences (four in the thorough "
           "tier), locations deeper than two components, the text of diffs "
           "made with moved=True")


class Item(Record):
    n = Property(isa=int)


class Rec(Record):
    a = Property()
    b = Property(isa=str)
    items = ListProperty(of=Item)
    d = Property()
    ex = Property(extraneous=True)


class Other(Rec):
    pass


class Like(Record):
    a = Property()
    b = Property(isa=str)
    items = ListProperty(of=Item)
    d = Property()


NAMES = {"none": ("UNCHANGED", "==X"), "added": ("ADDED", "+NEW"),
         "removed": ("REMOVED", "-OLD"), "modified": ("MODIFIED", "<>X")}
TYPES = {"none": DiffTypes.NO_CHANGE, "added": DiffTypes.ADDED,
         "removed": DiffTypes.REMOVED, "modified": DiffTypes.MODIFIED,
         "moved": DiffTypes.MOVED}


def location(S, label, few):
    if few:
        return FieldSelector(S.pick([["a"], ["b"], ["items", 0], ["items"],
                                     [S.int(label + ".index", 0, 9)],
                                     [S.str(label + ".key", 1, 1)]], label))
    comps = []
    for n in range(S.choice(2, label + ".len") + 1):
        k = S.choice(3, label + ".kind")
        if k == 0:
            comps.append(S.pick(["a", "items"], label + ".name"))
        elif k == 1:
            comps.append(S.int(label + ".index", 0, 3))
        else:
            comps.append(S.str(label + ".key", 1))
    return FieldSelector(comps)


def expected_text(S, what, diffs):
    """every way of listing the groups"""
    groups = []

    def add(prefix, fs):
        for g in groups:
            if g[0] == prefix:
                g[1].append(fs)
                return
        groups.append((prefix, [fs]))
    for t, base, other in diffs:
        if t == "added":
            add("+NEW", other)
        elif t == "removed":
            add("-OLD", base)
        elif t == "none":
            add("==X", base)
        elif base == other:
            add("<>X", base)
        else:
            add("<->OLD", base)
            add("<+>NEW", other)
    segs = [p + "(" + MultiFieldSelector(*v).path + ")" for p, v in groups]
    head = "<Diff [%s]; %d diff(s)" % (what, len(diffs))
    if not segs:
        return [head + ">"]
    return [head + ": " + "; ".join(p) + ">"
            for p in itertools.permutations(segs)]


@harness(ndiffs=(2, 3), witness=["same", "other", "empty"])
def text(S):
    """the text of a diff shows the number of differences and where they are,
    by kind"""
    diffs = []
    n = S.choice(S.p["ndiffs"] + 1, "n")
    for i in range(n):
        t = S.pick(sorted(NAMES), "type")
        base = location(S, "base", n > 1)
        other = base
        if (i == 0 or t == "modified") and S.flag("elsewhere"):
            other = FieldSelector(["b", S.int("other", 0, 9)]) if n > 1 else \
                location(S, "other", True)
        diffs.append((t, base, other))
    names = ("Rec", "Rec") if S.flag("same") else ("Rec", "Other")
    d = Diff([DiffInfo(diff_type=TYPES[t], base=b, other=o)
              for t, b, o in diffs],
             base_type_name=names[0], other_type_name=names[1])
    o = S.outcome(lambda: str(d))
    S.check(o.ok, "str raises " + o.kind())
    what = "Rec" if names[1] == "Rec" else "Rec vs Other"
    S.check(any(o.value == x for x in expected_text(S, what, diffs)),
            "text of a diff")
    S.check(len(d) == len(diffs), "str changes the diff")
    S.witness("empty" if not diffs else
              "same" if names[1] == "Rec" else "other")


@harness(witness=["equal", "below", "apart"])
def info_text(S):
    """the text of a difference shows its kind and its location"""
    t = S.pick(sorted(NAMES) + ["moved"], "type")
    base, other = location(S, "base", False), location(S, "other", False)
    i = DiffInfo(diff_type=TYPES[t], base=base, other=other)
    o = S.outcome(lambda: str(i))
    S.check(o.ok, "str raises " + o.kind())
    name = {"moved": "MOVED"}.get(t) or NAMES[t][0]
    head = "<DiffInfo: " + name + " "
    if base == other:
        want = base.path
        S.witness("equal")
    elif len(base) > len(other) and base[:len(other)] == other:
        want = base.path
        S.witness("below")
    elif len(other) > len(base) and other[:len(base)] == base:
        want = other.path
        S.witness("below")
    else:
        want = "(" + base.path + "/" + other.path + ")"
        S.witness("apart")
    S.check(o.value == head + want + ">", "text of a difference")


@harness(maxlen=(8, 9), witness=["name", "number", "refused"])
def types(S):
    """a kind of difference may be given by its name or number"""
    k = S.choice(4, "how")
    fs = FieldSelector(["a"])
    if k == 0:
        v = S.str("name", S.p["maxlen"], alphabet="abcdefghijklmnopqrstuvwxyzA")
        want = [TYPES[t] for t in sorted(TYPES) if v == t]
        S.witness("name")
    elif k == 1:
        v = S.int("number")
        want = [TYPES[t] for t, n in (
            ("none", 1), ("added", 2), ("removed", 3), ("modified", 4),
            ("moved", 5)) if v == n]
        S.witness("number")
    elif k == 2:
        v = TYPES[S.pick(sorted(TYPES), "type")]
        want = [v]
    else:
        v = S.pick([None, 2.5, [], "ADDED", FieldSelector([]), DiffTypes],
                   "junk")
        want = []
    where = S.flag("assign")
    if where:
        i = DiffInfo(diff_type="none", base=fs, other=fs)
        o = S.outcome(lambda: setattr(i, "diff_type", v))
    else:
        o = S.outcome(lambda: DiffInfo(diff_type=v, base=fs, other=fs))
    S.check(o.ok == bool(want), "kind of difference: " + o.kind())
    if o.ok:
        i = i if where else o.value
        S.check(i.diff_type is want[0], "another kind of difference")
    else:
        S.check(isinstance(o.exc, exc.CoercionError), "raises " + o.kind())
        S.check(not where or i.diff_type is DiffTypes.NO_CHANGE,
                "refused and changed")
        S.witness("refused")


@harness(witness=["refused", "built"])
def parts(S):
    """a difference has a kind and two locations, always"""
    vals = {"diff_type": "added", "base": FieldSelector(["a", S.int("i")]),
            "other": FieldSelector([S.str("s", 1)])}
    give = dict((k, v) for k, v in sorted(vals.items()) if S.flag(k))
    o = S.outcome(lambda: DiffInfo(**give))
    if len(give) < 3:
        S.check(o.raised(exc.PropertyRequired), "incomplete: " + o.kind())
        S.witness("refused")
        return
    S.check(o.ok, "complete: " + o.kind())
    i = o.value
    name = S.pick(["diff_type", "base", "other"], "slot")
    o = S.outcome(lambda: delattr(i, name))
    S.check(o.raised(exc.PropertyRequired), "deleted: " + o.kind())
    if name != "diff_type":
        v = [S.str("x", 1), S.int("y")]
        raw = S.pick([v, tuple(v), FieldSelector(v)], "given")
        o = S.outcome(lambda: setattr(i, name, raw))
        S.check(o.ok, "location: " + o.kind())
        S.check(getattr(i, name) == FieldSelector(v), "location")
        old = getattr(i, name)
        o = S.outcome(lambda: setattr(i, name, S.pick(
            [5, [2.5], [[1]], object()], "bad")))
        S.check(o.raised(exc.CoercionError), "no location: " + o.kind())
        S.check(getattr(i, name) is old, "refused and changed")
    S.witness("built")


def rec(S, label):
    r = Rec()
    if S.flag(label + ".a"):
        r.a = S.int(label + ".a", 0, 3)
    what = S.choice(4, label + ".what")
    if what == 1:
        r.b = S.str(label + ".b", 1, alphabet="xX ")
    elif what == 2:
        r.items = [Item(n=S.int(label + ".n", 0, 3))
                   for _ in range(S.choice(2, label + ".len"))]
    elif what == 3:
        r.ex = S.int(label + ".ex", 0, 3)
    return r


OPTS = [{}, {"ignore_case": True}, {"extraneous": True},
        {"unchanged": True}, {"ignore_ws": False}]


@harness(witness=["end"])
def eager(S):
    """diff, diff_iter, the methods of records and given options agree"""
    x, y = rec(S, "x"), rec(S, "y")
    kw = S.pick(OPTS, "options")
    want = list(diff_iter(x, y, **kw))
    for what, fn in (
        ("diff()", lambda: diff(x, y, **kw)),
        ("Record.diff", lambda: x.diff(y, **kw)),
        ("Record.diff_iter", lambda: x.diff_iter(y, **kw)),
        ("options=", lambda: diff_iter(x, y, options=DiffOptions(**kw))),
        ("diff(options=)", lambda: diff(x, y, options=DiffOptions(**kw))),
    ):
        o = S.outcome(lambda: [i for i in fn()])
        S.check(o.ok, what + " raises " + o.kind())
        S.check(len(o.value) == len(want), what + ": number of differences")
        for a, b in zip(o.value, want):
            S.check(type(a) is DiffInfo and a.diff_type is b.diff_type and
                    a.base == b.base and a.other == b.other,
                    what + ": differences")
            S.check(bool(a == b), what + ": equality of differences")
    if kw:
        for fn in (diff_iter, diff, Rec.diff_iter, Rec.diff):
            o = S.outcome(lambda: list(fn(x, y, options=DiffOptions(), **kw)))
            S.check(o.raised(exc.DiffOptionsException),
                    "options twice: " + o.kind())
    S.witness("end")


@harness(witness=["end"])
def as_value(S):
    """a diff is a record list: it can be compared, copied and pickled"""
    x, y = Rec(a=S.int("a"), b="q"), Rec(a=S.int("a"), d=S.int("d"))
    if S.flag("items"):
        y.items = [Item(n=S.int("n"))]
    kw = {}
    bn = on = "Rec"
    if S.flag("duck"):
        # of another type, or of a sub-class
        kind = S.pick([Like, Other], "other class")
        z = kind(a=y.a, b=None, d=y.d)
        if S.flag("swap"):
            x, z = z, x
            bn, y = kind.__name__, z
        else:
            y, on = z, kind.__name__
        kw["duck_type"] = True
    d = x.diff(y, **kw) if S.flag("method") else diff(x, y, **kw)
    S.check(d.base_type_name == bn and d.other_type_name == on,
            "names of the types")
    S.check((bn if bn == on else "%s vs %s" % (bn, on)) + "]" in str(d),
            "names of the types in the text")
    S.check(isinstance(d, Diff), "not a Diff")
    how = S.pick([copy.copy, copy.deepcopy, 0, 2, 4], "how")
    o = S.outcome(lambda: how(d) if callable(how) else S.pickle(d, how))
    S.check(o.ok, "copying a diff raises " + o.kind())
    c = o.value
    S.check(type(c) is Diff and bool(c == d) and not (c != d), "copy differs")
    S.check(len(c) == len(d), "number of differences")
    S.check(c.base_type_name == bn and c.other_type_name == on,
            "names of the types in the copy")
    for i, j in zip(c, d):
        S.check(i.diff_type == j.diff_type and i.base == j.base and
                i.other == j.other, "differences of the copy")
    S.check(str(c) == str(d), "text of the copy")
    swapped = diff(y, x, **kw)
    S.check(len(swapped) == len(d), "number of differences swapped")
    e = diff(x, y, **kw)
    S.check(bool(e == d) and S.hash(e) == S.hash(d), "equal diffs")
    if len(d):
        e.pop()
        S.check(bool(e != d), "a difference less")
    S.witness("end")
