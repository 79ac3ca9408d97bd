"""Multi field selectors against the set of locations they stand for."""
from sx.api import harness, MISSING
from normalize import (Record, Property, FieldSelector, MultiFieldSelector)
from normalize.coll import DictCollection, ListCollection, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.selector import FieldSelectorException
import normalize.exc as exc

OUTSIDE = ("more than three members, members longer than four components, "
           "more than two items per collection (three in the thorough tier); "
           "selections that leave out required slots, that go below values "
           "that are no records or collections, or that have both negative "
           "and other indices of one list")


class Leaf(Record):
    name = Property()
    age = Property()


class Box(ListCollection):
    itemtype = Leaf


class Mid(Record):
    leaf = Property(isa=Leaf)
    items = ListProperty(of=Leaf)
    note = Property()


class Top(Record):
    name = Property()
    leaf = Property(isa=Leaf)
    items = ListProperty(of=Leaf)
    map = DictProperty(of=Leaf)
    mids = ListProperty(of=Mid)
    box = Property(isa=Box)
    plain = Property()
    pdict = Property()


# --- the set of locations ----------------------------------------------

def fits(m, loc):
    """the member component covers that of the location"""
    return m is None or (loc is not None and S_eq(m, loc))


def S_eq(a, b):
    return (isinstance(a, str) == isinstance(b, str)) and bool(a == b)


def covers(m, loc):
    return len(m) <= len(loc) and all(fits(a, b) for a, b in zip(m, loc))


def covered(ms, loc):
    return any(covers(m, loc) for m in ms)


def overlaps(ms, loc):
    return any(all(fits(a, b) for a, b in zip(m, loc)) for m in ms)


def clash(ms):
    """a wildcard and something else at one level"""
    heads = [m[0] if m else None for m in ms]
    if not heads:
        return False
    if any(h is None for h in heads) and any(h is not None for h in heads):
        return True
    done = []
    for h in heads:
        if any(h is d or (h is not None and d is not None and S_eq(h, d))
               for d in done):
            continue
        done.append(h)
        mine = [m for m in ms if m and (
            m[0] is h or (m[0] is not None and h is not None
                          and S_eq(m[0], h)))]
        if h is None and not all(ms):
            continue
        if any(len(m) == 1 for m in mine):
            # all of it is selected, the rest does not matter
            continue
        if clash([m[1:] for m in mine]):
            return True
    return False


def comp(S, label, wild=True):
    k = S.choice(3 if wild else 2, label)
    if k == 0:
        return S.pick(["a", "b"], label + ".name")
    if k == 1:
        return S.int(label + ".idx", 0, 3)
    return None


def member(S, maxlen, label="member"):
    return [comp(S, label + ".c") for _ in range(
        S.choice(maxlen, label + ".len") + 1)]


def made(S, ms):
    """a multi field selector, in one of the ways to write it"""
    how = S.choice(4, "ctor")
    if how == 0:
        return MultiFieldSelector(*ms)
    if how == 1:
        return MultiFieldSelector(*[FieldSelector(m) for m in ms])
    if how == 2:
        return MultiFieldSelector(*[tuple(m) for m in reversed(ms + ms)])
    return MultiFieldSelector(MultiFieldSelector(*ms[:1]), *ms[1:])


def same_members(S, a, b, what):
    for x in a:
        S.check(any(len(x) == len(y) and all(
            (p is None and q is None) or
            (p is not None and q is not None and S_eq(p, q))
            for p, q in zip(x, y)) for y in b), what)


@harness(n=(2, 3), maxlen=(2, 2), witness=["in", "notin", "part", "none"])
def membership(S):
    ms = [member(S, S.p["maxlen"]) for _ in range(
        S.choice(S.p["n"], "n") + 1)]
    S.assume(not clash(ms))
    mfs = MultiFieldSelector(*ms)
    loc = [comp(S, "loc.c") for _ in range(S.choice(3, "loc.len") + 1)]
    # that an item of every item is the collection itself is not a question
    # of where things are
    S.assume(not any(m[-1] is None and covers(m[:-1], loc) and
                     len(m) == len(loc) + 1 or
                     m[-2:] == [None, None] for m in ms))
    want = covered(ms, loc)
    S.check((FieldSelector(loc) in mfs) == want, "in: selector")
    S.check((tuple(loc) in mfs) == want, "in: tuple")
    S.check((loc in mfs) == want, "in: list")
    S.check((loc[0] in mfs) == overlaps(ms, loc[:1])
            if loc[0] is not None or any(m[0] is None for m in ms)
            else (None in mfs) is False, "in: component")
    S.check(any in mfs, "any in a selector that is not empty")
    S.check(bool(mfs), "a selector with members is not empty")
    sub = mfs[FieldSelector(loc)]
    for x in (mfs[tuple(loc)], mfs[list(loc)]):
        S.check((x is None) == (sub is None), "subscripts disagree")
    step = mfs
    for c in loc:
        if step is None:
            break
        step = step[c]
    S.check((step is None) == (sub is None),
            "subscripting in one go and step by step disagree")
    if want:
        S.check(sub is not None and sub.complete, "[]: not complete")
        S.check(step.complete, "[][]: not complete")
        S.witness("in")
    elif not overlaps(ms, loc):
        S.check(sub is None, "[]: something where nothing is selected")
        S.witness("none")
    else:
        S.check(sub is not None, "[]: nothing where something is selected")
        S.check(not sub.complete, "[]: complete")
        rest = [m[len(loc):] for m in ms if len(m) > len(loc) and
                all(fits(a, b) for a, b in zip(m, loc))]
        same_members(S, rest, [x.selectors for x in sub],
                     "[]: a member is lost")
        same_members(S, [x.selectors for x in step], rest,
                     "[]: a member is invented")
        S.witness("part")
    if not want:
        S.witness("notin")


@harness(n=(2, 3), maxlen=(2, 2), witness=["end", "clash"])
def construction(S):
    """the order, the form and repetition of the members do not matter"""
    ms = [member(S, S.p["maxlen"]) for _ in range(S.choice(S.p["n"] + 1,
                                                           "n"))]
    o = S.outcome(lambda: made(S, ms))
    if clash(ms):
        S.check(o.raised(ValueError), "clashing members: " + o.kind())
        S.witness("clash")
        return
    S.check(o.ok, "constructor raises " + o.kind())
    mfs = o.value
    out = [x.selectors for x in mfs]
    # each is one of those given, and those missing are covered by others
    same_members(S, out, ms, "a member is invented")
    for m in ms:
        S.check(covered(out, m), "a member is lost")
    for n, x in enumerate(out):
        for k, y in enumerate(out):
            S.check(n == k or not covers(x, y) or (None in x) != (None in y),
                    "a member is repeated or covered by another")
    S.check(bool(mfs) == bool(ms), "emptiness")
    S.check((any in mfs) == bool(ms), "any in")
    again = MultiFieldSelector(*mfs)
    back = [x.selectors for x in again]
    S.check(len(out) == len(back), "made from its members: number")
    same_members(S, out, back, "made from its members")
    text = MultiFieldSelector.from_path(mfs.path)
    back = [x.selectors for x in text]
    S.check(len(out) == len(back), "made from its path: number")
    same_members(S, out, back, "made from its path")
    S.witness("end")


# --- applying ----------------------------------------------------------

def tree(S, x):
    if isinstance(x, DictCollection):
        return ["dict", S.type(x).__name__,
                dict((k, tree(S, v)) for k, v in x.items())]
    if isinstance(x, ListCollection):
        return ["list", S.type(x).__name__, [tree(S, v) for v in x]]
    if isinstance(x, Record):
        d = {}
        for name in S.type(x).properties:
            v = S.get(x, name)
            if v is not MISSING:
                d[name] = tree(S, v)
        return ["rec", S.type(x).__name__, d]
    if isinstance(x, list):
        return ["list", "list", [tree(S, v) for v in x]]
    if isinstance(x, dict):
        return ["dict", "dict", dict((k, tree(S, v)) for k, v in x.items())]
    return x


def select(t, ms):
    """the selected part of a tree"""
    if any(not m for m in ms) or not isinstance(t, list):
        return t
    if any(m[0] is None for m in ms):
        if all(len(m) == 1 for m in ms):
            return t
        rest = [m[1:] for m in ms]
        if t[0] == "list":
            return [t[0], t[1], [select(x, rest) for x in t[2]]]
        return [t[0], t[1], dict((k, select(x, rest))
                                 for k, x in t[2].items())]
    if t[0] == "list":
        out = []
        for k in range(len(t[2])):
            rest = [m[1:] for m in ms if bool(m[0] == k)]
            if rest:
                out.append(select(t[2][k], rest))
        return [t[0], t[1], out]
    d = {}
    for k in t[2]:
        rest = [m[1:] for m in ms if S_eq(m[0], k)]
        if rest and (isinstance(t[2][k], list) or not all(rest)):
            d[k] = select(t[2][k], rest)
    return [t[0], t[1], d]


def leaf(S):
    d = {}
    if S.flag("leaf.name"):
        d["name"] = S.int("n")
    if S.flag("leaf.age"):
        d["age"] = S.pick([None, 7], "age")
    return Leaf(d)


def leaf1(S):
    return Leaf(name=S.int("n"), age=S.int("a"))


AREAS = ["leaf", "items", "map", "mids", "box", "plain", "pdict"]


def build(S, area, nmax, label=""):
    top = Top(name=S.int(label + "topname"))
    n = S.choice(nmax + 2, label + "state") - 1
    if n < 0:
        return top
    if area == "leaf":
        top.leaf = leaf(S)
    elif area in ("items", "box", "plain"):
        setattr(top, area, [leaf(S) if k == 0 else leaf1(S)
                            for k in range(n)])
    elif area in ("map", "pdict"):
        setattr(top, area, dict(
            (k, leaf(S) if k == "x" else leaf1(S))
            for k in ["x", "y", "z"][:n]))
    else:
        top.mids = [Mid(leaf=leaf1(S), note=S.int("note")) for _ in range(n)]
        if n:
            top.mids[0].items = [leaf1(S) for _ in range(
                S.choice(2, "subitems"))]
    return top


def idx(S):
    return S.int("idx", 0, 3)


def selection(S, area):
    """members that select parts of the area"""
    if area == "leaf":
        ms = S.pick([[["leaf"]], [["leaf", "name"]], [["leaf", "age"]],
                     [["leaf", "name"], ["leaf", "age"]],
                     [["leaf", "age"], ["name"]]], "sel")
    elif area in ("items", "box", "plain"):
        ms = S.pick([
            [[area]], [[area, None]], [[area, None, "name"]],
            [[area, None, "name"], [area, None, "age"]],
            [[area, idx]], [[area, idx, "name"]], [[area, idx], [area, idx]],
            [[area, idx], [area, idx, "age"]],
            [[area, idx, "age"], [area, idx, "name"], ["name"]]], "sel")
    elif area in ("map", "pdict"):
        ms = S.pick([
            [[area]], [[area, None]], [[area, None, "age"]],
            [[area, "x"]], [[area, "x", "name"], [area, "y"]],
            [[area, "w"]], [[area, "x"], [area, "y"]],
            [[area, "x", "age"], [area, "x", "name"]]], "sel")
    else:
        ms = S.pick([
            [["mids", None, "leaf"]], [["mids", None, "leaf", "age"]],
            [["mids", None, "items", None, "name"]],
            [["mids", idx, "items", idx, "name"]],
            [["mids", None, "items", 0], ["mids", None, "note"]],
            [["mids", idx, "leaf", "name"], ["mids", idx, "note"]]], "sel")
    return [[c(S) if c is idx else c for c in m] for m in ms]


def parts(S, x):
    """the records and collections within"""
    out = []
    if isinstance(x, (list, ListCollection)):
        out.append(x)
        for v in x:
            out.extend(parts(S, v))
    elif isinstance(x, (dict, DictCollection)):
        out.append(x)
        for v in x.values():
            out.extend(parts(S, v))
    elif isinstance(x, Record):
        out.append(x)
        for name in S.type(x).properties:
            v = S.get(x, name)
            if v is not MISSING:
                out.extend(parts(S, v))
    return out


@harness(nmax=(2, 3), witness=["end"])
def get(S):
    area = S.pick(AREAS, "area")
    top = build(S, area, S.p["nmax"])
    ms = selection(S, area)
    mfs = MultiFieldSelector(*ms)
    before = tree(S, top)
    got = mfs.get(top)
    S.check(S.type(got) is Top, "get: another type")
    S.check(S.eq(tree(S, got), select(before, ms)), "get: not what was "
            "selected")
    S.check(S.eq(tree(S, top), before), "get changes the record")
    mine = parts(S, top)
    S.check(not any(x is y for x in parts(S, got) for y in mine),
            "get: shares parts with the record")
    S.witness("end")


def locations(t, m):
    """every (holder, component) that the member leads to; holder None where
    the way is not there"""
    if not isinstance(t, list):
        return [(None, None)]
    c = m[0]
    if c is None:
        ks = list(t[2]) if t[0] == "dict" else list(range(len(t[2])))
    else:
        ks = [c]
    out = []
    for k in ks:
        there = (0 <= k < len(t[2])) if t[0] == "list" else k in t[2]
        if len(m) == 1:
            out.append((t, k) if there else (None, None))
        elif there:
            out.extend(locations(t[2][k], m[1:]))
        else:
            out.append((None, None))
    return out


@harness(nmax=(3, 4), nsel=(2, 3), witness=["all there", "some there"])
def from_the_end(S):
    """negative indices of a list"""
    area = S.pick(["items", "box", "plain"], "area")
    n = S.choice(S.p["nmax"] + 1, "n")
    vals = [S.int("v%d" % i) for i in range(n)]

    def fresh(vals):
        return Top({area: [Leaf(name=v, age=9) for v in vals]})

    top = fresh(vals)
    idxs = []
    for i in range(S.choice(S.p["nsel"], "nsel") + 1):
        k = S.int("k%d" % i, -4, -1)
        S.assume(not any(k == j for j in idxs))
        idxs.append(k)
    sub = S.flag("sub")
    mfs = MultiFieldSelector(*[[area, k] + (["age"] if sub else [])
                               for k in idxs])
    chosen = [any(i - n == k for k in idxs) for i in range(n)]
    got = getattr(mfs.get(top), area)
    want = [(MISSING if sub else vals[i], 9) for i in range(n) if chosen[i]]
    S.check(len(got) == len(want), "get: number of items")
    for g, (name, age) in zip(got, want):
        S.check(S.get(g, "age") == age, "get: another item")
        S.check(S.get(g, "name") is name if name is MISSING else
                S.get(g, "name") == name, "get: another item")
    there = all(-k <= n for k in idxs)
    force = S.flag("force")
    if not there and not force:
        o = S.outcome(lambda: mfs.delete(top))
        S.check(o.raised(FieldSelectorException),
                "delete of what is not there: " + o.kind())
        S.check(S.eq(tree(S, top), tree(S, fresh(vals))),
                "refused delete changes the record")
        S.witness("some there")
        return
    mfs.delete(top, force=force)
    left = getattr(top, area)
    want = [(vals[i], MISSING if chosen[i] else 9)
            for i in range(n) if sub or not chosen[i]]
    S.check(len(left) == len(want), "delete: number of items left")
    for g, (name, age) in zip(left, want):
        S.check(S.get(g, "name") == name, "delete: another item")
        S.check((S.get(g, "age") is MISSING) == (age is MISSING),
                "delete: another item")
    if there:
        top, other = fresh(vals), fresh([S.int("w%d" % i) for i in range(n)])
        mfs.patch(top, other)
        for i, g in enumerate(getattr(top, area)):
            S.check(g.name == (getattr(other, area)[i].name
                               if chosen[i] and not sub else vals[i]),
                    "patch: another item")
        S.witness("all there")


@harness(nmax=(2, 3), witness=["deleted", "missing"])
def delete(S):
    area = S.pick(AREAS, "area")
    top = build(S, area, S.p["nmax"])
    ms = selection(S, area)
    mfs = MultiFieldSelector(*ms)
    before = tree(S, top)
    force = S.flag("force")
    o = S.outcome(lambda: mfs.delete(top, force=True) if force
                  else mfs.delete(top))
    gone = []
    missing = False
    for fs in mfs:
        m = fs.selectors
        spots = locations(before, m)
        if not nested_ok(before, m):
            missing = True
        gone.extend(s for s in spots if s[0] is not None)
    if missing and not force:
        S.check(o.raised(FieldSelectorException), "delete of what is not "
                "there: " + o.kind())
        S.check(S.eq(tree(S, top), before), "refused delete changes the "
                "record")
        S.witness("missing")
        return
    S.check(o.ok, "delete raises " + o.kind())
    for t, k in gone:
        if t[0] == "list":
            t[2][k] = MISSING
        else:
            t[2].pop(k, None)
    S.check(S.eq(tree(S, top), sweep(before)), "delete: not what was "
            "selected")
    S.witness("deleted")


def nested_ok(t, m):
    """get with this member succeeds: some item has it, at each level"""
    if not isinstance(t, list):
        return False
    c = m[0]
    if c is None:
        kids = list(t[2].values()) if t[0] == "dict" else list(t[2])
        if len(m) == 1 or not kids:
            return True
        return any(nested_ok(x, m[1:]) for x in kids)
    there = (0 <= c < len(t[2])) if t[0] == "list" else c in t[2]
    return bool(there) and (len(m) == 1 or nested_ok(t[2][c], m[1:]))


def sweep(t):
    if not isinstance(t, list):
        return t
    if t[0] == "list":
        return [t[0], t[1], [sweep(x) for x in t[2] if x is not MISSING]]
    return [t[0], t[1], dict((k, sweep(v)) for k, v in t[2].items())]


@harness(nmax=(1, 2), witness=["patched", "failed"])
def patch(S):
    """get of the selected fields of source and patched target agree, and the
    other fields of the target are as before"""
    area = S.pick(AREAS, "area")
    target = build(S, area, S.p["nmax"])
    source = build(S, area, S.p["nmax"], "source.")
    ms = selection(S, area)
    mfs = MultiFieldSelector(*ms)
    t0, s0 = tree(S, target), tree(S, source)
    copy = S.flag("copy")
    o = S.outcome(lambda: mfs.patch(target, source, copy=True) if copy
                  else mfs.patch(target, source))
    S.check(S.eq(tree(S, source), s0), "patch changes the source")
    t1 = tree(S, target)
    # explicitly named items that are not there cannot be copied
    absent = [m for m in ms if names_absent_item(s0, m)]
    if absent:
        S.check(o.ok or o.raised(FieldSelectorException),
                "patch raises " + o.kind())
        S.check(o.ok or S.eq(t1, t0), "refused patch changes the target")
        S.witness("failed")
        return
    if not o.ok:
        # items that would leave a gap in the list of the target
        S.check(o.raised(ValueError, FieldSelectorException) and
                any(gap(t0, m) for m in ms), "patch raises " + o.kind())
        S.witness("failed")
        return
    S.check(agree(S, t1, s0, t0, ms), "patch: not the selected values")
    if copy:
        theirs = parts(S, source)
        S.check(not any(x is y for x in parts(S, target) for y in theirs),
                "patch with copy: shares parts with the source")
    S.witness("patched")


def names_absent_item(t, m):
    for n, c in enumerate(m):
        if not isinstance(t, list):
            return False
        if c is None:
            kids = list(t[2].values()) if t[0] == "dict" else t[2]
            return any(names_absent_item(x, m[n + 1:]) for x in kids)
        if t[0] == "list":
            if not 0 <= c < len(t[2]):
                return True
        elif c not in t[2]:
            return t[0] == "dict"
        t = t[2][c]
    return False


def gap(t, m):
    """the index is past the end of the list (which might be absent)"""
    for n, c in enumerate(m):
        if not isinstance(t, list):
            return False
        if c is None:
            kids = list(t[2].values()) if t[0] == "dict" else t[2]
            return not kids or any(gap(x, m[n + 1:]) for x in kids)
        if t[0] == "list":
            if not 0 <= c < len(t[2]):
                return True
        elif c not in t[2]:
            return True
        t = t[2][c]
    return False


def agree(S, new, src, old, ms):
    """new has what src has at the selected locations, and what old has at the
    others; src or old may be missing (MISSING)"""
    if any(not m for m in ms):
        return same_or_missing(S, new, src)
    if not ms:
        return same_or_missing(S, new, old)
    nodes = [x for x in (new, src, old) if isinstance(x, list)]
    if not isinstance(new, list):
        # nothing there: nothing may have been selected in src either
        return new is MISSING and old is MISSING and nothing(src, ms)
    kind = new[0]
    if any(x[0] != kind for x in nodes):
        return False
    if any(m[0] is None for m in ms) and all(len(m) == 1 for m in ms):
        # all of the contents
        sub = src[2] if isinstance(src, list) else type(new[2])()
        return S.eq(new[2], sub)
    if kind == "list":
        ks = range(max(len(x[2]) for x in nodes))
    else:
        ks = []
        for x in nodes:
            ks.extend(k for k in x[2] if k not in ks)
    for k in ks:
        rest = [m[1:] for m in ms if m[0] is None or S_eq(m[0], k)]
        n, s, d = [child(x, k) for x in (new, src, old)]
        if not agree(S, n, s, d, rest):
            return False
    return True


def nothing(src, ms):
    if src is MISSING:
        return True
    if any(not m for m in ms) or not isinstance(src, list):
        return False
    ks = range(len(src[2])) if src[0] == "list" else list(src[2])
    for k in ks:
        rest = [m[1:] for m in ms if m[0] is None or S_eq(m[0], k)]
        if rest and not nothing(child(src, k), rest):
            return False
    return True


def child(x, k):
    if not isinstance(x, list):
        return MISSING
    if x[0] == "list":
        return x[2][k] if k < len(x[2]) else MISSING
    return x[2].get(k, MISSING)


def same_or_missing(S, a, b):
    if a is MISSING or b is MISSING:
        return a is b
    return S.eq(a, b)


@harness(witness=["end"])
def patch_back(S):
    """patching with what get selected changes nothing; deleting and then
    patching restores the record"""
    area = S.pick(AREAS, "area")
    top = build(S, area, 2)
    ms = selection(S, area)
    S.assume(not any(names_absent_item(tree(S, top), m) for m in ms))
    ints = any(isinstance(c, int) for m in ms for c in m)
    mfs = MultiFieldSelector(*ms)
    before = tree(S, top)
    if not ints:
        part = mfs.get(top)
        o = S.outcome(lambda: mfs.patch(top, part))
        S.check(o.ok, "patch raises " + o.kind())
        S.check(S.eq(tree(S, top), before), "patching what was selected")
    mfs.patch(top, top)
    S.check(S.eq(tree(S, top), before), "patching a record with itself")
    S.witness("end")
