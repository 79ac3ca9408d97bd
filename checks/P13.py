"""Field selectors against a plain model of the data structure they are
applied to."""
from sx.api import harness, MISSING
from normalize import Record, Property, FieldSelector
from normalize.coll import (Collection, DictCollection, ListCollection,
                            dict_of, list_of)
from normalize.property import ROProperty, LazyProperty
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.types import IntProperty
from normalize.selector import FieldSelectorException
import normalize.exc as exc

OUTSIDE = ("structures with more than two items per collection (three in "
           "the thorough tier), paths longer than four components, user "
           "classes that define their own item or attribute access")


class Leaf(Record):
    name = Property()
    age = Property(isa=int)


class Req(Record):
    id = Property(isa=int, required=True)
    name = Property()


class Box(ListCollection):
    itemtype = Leaf
    title = Property(isa=str)


class Chest(DictCollection):
    itemtype = Leaf


class Mid(Record):
    name = Property()
    leaf = Property(isa=Leaf)
    items = ListProperty(of=Leaf)


class Top(Record):
    name = Property()
    age = Property(isa=int)
    fixed = ROProperty()
    leaf = Property(isa=Leaf)
    req = Property(isa=Req)
    items = ListProperty(of=Leaf)
    reqs = ListProperty(of=Req)
    map = DictProperty(of=Leaf)
    box = Property(isa=Box)
    chest = Property(isa=Chest)
    mid = Property(isa=Mid)
    mids = ListProperty(of=Mid)
    midmap = DictProperty(of=Mid)
    nums = ListProperty(of=int)
    plain = Property()


class Pair(Record):
    """one slot of two possible types"""
    either = Property(isa=(Leaf, Req))
    loose = Property()


# --- the model ---------------------------------------------------------

def tree(S, x):
    if isinstance(x, Record):
        t = S.type(x)
        d = {}
        for name in t.properties:
            v = S.get(x, name)
            if v is not MISSING:
                d[name] = tree(S, v)
        if isinstance(x, DictCollection):
            return ["dict", t.__name__, d,
                    dict((k, tree(S, v)) for k, v in x.items())]
        if isinstance(x, ListCollection):
            return ["list", t.__name__, d, [tree(S, v) for v in x]]
        return ["rec", t.__name__, d]
    if isinstance(x, list):
        return ["list", "list", {}, [tree(S, v) for v in x]]
    if isinstance(x, dict):
        return ["dict", "dict", {},
                dict((k, tree(S, v)) for k, v in x.items())]
    return x


class Missing(Exception):
    pass


def node(t):
    return isinstance(t, list)


def at(t, c):
    """the child of a tree node that a component leads to"""
    if not node(t):
        raise Missing()
    if t[0] == "rec" or (t[0] == "list" and isinstance(c, str)):
        if c not in t[2]:
            raise Missing()
        return t[2][c]
    if t[0] == "dict":
        if c not in t[3]:
            raise Missing()
        return t[3][c]
    if not -len(t[3]) <= c < len(t[3]):
        raise Missing()
    return t[3][c]


def store(t, c, v):
    if t[0] == "rec" or (t[0] == "list" and isinstance(c, str)):
        t[2][c] = v
    elif t[0] == "dict":
        t[3][c] = v
    else:
        at(t, c)
        t[3][c] = v


def remove(t, c):
    at(t, c)
    if t[0] == "rec" or (t[0] == "list" and isinstance(c, str)):
        del t[2][c]
    else:
        del t[3][c]


def kids(t):
    return list(t[3].values()) if t[0] == "dict" else list(t[3])


def follow(t, path):
    for c in path:
        t = at(t, c)
    return t


# --- inputs ------------------------------------------------------------

def leaf(S):
    d = {}
    if S.flag("leaf.name"):
        d["name"] = S.int("leafname")
    if S.flag("leaf.age"):
        d["age"] = S.int("leafage")
    return Leaf(d)


def leaf1(S):
    return Leaf(name=S.int("leafname"), age=S.int("leafage"))


def key(S, label="key"):
    return S.str(label, 1, 1)


def keyed(S, n, make):
    d = {}
    for _ in range(n):
        d[key(S)] = make()
    return d


def req(S):
    return Req(id=S.int("id"))


def make(S, slot, nmax):
    """a record with the slot in some state; whatever else it has set is not
    to be touched"""
    top = Top(name="nm", fixed="fx")
    how = S.choice(nmax + 2, "state") - 1
    if how < 0:
        return top
    if slot == "leaf":
        top.leaf = leaf(S)
    elif slot == "req":
        top.req = req(S)
    elif slot == "items":
        top.items = [leaf1(S) for _ in range(how)]
    elif slot == "reqs":
        top.reqs = [req(S) for _ in range(how)]
    elif slot == "map":
        top.map = keyed(S, how, lambda: leaf1(S))
    elif slot == "box":
        top.box = Box([leaf1(S) for _ in range(how)], title="t")
    elif slot == "chest":
        top.chest = Chest(keyed(S, how, lambda: leaf1(S)))
    elif slot == "mid":
        top.mid = Mid()
        if how:
            top.mid.leaf = leaf1(S)
            top.mid.items = [leaf1(S) for _ in range(how - 1)]
    elif slot == "mids":
        top.mids = [Mid(name=S.int("midname"), leaf=leaf1(S))
                    for _ in range(how)]
    elif slot == "midmap":
        top.midmap = keyed(S, how, lambda: Mid(leaf=leaf1(S)))
    elif slot == "nums":
        top.nums = [S.int("num") for _ in range(how)]
    elif slot == "age":
        top.age = S.int("age")
    elif slot == "name":
        top.name = S.pick([None, 0, "", False, "nm"], "held")
    elif slot == "plainlist":
        top.plain = [leaf1(S) for _ in range(how)]
    elif slot == "plaindict":
        top.plain = keyed(S, how, lambda: leaf1(S))
    return top


I, K = "<index>", "<key>"

PATHS = [
    ("name",), ("age",), ("fixed",), ("bogus",),
    ("leaf",), ("leaf", "name"), ("leaf", "age"), ("leaf", "bogus"),
    ("req", "id"), ("req", "name"),
    ("items",), ("items", I), ("items", I, "name"), ("items", I, "age"),
    ("reqs", I, "id"), ("map", K), ("map", K, "age"),
    ("box", I), ("box", I, "name"), ("box", "title"),
    ("chest", K), ("chest", K, "name"),
    ("mid", "name"), ("mid", "leaf"), ("mid", "leaf", "age"),
    ("mid", "items", I), ("mid", "items", I, "name"),
    ("mids", I, "leaf", "name"), ("midmap", K, "leaf", "age"),
    ("midmap", K, "items", I), ("nums", I),
    ("plain", I, "name"), ("plain", K, "name"), ("plain", I), ("plain", K),
]


def path(S, paths=PATHS):
    shape = S.pick(paths, "path")
    out = []
    for c in shape:
        if c is I:
            out.append(S.int("index", -4, 4))
        elif c is K:
            out.append(key(S))
        else:
            out.append(c)
    slot = shape[0]
    if slot == "plain":
        slot = "plainlist" if I in shape else "plaindict"
    return shape, slot, out


def selector(S, comps):
    how = S.choice(4, "ctor")
    if how == 0:
        return FieldSelector(comps)
    if how == 1:
        return FieldSelector(tuple(comps))
    if how == 2:
        fs = FieldSelector()
        for c in comps:
            if c is None:
                fs.add_full_collection()
            elif isinstance(c, str):
                fs.add_property(c)
            else:
                fs.add_index(c)
        return fs
    return FieldSelector(comps[:1]) + FieldSelector(comps[1:])


TYPES = {
    "leaf": Leaf, "req": Req, "mid": Mid, "age": int, "id": int,
    ("items", I): Leaf, ("reqs", I): Req, ("map", K): Leaf,
    ("box", I): Leaf, ("chest", K): Leaf, ("nums", I): int,
}


def value_for(S, shape):
    """a value to store at a path and what is expected to be held, MISSING if
    it is to be refused"""
    typ = TYPES.get(shape[-1], TYPES.get(shape[-2:]))
    k = S.choice(3, "valkind")
    v = S.int("val")
    if typ is int:
        if k == 2:
            return "nope", MISSING
        return (v, v) if k else ("12", 12)
    if typ in (Leaf, Mid):
        if k == 2:
            return {"nope": v}, MISSING
        want = typ(name=v)
        return (want, want) if k else ({"name": v}, want)
    if typ is Req:
        if k == 2:
            return {"name": v}, MISSING
        want = Req(id=v)
        return (want, want) if k else ({"id": v}, want)
    if shape[-1] == "title":
        return ("tt", "tt") if k else (v, str(v))
    if shape == ("items",):
        if k == 2:
            return 5, MISSING
        want = list_of(Leaf)([Leaf(name=v)])
        return (want, want) if k else ([{"name": v}], want)
    if k == 2:
        return None, None
    return (v, v) if k else ([v], [v])


REFUSED = (FieldSelectorException, exc.CoercionError,
           exc.ReadOnlyAttributeError, ValueError)


def check_unchanged(S, top, before, what):
    S.check(S.eq(tree(S, top), before), what + ": the structure changed")


# --- harnesses ---------------------------------------------------------

@harness(nmax=(2, 3), witness=["found", "missing"])
def get(S):
    shape, slot, comps = path(S)
    top = make(S, slot, S.p["nmax"])
    before = tree(S, top)
    fs = selector(S, comps)
    o = S.outcome(lambda: fs.get(top))
    n = fs.get_or_none(top)
    try:
        want = follow(before, comps)
    except Missing:
        S.check(not o.ok, "get found what is not there")
        S.check(isinstance(o.exc, FieldSelectorException),
                "get raises " + o.kind())
        S.check(isinstance(o.exc, (AttributeError, LookupError)),
                "get raises " + o.kind())
        S.check(n is None, "get_or_none where get fails")
        S.witness("missing")
    else:
        S.check(o.ok, "get raises " + o.kind())
        S.check(S.eq(tree(S, o.value), want), "get: another value")
        S.check(S.eq(tree(S, n), want), "get_or_none: another value")
        # it is the thing there, and not a copy of it
        x = top
        for c in comps:
            x = x[c] if not isinstance(c, str) or isinstance(
                x, (dict, DictCollection)) else getattr(x, c)
        if isinstance(x, Record):
            S.check(o.value is x, "get: not the object held")
        S.witness("found")
    check_unchanged(S, top, before, "get")
    S.check(fs.selectors == list(comps), "get changes the selector")


@harness(nmax=(2, 3), witness=["put", "refused", "missing"])
def put(S):
    shape, slot, comps = path(S)
    S.assume(shape[-1] != "bogus")
    top = make(S, slot, S.p["nmax"])
    before = tree(S, top)
    fs = selector(S, comps)
    v, want = value_for(S, shape)
    o = S.outcome(lambda: fs.put(top, v))
    expected = before
    where = None
    try:
        where = follow(before, comps[:-1])
        if where[0] == "list" and not isinstance(comps[-1], str):
            at(where, comps[-1])
    except Missing:
        S.check(not o.ok, "put where there is nothing succeeds")
        S.check(o.raised(FieldSelectorException) or want is MISSING and
                o.raised(exc.CoercionError), "put raises " + o.kind())
        check_unchanged(S, top, before, "failed put")
        S.witness("missing")
        return
    if want is MISSING or shape == ("fixed",):
        S.check(not o.ok, "a value that cannot be stored is accepted")
        S.check(isinstance(o.exc, (FieldSelectorException, exc.CoercionError,
                                   exc.ReadOnlyAttributeError)),
                "put raises " + o.kind())
        check_unchanged(S, top, before, "refused put")
        S.witness("refused")
        return
    S.check(o.ok, "put raises " + o.kind())
    got = fs.get(top)
    S.check(S.eq(tree(S, got), tree(S, want)), "get after put")
    if isinstance(v, Record):
        S.check(got is v, "put stores something else")
    store(where, comps[-1], tree(S, want))
    S.check(S.eq(tree(S, top), expected), "put changes something else")
    S.witness("put")


@harness(nmax=(2, 3), witness=["deleted", "missing", "required"])
def delete(S):
    shape, slot, comps = path(S)
    top = make(S, slot, S.p["nmax"])
    before = tree(S, top)
    fs = selector(S, comps)
    o = S.outcome(lambda: fs.delete(top))
    try:
        where = follow(before, comps[:-1])
        at(where, comps[-1])
    except Missing:
        S.check(not o.ok, "delete of what is not there succeeds")
        S.check(isinstance(o.exc, FieldSelectorException),
                "delete raises " + o.kind())
        check_unchanged(S, top, before, "failed delete")
        S.witness("missing")
        return
    if shape[-1] in ("id", "fixed"):
        S.check(o.raised(ValueError, exc.ReadOnlyAttributeError,
                         FieldSelectorException),
                "delete of %s: %s" % (shape[-1], o.kind()))
        check_unchanged(S, top, before, "refused delete")
        S.witness("required")
        return
    S.check(o.ok, "delete raises " + o.kind())
    gone = comps[-1]
    was = len(where[3]) if len(where) > 3 else 0
    remove(where, gone)
    S.check(S.eq(tree(S, top), before), "delete changes something else")
    if where[0] != "list" or gone == was - 1 or isinstance(gone, str):
        o = S.outcome(lambda: fs.get(top))
        S.check(o.raised(FieldSelectorException), "get after delete")
        S.check(fs.get_or_none(top) is None, "get_or_none after delete")
    S.witness("deleted")


EMPTY = {
    "leaf": ["rec", "Leaf", {}], "mid": ["rec", "Mid", {}],
    "items": ["list", "LeafList", {}, []],
    "reqs": ["list", "ReqList", {}, []],
    "map": ["dict", "LeafMap", {}, {}],
    "mids": ["list", "MidList", {}, []],
    "midmap": ["dict", "MidMap", {}, {}],
    "nums": ["list", "intList", {}, []],
    "box": ["list", "Box", {}, []], "chest": ["dict", "Chest", {}, {}],
}
ITEMS = {"LeafList": "Leaf", "LeafMap": "Leaf", "ReqList": "Req",
         "MidList": "Mid", "MidMap": "Mid", "Box": "Leaf", "Chest": "Leaf"}


class Refused(Exception):
    pass


def fresh(t, last):
    """an empty node like the template"""
    if t[0] == "rec":
        return ["rec", t[1], {}]
    return [t[0], t[1], {}, [] if t[0] == "list" else {}]


def vivify(t, comps):
    """the node that holds the last component, made on the way"""
    for n, c in enumerate(comps[:-1]):
        last = n == len(comps) - 2
        try:
            t = at(t, c)
            continue
        except Missing:
            pass
        if not node(t):
            raise Refused()
        if isinstance(c, str) and t[0] != "dict":
            if c == "req" or c not in EMPTY:
                if c != "req" or not last or comps[-1] != "id":
                    raise Refused()
                new = ["rec", "Req", {}]
            else:
                new = fresh(EMPTY[c], last)
            t[2][c] = new
        else:
            if t[1] not in ITEMS:
                raise Refused()
            kind = ITEMS[t[1]]
            if kind == "Req" and not (last and comps[-1] == "id"):
                raise Refused()
            new = ["rec", kind, {}]
            if t[0] == "list":
                if c != len(t[3]):
                    raise Refused()
                t[3].append(new)
            else:
                t[3][c] = new
        t = new
    return t


@harness(nmax=(2, 3), witness=["posted", "refused", "made"])
def post(S):
    shape, slot, comps = path(S)
    S.assume(shape[-1] != "bogus")
    top = make(S, slot, S.p["nmax"])
    start = tree(S, top)
    before = tree(S, top)
    fs = selector(S, comps)
    v, want = value_for(S, shape)
    o = S.outcome(lambda: fs.post(top, v))
    try:
        where = vivify(before, comps)
        if not node(where):
            raise Refused()
        c = comps[-1]
        if where[0] == "list" and not isinstance(c, str) and not (
                -len(where[3]) <= c <= len(where[3])):
            raise Refused()
        if want is MISSING or shape == ("fixed",):
            raise Refused()
    except Refused:
        S.check(not o.ok, "a post that cannot be made succeeds")
        S.check(isinstance(o.exc, REFUSED), "post raises " + o.kind())
        S.witness("refused")
        # what was there is still there
        S.check(kept(S, start, tree(S, top)), "refused post changed values")
        return
    S.check(o.ok, "post raises " + o.kind())
    S.check(o.value == 1, "post returns the number of values set")
    if where[0] == "list" and not isinstance(c, str) and c == len(where[3]):
        where[3].append(tree(S, want))
    else:
        store(where, c, tree(S, want))
    S.check(S.eq(tree(S, top), before), "post: not the expected structure")
    S.check(S.eq(tree(S, fs.get(top)), tree(S, want)), "get after post")
    S.witness("posted")
    if len(comps) > 1:
        try:
            follow(start, comps[:-1])
        except Missing:
            S.witness("made")


def kept(S, a, b):
    """everything in a is in b"""
    if not node(a):
        return S.eq(a, b)
    if not node(b) or a[0] != b[0] or a[1] != b[1]:
        return False
    for k in a[2]:
        if k not in b[2] or not kept(S, a[2][k], b[2][k]):
            return False
    if a[0] == "rec":
        return True
    if a[0] == "dict":
        return all(k in b[3] and kept(S, a[3][k], b[3][k]) for k in a[3])
    return len(a[3]) <= len(b[3]) and all(
        kept(S, x, y) for x, y in zip(a[3], b[3]))


@harness(nmax=(2, 3), witness=["some", "none"])
def wildcard(S):
    """None stands for every item"""
    slot = S.pick(["items", "map", "box", "chest", "mids", "midmap",
                   "plainlist", "plaindict", "nested"], "slot")
    n = S.choice(S.p["nmax"] + 1, "n")
    tail = ("age",)
    top = Top(name="nm")
    if slot in ("items", "box", "plainlist"):
        seq = [leaf(S) for _ in range(n)]
        where = "plain" if slot == "plainlist" else slot
        setattr(top, where, Box(seq) if slot == "box" else seq)
    elif slot in ("map", "chest", "plaindict"):
        d = {}
        for k in range(n):
            d["k%d" % k] = leaf(S)
        where = "plain" if slot == "plaindict" else slot
        setattr(top, where, Chest(d) if slot == "chest" else d)
    elif slot == "nested":
        where = "mids"
        top.mids = [Mid(items=[leaf(S) for _ in range(S.choice(2, "m"))])
                    for _ in range(n)]
        tail = ("items", None, "age")
    else:
        where = slot
        tail = ("leaf", "age")
        mids = []
        for _ in range(n):
            m = Mid()
            if S.flag("hasleaf"):
                m.leaf = leaf(S)
            mids.append(m)
        setattr(top, where, mids if slot == "mids" else dict(
            ("k%d" % k, m) for k, m in enumerate(mids)))
    fs = selector(S, [where, None] + list(tail))
    before = tree(S, top)
    op = S.pick(["get", "delete", "put", "post"], "op")
    o = None
    v = S.int("v")

    # the locations there are
    def places(t, path):
        """(holder, component) for every item; holder None if missing"""
        for m, c in enumerate(path):
            if c is None:
                out = []
                for kid in kids(t):
                    out.append(places(kid, path[m + 1:]))
                return out
            if m == len(path) - 1:
                return (t, c)
            try:
                t = at(t, c)
            except Missing:
                return None
        return None
    spots = places(before, [where, None] + list(tail))

    if op == "get":
        def read(spot):
            if isinstance(spot, list):
                vals = []
                good = not spot
                for s in spot:
                    ok, x = read(s)
                    good = good or ok
                    vals.append(x if ok else None)
                return good, vals
            if spot is None:
                return False, None
            try:
                return True, at(*spot)
            except Missing:
                return False, None
        ok, want = read(spots)
        o = S.outcome(lambda: fs.get(top))
        g = fs.get_or_none(top)
        S.check(o.ok == ok, "get of all items: " + o.kind())
        if ok:
            S.check(S.eq(o.value, want), "get of all items: values")
            S.check(S.eq(g, want), "get_or_none of all items")
            S.witness("some")
        else:
            S.check(o.raised(FieldSelectorException),
                    "get of all items raises " + o.kind())
            S.check(g is None, "get_or_none of all items")
            S.witness("none")
    elif op == "delete":
        def rm(spot):
            if isinstance(spot, list):
                good = not spot
                for s in spot:
                    good = rm(s) or good
                return good
            if spot is None:
                return False
            try:
                remove(*spot)
                return True
            except Missing:
                return False
        ok = rm(spots)
        o = S.outcome(lambda: fs.delete(top))
        S.check(o.ok == ok, "delete in all items: " + o.kind())
        if not ok:
            S.check(o.raised(FieldSelectorException),
                    "delete in all items raises " + o.kind())
    else:
        flat = []

        def walk(spot):
            if isinstance(spot, list):
                for s in spot:
                    walk(s)
            else:
                flat.append(spot)
        walk(spots)
        if op == "put":
            o = S.outcome(lambda: fs.put(top, v))
            if any(s is None for s in flat):
                S.check(o.raised(FieldSelectorException), "put in all items: "
                        + o.kind())
                return
            S.check(o.ok, "put in all items: " + o.kind())
        else:
            o = S.outcome(lambda: fs.post(top, v))
            S.check(o.ok, "post in all items: " + o.kind())
            S.check(o.value == len(flat), "post returns the number set")
            if any(s is None for s in flat):
                for m in kids(at(before, where)):
                    vivify(m, list(tail))[2]["age"] = v
        for s in flat:
            if s is not None:
                store(s[0], s[1], v)
        if flat:
            S.witness("some")
        else:
            S.witness("none")
    S.check(S.eq(tree(S, top), before), op + " in all items: structure")


@harness(nmax=(2, 3), witness=["end"])
def whole_collection(S):
    """None as the last component is the content of the collection"""
    slot = S.pick(["items", "box", "plainlist", "map", "chest", "plaindict"],
                  "slot")
    top = make(S, slot, S.p["nmax"])
    where = "plain" if slot.startswith("plain") else slot
    isdict = slot in ("map", "chest", "plaindict")
    fs = selector(S, [where, None])
    before = tree(S, top)
    op = S.pick(["get", "delete", "put", "post"], "op")
    if op == "get":
        o = S.outcome(lambda: fs.get(top))
    elif op == "delete":
        o = S.outcome(lambda: fs.delete(top))
    else:
        m = S.choice(3, "m")
        new = [leaf1(S) for _ in range(m)]
        if isdict:
            new = dict(("n%d" % k, x) for k, x in enumerate(new))
        o = S.outcome(lambda: getattr(fs, op)(top, new))
    if where not in before[2]:
        if op == "post" and where != "plain":
            S.check(o.ok, "post of a whole collection: " + o.kind())
            before[2][where] = fresh(EMPTY[where], True)
        else:
            S.check(o.raised(FieldSelectorException),
                    op + " of an absent collection: " + o.kind())
            check_unchanged(S, top, before, op)
            return
    S.check(o.ok, op + " of a whole collection: " + o.kind())
    t = before[2][where]
    if op == "get":
        S.check(isinstance(o.value, list), "get gives a list")
        S.check(S.eq([tree(S, x) for x in o.value], kids(t)),
                "get of a whole collection")
    elif op == "delete":
        t[3] = {} if isdict else []
    else:
        t[3] = (dict((k, tree(S, x)) for k, x in new.items()) if isdict
                else [tree(S, x) for x in new])
    S.check(S.eq(tree(S, top), before), op + " of a whole collection")
    S.witness("end")


@harness(witness=["end"])
def laws(S):
    """two puts and posts one after the other, through the same or different
    paths"""
    top = Top()
    log = []
    for _ in range(2):
        shape, slot, comps = path(S, [
            ("age",), ("leaf", "age"), ("items", I, "age"), ("map", K, "age"),
            ("mid", "leaf", "age"), ("midmap", K, "leaf", "age"),
            ("reqs", I, "id"), ("nums", I), ("box", "title")])
        v = S.int("v")
        if shape[-1] == "title":
            v = "t%d" % len(log)
        fs = FieldSelector(comps)
        o = S.outcome(lambda: fs.post(top, v))
        if not o.ok:
            S.check(isinstance(o.exc, REFUSED), "post raises " + o.kind())
            S.check(I in shape, "post raises " + o.kind())
            return
        S.check(fs.get(top) == v, "get after post")
        for shape2, comps2, v2 in log:
            if shape2 == shape and all(a == b for a, b in
                                       zip(comps, comps2)):
                continue
            same = shape2 == shape and I in shape
            if not same:
                S.check(FieldSelector(comps2).get(top) == v2,
                        "the value posted before is gone")
        log.append((shape, comps, v))
    # deleting what was posted last restores the other
    shape, comps, v = log[1]
    if shape[-1] == "age":
        FieldSelector(comps).delete(top)
        S.check(FieldSelector(comps).get_or_none(top) is None,
                "get_or_none after delete")
    S.witness("end")


@harness(witness=["end"])
def no_way(S):
    """paths that leave the structure"""
    pair = Pair()
    top = Top(leaf=leaf(S), age=S.int("age"))
    comps, obj = S.pick([
        (["either", "name"], pair), (["loose", "name"], pair),
        (["bogus", "name"], pair), (["bogus", "x", "y"], pair),
        (["age", "bogus"], top), (["age", "bogus", "x"], top),
        (["leaf", "name", "x", "y"], top), (["leaf", "bogus", "x"], top),
        (["bogus"], pair)], "where")
    fs = selector(S, comps)
    before = tree(S, obj)
    op = S.pick(["get", "delete", "post", "put", "get_or_none"], "op")
    if op == "put" and comps == ["bogus"]:
        return
    if op == "get_or_none":
        S.check(fs.get_or_none(obj) is None, "get_or_none")
    else:
        o = S.outcome(lambda: getattr(fs, op)(
            obj, *([1] if op in ("put", "post") else [])))
        if op == "post" and comps == ["bogus"]:
            return
        S.check(o.raised(FieldSelectorException), "%s: %s" % (op, o.kind()))
    check_unchanged(S, obj, before, op)
    S.witness("end")
