"""Record lists against plain lists (differential, same symbolic operands)."""
from sx.api import harness
import normalize
from normalize import Record, Property
from normalize.coll import DictCollection, ListCollection, list_of
from normalize.property.coll import ListProperty, DictProperty, \
    CollectionProperty
from normalize.property.json import JsonListProperty, JsonDictProperty
from normalize.record.json import JsonRecordList, JsonRecordDict
import normalize.exc as exc

OUTSIDE = ("lists longer than 3 before the operations, more than two "
           "operations per history (quick) or three (thorough), item types "
           "other than int, str and one record type")


class Item(Record):
    x = Property(isa=int)


class KItem(Record):
    k = Property(isa=int)
    x = Property()
    primary_key = [k]


class Bag(Record):
    title = Property()
    items = ListProperty(of=Item)


IntList = list_of(int)
StrList = list_of(str)
ItemList = list_of(Item)


class Custom(ListCollection):
    """a declared collection type with its own coercion"""
    itemtype = Item

    @classmethod
    def coerceitem(cls, v):
        if isinstance(v, int):
            return Item(x=v)
        return Item(v)


class Union(ListCollection):
    """items of either of two types"""
    itemtype = (int, str)


class Sloppy(ListCollection):
    """a coercion which returns what is not of the item type, sometimes"""
    itemtype = int

    @classmethod
    def coerceitem(cls, v):
        return len(v) if isinstance(v, tuple) else v


def val_int(S, bad=False):
    """(value passed, value stored or None when it cannot be coerced)"""
    k = S.choice(4 if bad else 3, "valkind")
    if k == 0:
        v = S.int("v")
        return v, v
    if k == 1:
        return "7", 7
    if k == 2:
        return 2.0, 2
    return S.pick(["x", None, [1]], "badval"), None


def val_item(S, bad=False):
    k = S.choice(3 if bad else 2, "valkind")
    if k == 0:
        v = Item(x=S.int("v"))
        return v, v
    if k == 1:
        n = S.int("v")
        return {"x": n}, Item(x=n)
    return S.pick([{"x": "no"}, {"nope": 1}, 5], "badval"), None


def val_custom(S, bad=False):
    k = S.choice(4 if bad else 3, "valkind")
    if k < 2:
        return val_item_k(S, k)
    if k == 2:
        n = S.int("v")
        return n, Item(x=n)
    return S.pick([{"nope": 1}, "zz"], "badval"), None


def val_item_k(S, k):
    n = S.int("v")
    if k == 0:
        v = Item(x=n)
        return v, v
    return {"x": n}, Item(x=n)


def val_str(S, bad=False):
    k = S.choice(3, "valkind")
    if k == 0:
        v = S.str("v", 1)
        return v, v
    if k == 1:
        n = S.int("vi")
        return n, str(n)
    return None, "None"


def val_union(S, bad=False):
    k = S.choice(3 if bad else 2, "valkind")
    if k == 2:
        return S.pick([2.5, None, [1], Item()], "badval"), None
    v = S.str("v", 1) if k else S.int("v")
    return v, v


def val_sloppy(S, bad=False):
    k = S.choice(3 if bad else 2, "valkind")
    if k == 0:
        v = S.int("v")
        return v, v
    if k == 1:
        return ("a", "b"), 2
    if S.flag("text"):
        return S.str("badtext", 1), None
    return S.pick([2.5, None, [1]], "badval"), None


KINDS = {
    "int": (IntList, int, val_int),
    "item": (ItemList, Item, val_item),
    "str": (StrList, str, val_str),
    "custom": (Custom, Item, val_custom),
    "union": (Union, (int, str), val_union),
    "sloppy": (Sloppy, int, val_sloppy),
}


def good(S, kind):
    n = S.int("e")
    if kind in ("int", "union", "sloppy"):
        return n
    if kind == "str":
        return S.str("e", 1, 1)
    return Item(x=n)


def sought(S, kind):
    """a value to look for: an item, or what is no item at all"""
    if S.flag("noitem"):
        return S.pick([(1, 2), (), {"x": 1}], "other")
    return good(S, kind)


def compare(S, c, m, typ, what):
    S.check(len(c) == len(m), what + ": length")
    got = list(c)
    S.check(len(got) == len(m), what + ": iteration length")
    for i in range(len(m)):
        S.check(isinstance(got[i], typ), what + ": item type")
        S.check(got[i] == m[i], what + ": item %d" % i)
        S.check(c[i] is got[i] or c[i] == got[i], what + ": c[i]")
    S.check(c == type(c)(m), what + ": equality with the same items")


def both(S, what, fc, fm, c, m, result=True):
    """run on both, compare exception kinds and results"""
    oc = S.outcome(fc)
    om = S.outcome(fm)
    S.note(what, oc.kind())
    S.check(oc.ok == om.ok, "%s: %s where a list gives %s" % (
        what, oc.kind(), om.kind()))
    if oc.ok:
        if result:
            S.check(oc.value == om.value, what + ": result")
            S.check(S.type(oc.value) is S.type(om.value) or
                    isinstance(oc.value, ListCollection),
                    what + ": result type")
    else:
        S.check(isinstance(oc.exc, type(om.exc)),
                "%s: raises %s where a list raises %s" % (
                    what, oc.kind(), om.kind()))


def bound(S, label):
    """a slice bound: absent or any of a small range around the list"""
    if S.flag(label + ".none"):
        return None
    return S.int(label, -4, 4)


OPS = ["append", "extend", "insert", "setitem", "delitem", "getitem",
       "getslice", "delslice", "setslice", "pop", "pop0", "remove", "index",
       "index2", "count", "reverse", "sort", "add", "iadd", "contains",
       "extend_self", "radd_coll", "eq", "add_other"]


def do(S, op, c, m, kind):
    cls, typ, val = KINDS[kind]
    before = list(c)

    def rejected(fn, stored_all):
        """an operation given a bad item raises and changes nothing"""
        o = S.outcome(fn)
        S.check(not o.ok, op + ": uncoercible item accepted")
        S.check(isinstance(o.exc, exc.CoercionError),
                op + ": bad item raises %s" % o.kind())
        compare(S, c, before, typ, op + " refused")

    if op == "append":
        v, st = val(S, True)
        if st is None:
            return rejected(lambda: c.append(v), 0) or (c, m)
        both(S, op, lambda: c.append(v), lambda: m.append(st), c, m)
    elif op == "extend":
        vs = [val(S, True) for _ in range(S.choice(3, "nvals"))]
        how = S.choice(3, "iterkind")
        src = [v for v, _ in vs]
        src = src if how == 0 else tuple(src) if how == 1 else iter(src)
        if any(st is None for _, st in vs):
            return rejected(lambda: c.extend(src), 0) or (c, m)
        both(S, op, lambda: c.extend(src),
             lambda: m.extend([st for _, st in vs]), c, m)
    elif op == "extend_self":
        both(S, op, lambda: c.extend(c), lambda: m.extend(m), c, m)
    elif op == "insert":
        i = S.int("i", -5, 5)
        v, st = val(S, True)
        if st is None:
            return rejected(lambda: c.insert(i, v), 0) or (c, m)
        both(S, op, lambda: c.insert(i, v), lambda: m.insert(i, st), c, m)
    elif op == "setitem":
        i = S.int("i", -5, 5)
        v, st = val(S, True)
        if st is None:
            o = S.outcome(lambda: c.__setitem__(i, v))
            S.check(not o.ok, op + ": uncoercible item accepted")
            compare(S, c, before, typ, op + " refused")
            return c, m

        def sc():
            c[i] = v

        def sm():
            m[i] = st
        both(S, op, sc, sm, c, m)
    elif op == "delitem":
        i = S.int("i", -5, 5)

        def dc():
            del c[i]

        def dm():
            del m[i]
        both(S, op, dc, dm, c, m)
    elif op == "getitem":
        i = S.int("i", -5, 5)
        both(S, op, lambda: c[i], lambda: m[i], c, m)
    elif op == "getslice":
        sl = slice(bound(S, "lo"), bound(S, "hi"),
                   S.pick([None, 1, 2, -1], "step"))
        both(S, op, lambda: list(c[sl]), lambda: m[sl], c, m)
    elif op == "delslice":
        sl = slice(bound(S, "lo"), bound(S, "hi"),
                   S.pick([None, 2, -1], "step"))

        def dc():
            del c[sl]

        def dm():
            del m[sl]
        both(S, op, dc, dm, c, m)
    elif op == "setslice":
        sl = slice(bound(S, "lo"), bound(S, "hi"),
                   S.pick([None, 2], "step"))
        vs = [val(S, True) for _ in range(S.choice(3, "nvals"))]
        if any(st is None for _, st in vs):
            o = S.outcome(lambda: c.__setitem__(sl, [v for v, _ in vs]))
            S.check(not o.ok, op + ": uncoercible item accepted")
            compare(S, c, before, typ, op + " refused")
            return c, m

        def sc():
            c[sl] = [v for v, _ in vs]

        def sm():
            m[sl] = [st for _, st in vs]
        both(S, op, sc, sm, c, m)
    elif op == "pop":
        i = S.int("i", -5, 5)
        both(S, op, lambda: c.pop(i), lambda: m.pop(i), c, m)
    elif op == "pop0":
        both(S, op, lambda: c.pop(), lambda: m.pop(), c, m)
    elif op == "remove":
        v = sought(S, kind)
        both(S, op, lambda: c.remove(v), lambda: m.remove(v), c, m)
    elif op == "index":
        v = sought(S, kind)
        both(S, op, lambda: c.index(v), lambda: m.index(v), c, m)
    elif op == "index2":
        v = good(S, kind)
        i = S.int("i", -5, 5)
        if S.flag("twobounds"):
            j = S.int("j", -5, 5)
            both(S, op, lambda: c.index(v, i, j), lambda: m.index(v, i, j),
                 c, m)
        else:
            both(S, op, lambda: c.index(v, i), lambda: m.index(v, i), c, m)
    elif op == "count":
        v = sought(S, kind)
        both(S, op, lambda: c.count(v), lambda: m.count(v), c, m)
    elif op == "reverse":
        both(S, op, lambda: c.reverse(), lambda: m.reverse(), c, m)
    elif op == "sort":
        kw = {}
        if kind in ("item", "custom"):
            kw["key"] = lambda it: it.x
        if S.flag("rev"):
            kw["reverse"] = True
        both(S, op, lambda: c.sort(**kw), lambda: m.sort(**kw), c, m)
    elif op == "add_other":
        v = S.pick([(1, 2), None, "ab"], "notalist")

        def iadd():
            c2 = c
            c2 += v
        o = S.outcome(iadd if S.flag("inplace") and v is None else
                      lambda: c + v)
        S.check(o.raised(TypeError), "+ of no list: %s where a list raises "
                "TypeError" % o.kind())
    elif op in ("add", "iadd", "radd_coll"):
        vs = [val(S) for _ in range(S.choice(3, "nvals"))]
        src = [v for v, _ in vs]
        ex = [st for _, st in vs]
        if op == "radd_coll":
            src = cls(src)
        old = c
        if op == "iadd":
            c += src
            m = m + ex
        else:
            c2 = c + src
            m2 = m + ex
            S.check(type(c2) is type(c), "add: type of the sum")
            compare(S, c2, m2, typ, "sum")
            compare(S, c, m, typ, "add leaves its operand")
            # the sum is a list of its own
            if len(c2):
                del c2[0]
                compare(S, c, m, typ, "sum shares storage with operand")
            c2.append(good(S, kind))
            compare(S, c, m, typ, "sum shares storage with operand")
    elif op == "contains":
        v = st = good(S, kind)
        if S.flag("coercible"):
            v, st = val(S)
        both(S, op, lambda: v in c, lambda: st in m, c, m)
    elif op == "eq":
        other = [good(S, kind) for _ in range(S.choice(3, "nvals"))]
        both(S, "eq list", lambda: c == other, lambda: m == other, c, m)
        both(S, "ne list", lambda: c != other, lambda: m != other, c, m)
        oc = cls(other)
        both(S, "eq coll", lambda: c == oc, lambda: m == other, c, m)
        both(S, "ne coll", lambda: c != oc, lambda: m != other, c, m)
    compare(S, c, m, typ, "after " + op)
    return c, m


def start(S, kind, nmax):
    cls = KINDS[kind][0]
    items = [good(S, kind) for _ in range(S.choice(nmax + 1, "len"))]
    return cls(items), list(items)


@harness(nmax=3, nops=1, witness=["ops"])
def single_op(S):
    """every operation from every list of up to nmax items"""
    kind = S.pick(sorted(KINDS), "kind")
    c, m = start(S, kind, S.p["nmax"])
    op = S.pick(OPS, "op")
    c, m = do(S, op, c, m, kind)
    S.observe("after", [getattr(x, "x", x) for x in c])
    S.witness("ops")


SEQ = ["append", "insert", "setitem", "delitem", "setslice0", "pop", "remove",
       "reverse", "sort", "extend1", "add"]


def do_small(S, op, c, m):
    v = Item(x=S.int("v"))
    if op == "append":
        c.append(v)
        m.append(v)
    elif op == "extend1":
        c.extend([{"x": v.x}, v])
        m.extend([Item(x=v.x), v])
    elif op == "insert":
        i = S.int("i", -3, 3)
        c.insert(i, v)
        m.insert(i, v)
    elif op == "setitem":
        i = S.int("i", -2, 2)

        def sc():
            c[i] = v

        def sm():
            m[i] = v
        both(S, op, sc, sm, c, m)
    elif op == "delitem":
        i = S.int("i", -2, 2)
        both(S, op, lambda: c.__delitem__(i), lambda: m.__delitem__(i), c, m)
    elif op == "setslice0":
        i = S.int("i", -2, 2)
        c[i:] = [v]
        m[i:] = [v]
    elif op == "pop":
        i = S.int("i", -2, 2)
        both(S, op, lambda: c.pop(i), lambda: m.pop(i), c, m)
    elif op == "remove":
        both(S, op, lambda: c.remove(v), lambda: m.remove(v), c, m)
    elif op == "reverse":
        c.reverse()
        m.reverse()
    elif op == "sort":
        c.sort(key=lambda x: x.x)
        m.sort(key=lambda x: x.x)
    elif op == "add":
        c = c + [v]
        m = m + [v]
    return c, m


@harness(nops=(2, 3), witness=["end"])
def history(S):
    """histories of operations from any list of up to two items"""
    c, m = start(S, "item", 2)
    for _ in range(S.p["nops"]):
        c, m = do_small(S, S.pick(SEQ, "op"), c, m)
    compare(S, c, m, Item, "after history")
    S.observe("after", [x.x for x in c])
    S.witness("end")


@harness(witness=["built", "refused"])
def construct(S):
    """construction from every kind of iterable, copies of the source"""
    kind = S.pick(sorted(KINDS), "kind")
    cls, typ, val = KINDS[kind]
    vs = [val(S, True) for _ in range(S.choice(3, "nvals"))]
    src = [v for v, _ in vs]
    how = S.pick(["list", "tuple", "iter", "gen", "coll", "mapping", "prop",
                  "none", "kw"], "how")
    ok = all(st is not None for _, st in vs)
    want = [st for _, st in vs]
    if how == "coll":
        if not ok:
            return
        base = cls(src)
        o = S.outcome(lambda: cls(base))
    elif how == "list":
        o = S.outcome(lambda: cls(src))
    elif how == "kw":
        o = S.outcome(lambda: cls(values=src))
    elif how == "tuple":
        o = S.outcome(lambda: cls(tuple(src)))
    elif how == "iter":
        o = S.outcome(lambda: cls(iter(src)))
    elif how == "gen":
        o = S.outcome(lambda: cls(v for v in src))
    elif how == "mapping":
        o = S.outcome(lambda: cls(dict((("k%d" % i), v)
                                       for i, v in enumerate(src))))
    elif how == "prop":
        if kind != "item":
            return
        o = S.outcome(lambda: Bag(title="t", items=src).items)
    else:
        if vs:
            return
        o = S.outcome(lambda: cls())
    S.check(o.ok == ok, "construct from %s: %s" % (how, o.kind()))
    if not ok:
        S.check(isinstance(o.exc, exc.CoercionError),
                "construct from %s raises %s" % (how, o.kind()))
        S.witness("refused")
        return
    c = o.value
    compare(S, c, want, typ, "construct from " + how)
    # the new list has its own storage
    c.append(good(S, kind))
    S.check(len(src) == len(vs), "source list changed")
    if how == "coll":
        S.check(len(base) == len(vs), "source collection changed")
    S.witness("built")


@harness(witness=["end"])
def property_slot(S):
    """list held in a record's slot: assignment coerces, bad assignment keeps
    the old list; two records do not share storage"""
    n = S.choice(3, "n")
    xs = [S.int("a") for _ in range(n)]
    b1 = Bag(items=[{"x": v} for v in xs])
    b2 = Bag(items=[{"x": v} for v in xs])
    S.check(b1.items == b2.items, "equal lists")
    old = b1.items
    v, st = val_item(S, True)
    what = S.choice(3, "what")
    if what == 0:
        o = S.outcome(lambda: setattr(b1, "items", [v]))
        S.check(o.ok == (st is not None), "assignment " + o.kind())
        if o.ok:
            compare(S, b1.items, [st], Item, "assigned")
        else:
            S.check(isinstance(o.exc, exc.CoercionError), "assign raises")
            S.check(b1.items is old, "refused assignment changed the slot")
            compare(S, b1.items, [Item(x=w) for w in xs], Item, "kept")
    elif what == 1:
        o = S.outcome(lambda: setattr(
            b1, "items", S.pick(["str", 5, 0.5], "notalist")))
        S.check(not o.ok and isinstance(o.exc, exc.CoercionError),
                "assigning a non-list: " + o.kind())
        S.check(b1.items is old, "refused assignment changed the slot")
    else:
        o = S.outcome(lambda: b1.items.append(v))
        S.check(o.ok == (st is not None), "append " + o.kind())
    compare(S, b2.items, [Item(x=w) for w in xs], Item, "other record")
    S.witness("end")


@harness(witness=["one type", "two types", "refused"])
def generics(S):
    """the type made for 'a list of these' is one of the declared kind of
    list and of the declared items, and the same one each time"""
    import types
    import sys
    mods = []
    for n in ("gen_a", "gen_b"):
        m = types.ModuleType(n)
        sys.modules[n] = m
        mods.append(m)
    from normalize.coll import GENERIC_TYPES, _make_generic
    try:
        made = []
        for i in range(2):
            cn = S.pick(["Rack", "Shelf"], "collname%d" % i)
            base = S.pick([ListCollection, DictCollection], "base%d" % i)
            if i and S.flag("same coll"):
                coll = made[0][0]
            else:
                coll = type(cn, (base,), {"__module__": S.pick(
                    mods, "collmod%d" % i).__name__})
            if i and S.flag("same item"):
                of = made[0][1]
            else:
                of = type(S.pick(["Cup", "Jar"], "itemname%d" % i),
                          (Record,), {"__module__": S.pick(
                              mods, "itemmod%d" % i).__name__})
            o = S.outcome(lambda: _make_generic(of, coll))
            if not o.ok:
                S.check(i == 1, "refused: " + o.kind())
                S.check(o.raised(exc.PropertyNotUnique),
                        "raises " + o.kind())
                S.check((coll, of) != made[0][:2], "refused a second time")
                S.check(coll.__name__ == made[0][0].__name__ and
                        of.__name__ == made[0][1].__name__ and
                        of.__module__ == made[0][1].__module__,
                        "types of different names refused")
                S.witness("refused")
                return
            g = o.value
            S.check(issubclass(g, coll), "another kind of collection")
            S.check(g.itemtype is of, "another type of items")
            S.check(_make_generic(of, coll) is g, "a second type")
            made.append((coll, of, g))
        S.check((made[0][2] is made[1][2]) == (made[0][:2] == made[1][:2]),
                "one type for two declarations")
        S.witness("one type" if made[0][2] is made[1][2] else "two types")
    finally:
        for m in mods:
            sys.modules.pop(m.__name__, None)
        for k in [k for k in GENERIC_TYPES
                  if GENERIC_TYPES[k].itemtype.__module__ in
                  ("gen_a", "gen_b")]:
            del GENERIC_TYPES[k]


class Crate(ListCollection):
    pass


class Chest(DictCollection):
    pass


@harness(witness=["list", "dict", "refused"])
def declared_kind(S):
    """a list or dict property holds collections of the declared kind"""
    prop = S.pick([ListProperty, DictProperty, JsonListProperty,
                   JsonDictProperty], "property")
    is_list = issubclass(prop, ListProperty)
    coll = S.pick([None, Crate, Chest, ListCollection, DictCollection,
                   JsonRecordList, JsonRecordDict], "coll")
    of = S.pick([int, Item], "of")
    kw = {}
    kw[S.pick(["of", "list_of" if is_list else "dict_of"], "argument")] = of
    if coll is not None:
        kw["coll"] = coll
    json_name = prop in (JsonListProperty, JsonDictProperty)
    if json_name and S.flag("json_name"):
        kw["json_name"] = "X"
    o = S.outcome(lambda: prop(**kw))
    kind = ListCollection if is_list else DictCollection
    if coll is not None and not issubclass(coll, kind):
        S.check(o.raised(exc.ListPropertyMustDeriveListCollection if is_list
                         else exc.DictPropertyMustDeriveDictCollection),
                "another kind of collection: " + o.kind())
        S.witness("refused")
        return
    S.check(o.ok, "raises " + o.kind())
    if coll is None:
        coll = {ListProperty: ListCollection, DictProperty: DictCollection,
                JsonListProperty: JsonRecordList,
                JsonDictProperty: JsonRecordDict}[prop]
    cls = type("Holder", (Record,), {"x": o.value})
    v = S.int("v")
    item = v if of is int else Item(x=v)
    form = S.pick(["plain", "made", "json"], "form")
    if form == "plain":
        value = [item] if is_list else {"k": item}
    elif form == "made":
        value = cls(x=[item] if is_list else {"k": item}).x
    else:
        value = [v if of is int else {"x": v}]
        if not is_list:
            value = {"k": value[0]}
    r = cls(x=value)
    S.check(isinstance(r.x, coll) and S.type(r.x) is cls.properties[
        "x"].valuetype, "another kind of collection")
    S.check(r.x.itemtype is of, "another type of items")
    if form == "made":
        S.check(r.x is value, "converted though of the type")
    S.check(len(r.x) == 1, "number of items")
    got = r.x[0 if is_list else "k"]
    S.check(got == item and isinstance(got, of), "item")
    S.check(not S.outcome(
        lambda: r.x.append("no") if is_list else
        r.x.update({"z": "no"})).ok, "takes anything")
    S.check(len(r.x) == 1, "changed by a refused item")
    S.witness("list" if is_list else "dict")


class SubItem(Item):
    pass


class Shelf(ListCollection):
    itemtype = Item


class CrateOfItems(Crate):
    itemtype = Item


class Drawers(DictCollection):
    itemtype = Item


@harness(witness=["concrete", "made", "mismatch", "incomplete"])
def concrete_type(S):
    """a property declared with a concrete collection type holds that type;
    what contradicts it is refused"""
    prop = S.pick([ListProperty, DictProperty, CollectionProperty,
                   JsonListProperty], "property")
    isa = S.pick([None, Shelf, CrateOfItems, Drawers], "isa")
    of = S.pick([None, Item, SubItem, KItem], "of")
    coll = S.pick([None, Crate, ListCollection, DictCollection], "coll")
    kw = dict((k, x) for k, x in (("isa", isa), ("of", of), ("coll", coll))
              if x is not None)
    o = S.outcome(lambda: prop(**kw))
    if prop is CollectionProperty:
        kind = coll
        if isa is None and (coll is None or of is None):
            S.check(not o.ok, "accepted without a type")
            if coll is None:
                S.check(o.raised(exc.CollRequiredError), o.kind())
            S.witness("incomplete")
            return
    else:
        base = DictCollection if prop is DictProperty else ListCollection
        if of is None:
            S.check(o.raised(exc.DictOfWhat if prop is DictProperty else
                             exc.ListOfWhat), o.kind())
            S.witness("incomplete")
            return
        kind = coll or (JsonRecordList if prop is JsonListProperty else base)
        if not issubclass(kind, base):
            S.check(not o.ok, "another kind of collection")
            S.witness("mismatch")
            return
    if isa is not None and (
            kind is not None and not issubclass(isa, kind) or
            of is not None and not issubclass(of, Item)):
        S.check(o.raised(exc.CollTypeMismatch), "mismatch: " + o.kind())
        S.witness("mismatch")
        return
    S.check(o.ok, "raises " + o.kind())
    vt = o.value.valuetype
    if isa is not None:
        S.check(vt is isa, "another type")
        S.witness("concrete")
    else:
        S.check(issubclass(vt, kind) and vt.itemtype is of, "another type")
        S.witness("made")
    cls = type("Holder", (Record,), {"x": o.value})
    v = S.int("v")
    one = (of if isa is None and of is not None else Item)(x=v)
    if of is KItem:
        one = KItem(k=v, x=v)
    r = cls(x={"k": one} if issubclass(vt, DictCollection) else [one])
    S.check(S.type(r.x) is vt and len(r.x) == 1, "value")
    got = list(r.x.values() if issubclass(vt, DictCollection) else r.x)[0]
    S.check(got is one, "item")
