"""Record dicts against plain dicts (differential, same symbolic operands)."""
from sx.api import harness
from normalize import Record, Property
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty
import normalize.exc as exc

OUTSIDE = ("dicts larger than 3 entries before the operation, histories "
           "longer than two operations (quick) or three (thorough), key "
           "types other than int and one-character str")


class Item(Record):
    x = Property(isa=int)


class Drawer(Record):
    title = Property()
    items = DictProperty(of=Item)


IntMap = dict_of(int)
ItemMap = dict_of(Item)


class Custom(DictCollection):
    itemtype = Item

    @classmethod
    def coerceitem(cls, v):
        if isinstance(v, int):
            return Item(x=v)
        return Item(v)


class OtherItemMap(DictCollection):
    """a different dict type of the same items"""
    itemtype = Item


class Union(DictCollection):
    """values of either of two types"""
    itemtype = (int, Item)


class Sloppy(DictCollection):
    """a coercion which returns what is not of the item type, sometimes"""
    itemtype = int

    @classmethod
    def coerceitem(cls, v):
        return len(v) if isinstance(v, tuple) else v


KINDS = {"int": (IntMap, int), "item": (ItemMap, Item),
         "custom": (Custom, Item), "union": (Union, (int, Item)),
         "sloppy": (Sloppy, int)}


def val(S, kind, bad=False):
    n = 3 if bad else 2
    if kind == "int":
        k = S.choice(n, "vk")
        if k == 0:
            v = S.int("v")
            return v, v
        if k == 1:
            return "7", 7
        return "x", None
    if kind in ("union", "sloppy"):
        k = S.choice(n, "vk")
        if k == 2:
            return S.pick([2.5, None, "x"], "bad"), None
        v = S.int("v")
        if k == 0:
            return v, v
        if kind == "sloppy":
            return (v, v), 2
        v = Item(x=v)
        return v, v
    k = S.choice(n + (kind == "custom"), "vk")
    x = S.int("v")
    if k == 0:
        v = Item(x=x)
        return v, v
    if k == 1:
        return {"x": x}, Item(x=x)
    if kind == "custom" and k == n:
        return x, Item(x=x)
    return S.pick([{"x": "no"}, {"nope": 1}, "zz"], "bad"), None


def key(S, label="k"):
    if S.flag(label + ".str"):
        return S.str(label, 1, 1)
    return S.int(label)


def compare(S, c, m, typ, what):
    S.check(len(c) == len(m), what + ": length")
    ks = list(m)
    got = list(c.keys())
    S.check(len(got) == len(ks), what + ": number of keys")
    vs = list(c.values())
    items = list(c.items())
    its = list(c.itertuples())
    it = list(c)
    for n, k in enumerate(ks):
        S.check(got[n] == k, what + ": key order")
        S.check(it[n] == k, what + ": iteration order")
        S.check(isinstance(c[k], typ), what + ": value type")
        S.check(c[k] == m[k], what + ": value")
        S.check(vs[n] == m[k], what + ": values()")
        S.check(items[n][0] == k and items[n][1] == m[k],
                what + ": items()")
        S.check(its[n][0] == k and its[n][1] == m[k],
                what + ": itertuples()")
        S.check(k in c, what + ": contains")
    S.check(list(c.iterkeys()) == ks, what + ": iterkeys")
    S.check(list(c.itervalues()) == vs, what + ": itervalues")
    S.check([k for k, _ in c.iteritems()] == ks, what + ": iteritems")
    S.check(c == type(c)(m), what + ": equality with the same entries")
    S.check(not (c != type(c)(m)), what + ": inequality")
    S.check(c == m, what + ": equality with a dict")


def both(S, what, fc, fm):
    oc, om = S.outcome(fc), S.outcome(fm)
    S.note(what, oc.kind())
    S.check(oc.ok == om.ok, "%s: %s where a dict gives %s" % (
        what, oc.kind(), om.kind()))
    if oc.ok:
        S.check(oc.value == om.value, what + ": result")
    else:
        S.check(isinstance(oc.exc, type(om.exc)), "%s raises %s not %s" % (
            what, oc.kind(), om.kind()))


OPS = ["set", "del", "get", "pop", "popitem", "update_map", "update_pairs",
       "update_coll", "update_kw", "update_both", "clear", "in", "eq"]


def do(S, op, c, m, kind):
    cls, typ = KINDS[kind]
    before = dict(m)

    def refused(fn):
        o = S.outcome(fn)
        S.check(not o.ok, op + ": uncoercible value accepted")
        S.check(isinstance(o.exc, exc.CoercionError),
                op + ": raises " + o.kind())
        compare(S, c, before, typ, op + " refused")

    if op == "set":
        k = key(S)
        v, st = val(S, kind, True)

        def sc():
            c[k] = v

        def sm():
            m[k] = st
        if st is None:
            return refused(sc)
        both(S, op, sc, sm)
    elif op == "del":
        k = key(S)

        def dc():
            del c[k]

        def dm():
            del m[k]
        both(S, op, dc, dm)
    elif op == "get":
        k = key(S)
        both(S, op, lambda: c[k], lambda: m[k])
    elif op == "pop":
        k = key(S)
        both(S, op, lambda: c.pop(k), lambda: m.pop(k))
    elif op == "popitem":
        both(S, op, lambda: c.popitem(), lambda: m.popitem())
    elif op in ("update_map", "update_pairs", "update_coll"):
        n = S.choice(3, "n")
        ps = [(key(S), val(S, kind, True)) for _ in range(n)]
        bad = any(st is None for _, (_, st) in ps)
        ex = [(k, st) for k, (_, st) in ps]
        raw = [(k, v) for k, (v, _) in ps]
        if op == "update_map":
            src = dict(raw)
            if bad and len(src) < n:
                return
        elif op == "update_pairs":
            src = raw if S.flag("aslist") else iter(raw)
        else:
            if bad:
                return
            src = cls(dict(raw))
        if bad:
            return refused(lambda: c.update(src))
        if op == "update_pairs":
            both(S, op, lambda: c.update(src), lambda: m.update(ex))
        else:
            both(S, op, lambda: c.update(src), lambda: m.update(dict(ex)))
    elif op == "update_kw":
        v, st = val(S, kind, True)
        w, st2 = val(S, kind, True)
        if st is None or st2 is None:
            return refused(lambda: c.update(a=v, b=w))
        both(S, op, lambda: c.update(a=v, b=w),
             lambda: m.update(a=st, b=st2))
    elif op == "update_both":
        k = S.pick(["a", "b", 0], "uk")
        (v, st), (w, st2) = val(S, kind), val(S, kind, True)
        src = S.pick([{k: v}, [(k, v)]], "src")
        if st2 is None:
            return refused(lambda: c.update(src, a=w))
        both(S, op, lambda: c.update(src, a=w),
             lambda: m.update({k: st}, a=st2))
    elif op == "clear":
        both(S, op, lambda: c.clear(), lambda: m.clear())
    elif op == "in":
        k = key(S)
        both(S, op, lambda: k in c, lambda: k in m)
    elif op == "eq":
        o = {}
        for _ in range(S.choice(3, "n")):
            o[key(S)] = S.int("e") if kind in ("int", "sloppy") else Item(x=S.int("e"))
        both(S, "eq", lambda: c == o, lambda: m == o)
        both(S, "ne", lambda: c != o, lambda: m != o)
        oc = cls(o)
        both(S, "eq coll", lambda: c == oc, lambda: m == o)
        both(S, "ne coll", lambda: c != oc, lambda: m != o)
    compare(S, c, m, typ, "after " + op)


def start(S, kind, nmax):
    cls, typ = KINDS[kind]
    m = {}
    for _ in range(S.choice(nmax + 1, "len")):
        m[key(S, "ik")] = S.int("e") if kind in ("int", "sloppy") else Item(x=S.int("e"))
    return cls(dict(m)), m


@harness(nmax=(2, 3), witness=["ops"])
def single_op(S):
    kind = S.pick(sorted(KINDS), "kind")
    c, m = start(S, kind, S.p["nmax"])
    do(S, S.pick(OPS, "op"), c, m, kind)
    S.observe("after", [[k, getattr(v, "x", v)]
                        for k, v in c.items()])
    S.witness("ops")


@harness(nops=(2, 3), witness=["end"])
def history(S):
    c, m = start(S, "item", 1)
    for _ in range(S.p["nops"]):
        op = S.pick(["set", "del", "pop", "popitem", "upd", "clear"], "op")
        if op == "set":
            k, v = key(S), Item(x=S.int("v"))
            c[k] = {"x": v.x}
            m[k] = v
        elif op == "upd":
            k, v = key(S), Item(x=S.int("v"))
            c.update([(k, v), ("a", v)])
            m.update([(k, v), ("a", v)])
        elif op == "clear":
            c.clear()
            m.clear()
        elif op == "popitem":
            both(S, op, c.popitem, m.popitem)
        else:
            k = key(S)
            if op == "del":
                both(S, op, lambda: c.__delitem__(k),
                     lambda: m.__delitem__(k))
            else:
                both(S, op, lambda: c.pop(k), lambda: m.pop(k))
    compare(S, c, m, Item, "after history")
    S.witness("end")


@harness(witness=["built", "refused"])
def construct(S):
    kind = S.pick(sorted(KINDS), "kind")
    cls, typ = KINDS[kind]
    how = S.pick(["dict", "kw", "gen", "iter", "coll", "othercoll", "items",
                  "none", "prop", "otherprop", "junk"], "how")
    if how == "junk":
        j = S.pick([5, 2.5, "str", True, object(), "", set([1])], "junk")
        where = S.flag("where")
        o = S.outcome(lambda: Drawer(items=j) if where else cls(j))
        S.check(not o.ok, "not a collection of entries, yet accepted: %s" %
                type(j).__name__)
        S.check(isinstance(o.exc, exc.CoercionError), "raises " + o.kind())
        return
    n = S.choice(3, "n")
    ps = [(key(S), val(S, kind, True)) for _ in range(n)]
    ok = all(st is not None for _, (_, st) in ps)
    raw = dict((k, v) for k, (v, _) in ps)
    S.assume(len(raw) == n)
    want = dict((k, st) for k, (_, st) in ps)
    if how == "dict":
        o = S.outcome(lambda: cls(raw))
    elif how == "kw":
        o = S.outcome(lambda: cls(values=raw))
    elif how == "gen":
        o = S.outcome(lambda: cls((k, v) for k, v in raw.items()))
    elif how == "iter":
        o = S.outcome(lambda: cls(iter(list(raw.items()))))
    elif how == "items":
        if not ok:
            return
        o = S.outcome(lambda: cls(cls(raw).itertuples()))
    elif how == "coll":
        if not ok:
            return
        src = cls(raw)
        o = S.outcome(lambda: cls(src))
    elif how in ("othercoll", "otherprop"):
        if kind != "item" or not ok:
            return
        src = OtherItemMap(raw)
        if how == "othercoll":
            o = S.outcome(lambda: cls(src))
        else:
            o = S.outcome(lambda: Drawer(items=src).items)
    elif how == "prop":
        if kind != "item":
            return
        o = S.outcome(lambda: Drawer(items=raw).items)
    else:
        if n:
            return
        o = S.outcome(lambda: cls())
    S.check(o.ok == ok, "construct from %s: %s" % (how, o.kind()))
    if not ok:
        S.check(isinstance(o.exc, exc.CoercionError), "raises " + o.kind())
        S.witness("refused")
        return
    c = o.value
    compare(S, c, want, typ, "construct from " + how)
    c["new key"] = 5 if kind in ("int", "sloppy") else Item(x=5)
    S.check(len(raw) == n, "source dict changed")
    if how in ("coll", "othercoll"):
        S.check(len(src) == n, "source collection changed")
    S.witness("built")


StrMap = dict_of(str)


@harness(n=(2, 3), witness=["sequence", "iterator", "pairs"])
def unkeyed(S):
    """values without keys get their positions for keys; an iterator may give
    a pair of a key and a value instead, which is a tuple of two things"""
    kind = S.pick(["int", "str", "any", "item"], "kind")
    how = S.pick(["list", "tuple", "coll", "iter", "gen"], "how")
    raw, want = [], {}
    for n in range(S.choice(S.p["n"] + 1, "len")):
        k = S.choice(2, "form") if how in ("iter", "gen") else 0
        if kind == "int":
            v = st = S.int("v")
        elif kind == "item":
            v = Item(x=S.int("v"))
            st = v
            if how != "coll" and S.flag("raw"):
                v = {"x": v.x}
        elif kind == "str":
            v = st = S.str("v", 2)
        else:
            v = st = S.pick([[1, 2], "ab", (1, 2, 3), (1,), (), None],
                            "value")
        if k == 0:
            raw.append(v)
            want[n] = st
        elif k == 1:
            key_ = S.pick(["k", 0, 7], "key")
            raw.append((key_, v))
            want[key_] = st
    cls = {"int": IntMap, "str": StrMap, "item": ItemMap,
           "any": dict_of(object)}[kind]
    if how == "list":
        src = list(raw)
    elif how == "tuple":
        src = tuple(raw)
    elif how == "coll":
        src = list_of(cls.itemtype)(raw)
    elif how == "iter":
        src = iter(raw)
    else:
        src = (v for v in raw)
    o = S.outcome(lambda: cls(src))
    S.check(o.ok, "construct from a %s: %s" % (how, o.kind()))
    c = o.value
    S.check(list(c.keys()) == list(want), how + ": keys")
    for k in want:
        S.check(S.eq(c[k], want[k]), how + ": value")
    S.witness("sequence" if how in ("list", "tuple", "coll") else
              "pairs" if any(isinstance(v, tuple) for v in raw) else
              "iterator")


@harness(witness=["end"])
def property_slot(S):
    n = S.choice(3, "n")
    src = {}
    for _ in range(n):
        src[key(S)] = {"x": S.int("a")}
    want = dict((k, Item(x=v["x"])) for k, v in src.items())
    d1, d2 = Drawer(items=src), Drawer(items=src)
    S.check(d1.items == d2.items, "equal dicts")
    old = d1.items
    v, st = val(S, "item", True)
    what = S.choice(3, "what")
    k = key(S)
    if what == 0:
        o = S.outcome(lambda: setattr(d1, "items", {k: v}))
        S.check(o.ok == (st is not None), "assignment " + o.kind())
        if o.ok:
            compare(S, d1.items, {k: st}, Item, "assigned")
        else:
            S.check(isinstance(o.exc, exc.CoercionError), "assign raises")
            S.check(d1.items is old, "refused assignment changed the slot")
            compare(S, d1.items, want, Item, "kept")
    elif what == 1:
        o = S.outcome(lambda: setattr(
            d1, "items", S.pick(["str", 5, 0.5], "notadict")))
        S.check(not o.ok and isinstance(o.exc, exc.CoercionError),
                "assigning a non-dict: " + o.kind())
        S.check(d1.items is old, "refused assignment changed the slot")
    else:
        o = S.outcome(lambda: d1.items.__setitem__(k, v))
        S.check(o.ok == (st is not None), "set " + o.kind())
    compare(S, d2.items, want, Item, "other record")
    S.witness("end")
