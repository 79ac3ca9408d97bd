"""Empty placeholders: chains through records in every state."""
from sx.api import harness, MISSING
import normalize
from normalize import Record, Property, ListProperty, DictProperty
from normalize.coll import list_of
from normalize.property import LazyProperty, ROProperty, SafeProperty
from normalize.property.types import IntProperty, StringProperty, \
    DateProperty
from normalize.empty import EmptyVal, placeholder
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("chains longer than 3 (quick) or 4 (thorough) steps, collections "
           "with more than 2 items, attributes that only a subclass of the "
           "declared type has")


class Calls(object):
    def __call__(self):
        return 1


class SubCalls(Calls):
    pass


class SubList(list):
    pass


class Open(object):
    def __getattr__(self, name):
        return 1


class SubOpen(Open):
    pass


class Leaf(Record):
    x = Property(isa=int)
    s = Property(isa=str)

    def method(self):
        return self


class Mid(Record):
    leaf = Property(isa=Leaf)
    leaves = ListProperty(of=Leaf)
    table = DictProperty(of=Leaf)
    nums = ListProperty(of=int)
    n = Property(isa=int)
    any = Property()


class Alt(Record):
    leaf = Property(isa=Mid)
    only = Property(isa=int)


class Root(Record):
    mid = Property(isa=Mid)
    mids = ListProperty(of=Mid)
    ro = ROProperty(isa=Mid)
    lazy = LazyProperty(isa=Leaf, default=lambda: None)
    either = Property(isa=(Mid, Alt))
    dflt = Property(isa=int, default="")
    v1 = Property(isa=int, v1_none=None)
    named = Property(isa=Leaf, empty_attr="maybe")
    off = Property(isa=Leaf, empty_attr=None)
    q1 = Property(isa=Leaf)


def leaf(S):
    kw = {}
    if S.flag("x"):
        kw["x"] = S.int("x")
    return Leaf(**kw)


def mid(S, depth):
    kw = {}
    k = S.choice(7, "mid")
    if k == 1:
        kw["leaf"] = leaf(S)
    elif k == 2:
        kw["leaves"] = [leaf(S)]
    elif k == 3:
        kw["table"] = {"a": leaf(S)}
    elif k == 4:
        kw["n"] = S.int("n")
    elif k == 5:
        kw["any"] = leaf(S)
    elif k == 6:
        kw["nums"] = [S.int("num")]
    return Mid(**kw)


def root(S):
    """a root with at most one slot set, and the way to it"""
    k = S.pick(["none", "mid", "mids", "ro", "either", "alt", "lazy"], "root")
    if k == "none":
        return Root()
    if k == "mids":
        return Root(mids=[mid(S, 1)])
    if k == "lazy":
        return Root(lazy=leaf(S))
    if k == "alt":
        return Root(either=Alt(leaf=mid(S, 1)) if S.flag("set") else
                    Alt(only=S.int("only")))
    return Root(**{k: mid(S, 1)})


# what a declared type allows: attribute -> declared type of the value
ANY = "any"
ATTRS = {
    Leaf: dict(x=int, s=str, method=ANY),
    Mid: dict(leaf=Leaf, leaves=[Leaf], table={"of": Leaf}, nums=[int],
              n=int, any=ANY),
    Alt: dict(leaf=Mid, only=int),
    Root: dict(mid=Mid, mids=[Mid], ro=Mid, either=(Mid, Alt)),
}


def attrs(t):
    """what may be read from a placeholder for the declared type(s)"""
    if t == ANY:
        return {"anything": ANY, "x": ANY}
    if isinstance(t, tuple):
        r = {}
        for x in t:
            for n, v in attrs(x).items():
                r[n] = tuple(flat(r.get(n))) + tuple(
                    y for y in flat(v) if y not in flat(r.get(n)))
                if len(r[n]) == 1:
                    r[n] = r[n][0]
        return r
    if isinstance(t, type):
        return ATTRS.get(t, {})
    return {}


def flat(v):
    return () if v is None else v if isinstance(v, tuple) else (v,)


def member(t):
    if t == ANY:
        return ANY
    if isinstance(t, list):
        return t[0]
    if isinstance(t, dict):
        return t["of"]
    if t is str:
        return ANY
    return None


def is_empty(S, e, msg):
    S.check(isinstance(e, EmptyVal), msg + ": no placeholder")
    S.check(not e, msg + ": placeholder is true")
    for other in (0, None, "", [], False, Leaf()):
        S.check(not e == other and e != other, msg + ": equals something")
    S.check(S.outcome(lambda: repr(e)).ok and S.outcome(lambda: str(e)).ok,
            msg + ": repr")


@harness(steps=(3, 4), witness=["value", "placeholder", "refused", "item"])
def chain(S):
    """attribute steps by their 0 name and item steps, against a model"""
    r = root(S)
    before = S.snap(r)
    cur, typ = r, Root
    path = ""
    for i in range(S.p["steps"]):
        if S.flag("stop"):
            break
        placeholder_now = isinstance(cur, EmptyVal)
        menu = sorted(attrs(typ)) if not isinstance(typ, (list, dict)) else []
        if placeholder_now:
            menu += ["bogus"]
        if member(typ) is not None or placeholder_now:
            menu += ["[]"]
        if placeholder_now:
            menu += ["[:]"]
        if not menu:
            break
        step = S.pick(menu, "step")
        path += "." + step
        if step == "[]":
            m = member(typ)
            key = "a" if isinstance(typ, dict) else \
                S.pick([0, 1, -1], "index")
            if typ is ANY and not placeholder_now:
                break
            if typ is str and not placeholder_now:
                break
            o = S.outcome(lambda: cur[key])
            if placeholder_now:
                if m is None:
                    S.check(o.raised(exc.NotSubscriptable), path + ": item "
                            "of what has none")
                    S.witness("refused")
                    break
                S.check(o.ok, path + ": " + o.kind())
                is_empty(S, o.value, path)
            else:
                inside = key in cur if isinstance(typ, dict) else \
                    -len(cur) <= key < len(cur)
                S.check(o.ok == inside, path + ": " + o.kind())
                if not inside:
                    S.check(o.raised(IndexError, KeyError), path + ": kind")
                    break
                S.witness("item")
            cur, typ = o.value, m
            continue
        if step == "[:]":
            o = S.outcome(lambda: cur[0:2])
            m = member(typ)
            if m is None:
                S.check(o.raised(exc.NotSubscriptable), path + ": slice of "
                        "what has none")
                break
            S.check(o.ok, path + ": slice " + o.kind())
            is_empty(S, o.value, path)
            cur = o.value
            continue
        if step == "bogus":
            o = S.outcome(lambda: cur.bogus)
            if typ == ANY:
                S.check(o.ok, path + ": any placeholder refuses")
                is_empty(S, o.value, path)
                cur = o.value
                continue
            S.check(o.raised(exc.NoSuchAttribute), path + ": bogus name: " +
                    o.kind())
            S.check(o.raised(AttributeError), path)
            S.witness("refused")
            break
        t2 = attrs(typ)[step]
        if typ == ANY and not placeholder_now:
            break
        if step == "method":
            o = S.outcome(lambda: cur.method)
            if placeholder_now:
                S.check(o.ok, path + ": method: " + o.kind())
                is_empty(S, o.value, path)
                o2 = S.outcome(lambda: o.value())
                S.check(o2.ok, path + ": call: " + o2.kind())
                is_empty(S, o2.value, path)
            break
        name = step
        plain = S.get(cur, step) if not placeholder_now else MISSING
        if not placeholder_now or (typ != ANY and S.flag("zero")):
            name = step + "0"
        if not placeholder_now and step not in type(cur).properties:
            break
        o = S.outcome(lambda: getattr(cur, name))
        S.check(o.ok, path + ": " + name + ": " + o.kind())
        if plain is not MISSING:
            S.check(o.value is plain, path + ": not the value of the slot")
            S.witness("value")
            if isinstance(t2, tuple) and not isinstance(t2, (list, dict)):
                t2 = type(plain)
        else:
            is_empty(S, o.value, path)
            S.witness("placeholder")
        cur, typ = o.value, t2
    S.check(S.eq(S.snap(r), before), path + ": the record changed")


@harness(witness=["empty", "set"])
def simple(S):
    """every kind of property; names of the accessor"""
    r = Root()
    name, acc = S.pick([("mid", "mid0"), ("mids", "mids0"), ("ro", "ro0"),
                        ("either", "either0"), ("named", "maybe"),
                        ("dflt", "dflt0")], "slot")
    if S.flag("set"):
        v = {"mids": lambda: [leaf(S) and Mid()], "dflt": lambda: S.int("v"),
             "named": lambda: leaf(S)}.get(name, lambda: mid(S, 1))()
        r = Root(**{name: v})
        S.check(getattr(r, acc) is getattr(r, name), name + ": value")
        S.witness("set")
    elif name == "dflt":
        S.check(r.dflt0 == "", "dflt0")
    else:
        is_empty(S, getattr(r, acc), name)
        S.check(name not in r.__dict__, name + ": set by reading")
        S.check(S.get(r, name) is MISSING, name + ": set by reading")
        S.check(getattr(r, acc) is getattr(r, acc), name + ": same")
        S.witness("empty")
    for n in ("off0", "q10", "v10", "named0"):
        S.check(not hasattr(r, n), n + " exists")


class Falsy(Record):
    i = Property(isa=int)
    s = Property(isa=str)
    l = ListProperty(of=int)
    any = Property()


@harness(witness=["end"])
def falsy(S):
    """set slots with falsy values are set"""
    v = S.pick(["i", "s", "l", "any"], "slot")
    val = {"i": S.int("i"), "s": S.str("s", 1), "l": [],
           "any": S.pick([None, False, 0, ()], "any")}[v]
    r = Falsy(**{v: val})
    S.check(getattr(r, v + "0") is getattr(r, v), v + ": value")
    S.check(not isinstance(getattr(r, v + "0"), EmptyVal), v)
    delattr(r, v)
    is_empty(S, getattr(r, v + "0"), v)
    S.witness("end")


@harness(witness=["end"])
def no_writes(S):
    """placeholders cannot be changed, and remember nothing"""
    r = Root()
    e = S.pick([lambda: r.mid0, lambda: r.mids0, lambda: r.mid0.leaf,
                lambda: r.mids0[0].n, lambda: r.mid0.any,
                lambda: r.mid0.table], "where")()
    n = S.pick(["leaf", "bogus", "n", "x"], "name")
    o = S.outcome(lambda: setattr(e, n, S.int("v")))
    S.check(o.raised(exc.BadAssignment), "attribute set: " + o.kind())
    k = S.int("k")
    o = S.outcome(lambda: e.__setitem__(k, 1))
    S.check(o.raised(exc.BadAssignment), "item set: " + o.kind())
    is_empty(S, r.mid0, "mid0")
    is_empty(S, r.mid0.leaf.x, "mid0.leaf.x")
    S.check(not r.__dict__, "record changed")
    S.witness("end")


@harness(witness=["looped", "refused"])
def iterate(S):
    """iterating over a placeholder ends at once"""
    r = Root()
    e, ok = S.pick([
        (lambda: r.mids0, True), (lambda: r.mid0.leaves, True),
        (lambda: r.mid0.table, True), (lambda: r.mid0.any, True),
        (lambda: r.mid0.nums[1:], True), (lambda: r.mid0.n, False),
        (lambda: r.mid0.leaf.s, True), (lambda: r.mid0.leaf, False)], "where")
    e = e()

    def loop():
        n = 0
        for x in e:
            n += 1
            if n > 5:
                break
        return n
    o = S.outcome(loop)
    if ok:
        S.check(o.ok and o.value == 0, "iterates over something: " + o.kind())
        S.check(S.outcome(lambda: S.int("v") in e).value is False, "in")
        S.witness("looped")
    else:
        S.check(o.raised(TypeError), "iterates over what has no items")
        S.witness("refused")


@harness(witness=["call", "item", "attr", "refused"])
def protocols(S):
    """what a declared type inherits counts as much as what it defines"""
    t = S.pick([Calls, SubCalls, list, SubList, dict, str, int, Open,
                SubOpen], "type")
    u = S.pick([None, int, SubCalls, SubList], "or")
    ts = (t,) if u is None or u is t else (t, u)
    cls = type("H", (Record,), {"p": Property(isa=ts if len(ts) > 1 else t)})
    e = cls().p0
    is_empty(S, e, "p0")
    o = S.outcome(lambda: e())
    can = any(issubclass(x, Calls) for x in ts)
    S.check(o.ok if can else o.raised(exc.NotCallable), "call " + o.kind())
    if can:
        S.witness("call")
    o = S.outcome(lambda: e[0])
    can = any(issubclass(x, (list, dict, str)) for x in ts)
    S.check(o.ok if can else o.raised(exc.NotSubscriptable),
            "item " + o.kind())
    if can:
        S.witness("item")
    o = S.outcome(lambda: e.no_such_thing)
    can = any(issubclass(x, Open) for x in ts)
    S.check(o.ok if can else o.raised(exc.NoSuchAttribute),
            "attribute " + o.kind())
    S.witness("attr" if can else "refused")


@harness(witness=["declared", "inherited", "method", "overridden"])
def names(S):
    """the accessor never hides what a class declares under its name"""
    v, w = S.int("v"), S.int("w")
    k = S.choice(4, "k")
    if k == 3:
        base = type("B", (Record,), {"foo": Property(isa=int)})
        cls = type("C", (base,), {"foo": Property(isa=Leaf)})
        is_empty(S, cls().foo0.x, "overridden")
        S.check(S.outcome(lambda: base().foo0.x).raised(AttributeError),
                "base changed")
        S.check(cls(foo={"x": v}).foo0.x == v, "overridden property")
        S.witness("overridden")
    elif k == 0:
        body = [("foo", Property(isa=int)), ("foo0", Property(isa=int))]
        if S.flag("order"):
            body.reverse()
        cls = type("C", (Record,), dict(body))
        r = cls(foo=v, foo0=w)
        S.check(r.foo == v and r.foo0 == w, "declared property hidden")
        r.foo0 = v
        S.check(r.foo0 == v and r.foo == v, "assignment")
        S.witness("declared")
    elif k == 1:
        ptype = S.pick([Property, SafeProperty], "ptype")
        base = type("B", (Record,), {"foo0": ptype(isa=int)})
        cls = type("C", (base,), {"foo": Property(isa=int)})
        r = cls(foo=v)
        S.check(S.outcome(lambda: r.foo0).raised(AttributeError),
                "inherited property hidden while unset")
        r = cls(foo=v, foo0=w)
        S.check(r.foo == v and r.foo0 == w, "inherited property hidden")
        S.check(not S.outcome(lambda: cls(foo0="no")).ok,
                "an inherited property takes anything")
        r = cls(foo=v)
        if ptype is SafeProperty:
            S.check(not S.outcome(setattr, r, "foo0", "no").ok,
                    "an inherited property takes anything")
        r.foo0 = w
        S.check(r.foo0 == w, "assignment")
        S.witness("inherited")
    else:
        cls = type("C", (Record,), {
            "foo": Property(isa=int), "foo0": lambda self: w})
        r = cls(foo=v)
        S.check(r.foo0() == w, "method hidden")
        S.witness("method")


# ---- names, indices and keys chosen by the solver

class Short(Record):
    a = Property(isa=int)
    b = Property(isa=Leaf)
    ab = ListProperty(of=Leaf)
    b0 = Property(isa=int)
    c = Property(isa=Leaf, empty_attr="a0b")
    d = Property(isa=int, empty_attr=None)


class Outer(Record):
    s = Property(isa=Short)
    ss = ListProperty(of=Short)


@harness(nlen=(2, 3), witness=["declared", "unknown", "accessor", "none"])
def any_name(S):
    """any attribute of a placeholder, and of a record, under any name"""
    name = S.str("name", S.p["nlen"], 1, "abcd0")
    declared = ("a", "b", "ab", "b0", "c", "d")
    accessors = {"a0": "a", "ab0": "ab", "b00": "b0", "a0b": "c"}
    where = S.choice(3, "where")
    if where < 2:
        r = Outer()
        e = r.s0 if where == 0 else r.ss0[S.int("i")]
        o = S.outcome(lambda: getattr(e, name))
        if any(name == n for n in declared):
            S.check(o.ok, "declared: " + o.kind())
            is_empty(S, o.value, "declared")
            if name == "b" or name == "c":
                is_empty(S, o.value.x, "below")
            S.witness("declared")
        elif any(name == n for n in accessors):
            # (either is fine: the accessors of a placeholder)
            if o.ok:
                is_empty(S, o.value, "accessor")
            else:
                S.check(o.raised(exc.NoSuchAttribute), o.kind())
        else:
            S.check(o.raised(exc.NoSuchAttribute),
                    "no such name: " + o.kind())
            S.witness("unknown")
        S.check(not r.__dict__, "record changed")
        return
    v = S.int("v")
    slots = {"a": v, "b": Leaf(x=v), "ab": [Leaf()], "b0": v,
             "c": Leaf(), "d": v}
    have = dict((k, slots[k]) for k in sorted(slots) if S.flag(k))
    r = Short(**have)
    o = S.outcome(lambda: getattr(r, name))
    for n in declared:
        if name == n:
            S.check(o.ok == (n in have), n + ": " + o.kind())
            if o.ok:
                S.check(o.value is r.__dict__[n], n + ": value")
            return
    for acc in sorted(accessors):
        if name == acc:
            n = accessors[acc]
            S.check(o.ok, acc + ": " + o.kind())
            if n in have:
                S.check(o.value is r.__dict__[n], acc + ": value")
            else:
                is_empty(S, o.value, acc)
            S.witness("accessor")
            return
    S.check(o.raised(AttributeError), "no such name: " + o.kind())
    S.witness("none")


@harness(size=(2, 3), witness=["inside", "outside", "empty", "key", "nokey"])
def any_item(S):
    """any index or key of a collection in a slot, through its accessor"""
    r = Root()
    n = S.choice(S.p["size"] + 1, "n")
    xs = [S.int("x") for _ in range(n)]
    what = S.pick(["list", "nums", "dict", "unset"], "what")
    i = S.int("i")
    if what == "unset":
        for e in (r.mids0, r.mid0.leaves, r.mid0.nums, r.mid0.any):
            o = S.outcome(lambda: e[i])
            S.check(o.ok, "item of a placeholder: " + o.kind())
            is_empty(S, o.value, "item")
        e = r.mid0.table[S.str("key", 2)]
        is_empty(S, e, "dict item")
        is_empty(S, e.x, "slot of a dict item")
        S.check(S.outcome(lambda: e.y).raised(exc.NoSuchAttribute),
                "slot that dict items do not have")
        is_empty(S, r.mids0[i].leaves[i].x, "deeper")
        S.check(S.outcome(lambda: r.mids0[i].x).raised(exc.NoSuchAttribute),
                "slot that list items do not have")
        S.check(not r.__dict__, "record changed")
        S.witness("empty")
        return
    if what == "dict":
        keys = ["", "a", "ab"][:n]
        m = Mid(table=dict((k, Leaf(x=x)) for k, x in zip(keys, xs)))
        key = S.str("key", 2, 0, "ab")
        o = S.outcome(lambda: m.table0[key].x0)
        for k, x in zip(keys, xs):
            if key == k:
                S.check(o.ok and o.value == x, "dict item: " + o.kind())
                S.witness("key")
                return
        S.check(o.raised(KeyError), "no such key: " + o.kind())
        S.witness("nokey")
        return
    m = Mid(leaves=[Leaf(x=x) if x > 0 else Leaf() for x in xs]) \
        if what == "list" else Mid(nums=xs)
    r = Root(mid=m)
    o = S.outcome(lambda: r.mid0.leaves0[i] if what == "list" else
                  r.mid0.nums0[i])
    if not -n <= i < n:
        S.check(o.raised(IndexError), "no such index: " + o.kind())
        S.witness("outside")
        return
    x = xs[i]
    S.check(o.ok, "item: " + o.kind())
    if what == "nums":
        S.check(o.value == x, "another item")
    elif x > 0:
        S.check(o.value.x0 == x, "another item")
    else:
        is_empty(S, o.value.x0, "unset slot of an item")
    S.witness("inside")
