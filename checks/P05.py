"""Properties with a v1 none value: every state, every assignment."""
from sx.api import harness, MISSING
import copy
import normalize
from normalize import Record, Property, JsonRecord
from normalize.property import SafeProperty, LazyProperty, ROProperty, \
    V1Property
from normalize.property.types import IntProperty, StringProperty
from normalize.record.json import to_json, from_json
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("histories longer than 2 (quick) or 3 (thorough) operations")


class Item(Record):
    x = Property(isa=int)


def is_int(v):
    return isinstance(v, int)


def is_str(v):
    return isinstance(v, str)


def fussy(v):
    if v is None or v == "":
        raise ValueError("no")
    return int(v)


def positive(v):
    return v is not None and v != "" and (isinstance(v, str) or v > 0)


def is_item(v):
    return isinstance(v, Item)


# name -> (declaration of the none value n, none value kind, predicate, coerce,
#          the default upgraded it)
DECL = {
    "v1": (lambda n: V1Property(isa=int), None, is_int, int, False),
    "v1any": (lambda n: V1Property(), None, None, None, False),
    "v1str": (lambda n: V1Property(isa=str), None, is_str, str, False),
    "v1coerce": (lambda n: V1Property(isa=int, coerce=fussy), None, is_int,
                 fussy, False),
    "v1none": (lambda n: Property(isa=int, v1_none=None), None, is_int, int,
               False),
    "v1int": (lambda n: Property(isa=int, v1_none=n), "int", is_int, int,
              False),
    "v1strint": (lambda n: V1Property(isa=int, v1_none=n), "str", is_int, int,
                 False),
    "v1item": (lambda n: Property(isa=Item, v1_none=n), "str", is_item, Item,
               False),
    "v1json": (lambda n: Property(isa=int, v1_none=None, json_name="pj"),
               None, is_int, int, False),
    "v1jsonstr": (lambda n: Property(isa=str, v1_none=n, json_name="pj"),
                  "str", is_str, str, False),
    "trait": (lambda n: Property(isa=int, traits=["safe", "v1"]), None,
              is_int, int, False),
    "intprop": (lambda n: IntProperty(v1_none=n), "str", is_int, int, False),
    "dnone": (lambda n: Property(default=None), None, None, None, True),
    "dnoneint": (lambda n: Property(isa=int, default=None), None, is_int, int,
                 True),
    "dzero": (lambda n: Property(isa=int, default=0), 0, is_int, int, True),
    "demptyint": (lambda n: Property(isa=int, coerce=fussy, default=""), "",
                  is_int, fussy, True),
    "dfalse": (lambda n: Property(default=False), False, None, None, True),
    "dtuple": (lambda n: Property(default=()), (), None, None, True),
    "djson": (lambda n: Property(isa=int, default=None, json_name="pj"), None,
              is_int, int, True),
    "dunsafe": (lambda n: Property(traits=["unsafe"], default=0), 0, None,
                None, True),
    "ditem": (lambda n: Property(isa=Item, default=None), None, is_item, Item,
              True),
    "ckint": (lambda n: Property(isa=int, v1_none=n, check=positive), "int",
              is_int, int, False),
    "ckstr": (lambda n: V1Property(isa=str, v1_none=n, check=positive), "str",
              is_str, str, False),
    "ckdef": (lambda n: Property(isa=int, default=0, check=positive), 0,
              is_int, int, True),
    "ckany": (lambda n: V1Property(check=positive), None, None, None, False),
}


def none_value(S, kind):
    if kind == "int":
        return S.int("none")
    if kind == "str":
        return S.str("none", 1, alphabet="0- a")
    return kind


def value(S, pred):
    k = S.choice(6, "vkind")
    if k == 0:
        return S.int("v")
    if k == 1:
        return S.str("v", 1, alphabet="0- a")
    if k == 2:
        return None
    if k == 3:
        return Item(x=S.int("v"))
    if k == 4:
        return S.pick([(), False, 2.5, [], {"bad": 1}], "other")
    return {"x": S.int("v")}


def same(S, a, b):
    return a is b or (S.type(a) is S.type(b) and a == b)




@harness(nops=(2, 3), witness=["unset", "set", "cleared", "refused"])
def history(S):
    name = S.pick(sorted(DECL), "decl")
    make, nk, pred, cref, upgraded = DECL[name]
    none = none_value(S, nk)
    base = S.pick([Record, JsonRecord], "base")
    cls = type("V", (base,), {"p": make(none), "other": Property(isa=int)})
    S.check(isinstance(cls.properties["p"], V1Property), name + ": not v1")
    if S.flag("given"):
        v = S.int("v")
        if pred is is_str:
            v = S.str("v", 1)
        elif pred is is_item:
            v = Item(x=v)
        if name.startswith("ck"):
            S.assume(positive(v))
        r = cls(p=v, other=1)
        state = v
    else:
        r = cls(other=1)
        state = MISSING
    for i in range(S.p["nops"] + 1):
        # the state as seen by reading
        o = S.outcome(lambda: r.p)
        S.check(o.ok, name + ": reading raises " + o.kind())
        if state is MISSING:
            S.check(same(S, o.value, none), name + ": unset slot reads")
            S.check("p" not in r.__dict__, name + ": slot set")
            S.witness("unset")
        else:
            S.check(same(S, o.value, state), name + ": set slot reads")
            S.witness("set")
        S.check(r.other == 1, name + ": other slot")
        if i == S.p["nops"]:
            break
        if S.flag("del"):
            o = S.outcome(lambda: delattr(r, "p"))
            S.check(o.ok, name + ": delete: " + o.kind())
            state = MISSING
            continue
        v = value(S, pred)
        want, ok, checked = v, True, True
        if pred is not None and not pred(v):
            try:
                want = cref(v)
                ok = bool(pred(want))
            except Exception:
                ok = False
        if ok and name.startswith("ck"):
            S.assume(want is None or isinstance(want, (int, str)))
            checked = positive(want)
        o = S.outcome(lambda: setattr(r, "p", v))
        if not checked:
            # of the right type and refused by the check: not the none value
            S.check(not o.ok, name + ": accepted against its check")
            S.check(isinstance(o.exc, ValueError),
                    name + ": refused by the check: " + o.kind())
        elif ok:
            S.check(o.ok, name + ": valid value: " + o.kind())
            state = want
        elif v is None or v == none:
            S.check(o.ok, name + ": assigning the none value: " + o.kind())
            state = MISSING
            S.witness("cleared")
        else:
            S.check(not o.ok, name + ": invalid value accepted")
            S.check(isinstance(o.exc, exc.CoercionError),
                    name + ": invalid value: " + o.kind())
            S.witness("refused")


JNAME = dict((k, "pj" if "json" in k else "p") for k in DECL)


@harness(witness=["end"])
def facilities(S):
    """equality, repr, str, hash, copying, JSON output and diff of records
    with v1 slots in every state"""
    name = S.pick(sorted(DECL), "decl")
    make, nk, pred, cref, upgraded = DECL[name]
    none = none_value(S, nk)
    S.assume(none != " ")
    base = S.pick([Record, JsonRecord], "base")
    cls = type("V", (base,), {"p": make(none), "other": Property(isa=int)})
    rs = []
    for i in range(2):
        st = S.choice(4, "state")
        if st == 0:
            r = cls(other=1)
        else:
            v = S.int("v")
            if pred is is_str:
                v = S.str("v", 1, 1, alphabet="ab0-")
            elif pred is is_item:
                v = Item(x=v)
            if name.startswith("ck"):
                S.assume(positive(v))
            r = cls(p=v, other=1)
            if st == 2:
                del r.p
            if st == 3 and pred is not None:
                o = S.outcome(lambda: setattr(r, "p", None))
                S.check(o.ok, name + ": assigning None: " + o.kind())
        rs.append(r)
    a, b = rs
    before = dict(a.__dict__), dict(b.__dict__)
    va, vb = a.p, b.p
    k = S.choice(7, "facility")
    if k == 0:
        o = S.outcome(lambda: (a == b, b == a, a != b))
        S.check(o.ok, name + ": == raises " + o.kind())
        eq, qe, ne = o.value
        S.check(bool(eq) == bool(qe) and bool(eq) != bool(ne), "== and !=")
        S.check(bool(eq) == bool(va == vb), name + ": ==")
    elif k == 1:
        o = S.outcome(lambda: repr(a))
        S.check(o.ok, name + ": repr raises " + o.kind())
        S.check(("p=" in o.value) == ("p" in a.__dict__),
                name + ": repr shows the slot when it is set")
    elif k == 2:
        o = S.outcome(lambda: str(a))
        S.check(o.ok, name + ": str raises " + o.kind())
    elif k == 3:
        o = S.outcome(lambda: to_json(a) if base is Record else
                      a.json_data())
        S.check(o.ok, name + ": JSON output raises " + o.kind())
        jd = o.value
        if isinstance(va, int) and not isinstance(va, bool):
            S.assume(abs(va) < 2 ** 50)
        jn = JNAME[name]
        isset = "p" in a.__dict__
        S.check((jn in jd) == (isset or upgraded),
                name + ": slot in the JSON output")
        if jn in jd:
            want = list(va) if type(va) is tuple else va
            if isinstance(va, Item):
                want = {}
                if "x" in va.__dict__:
                    want["x"] = va.x
                    S.assume(abs(va.x) < 2 ** 50)
            S.check(S.eq(jd[jn], want), name + ": value in the JSON output")
        S.check(jd["other"] == 1 and len(jd) == 1 + (jn in jd),
                name + ": rest of the JSON output")
    elif k == 4:
        o = S.outcome(lambda: list(a.diff(b)))
        S.check(o.ok, name + ": diff raises " + o.kind())
        S.check((not o.value) or bool(va != vb),
                name + ": difference between equal slots")
        if not o.value:
            S.check(va == vb, name + ": diff of different slots is empty")
    elif k == 5:
        c = S.pick([copy.copy, copy.deepcopy], "copier")
        o = S.outcome(lambda: c(a))
        S.check(o.ok, name + ": copy raises " + o.kind())
        S.check(o.value == a and ("p" in o.value.__dict__) ==
                ("p" in a.__dict__), name + ": copy differs")
    else:
        o = S.outcome(lambda: getattr(a, "p0", None))
        S.check(o.ok, name + ": p0 raises " + o.kind())
    S.check(list(a.__dict__) == list(before[0]) and
            list(b.__dict__) == list(before[1]), name + ": slots changed")
    S.witness("end")


@harness(witness=["default", "none"])
def both_given(S):
    """a default beside an explicit none value stays a default"""
    n = S.pick([S.int("n"), None, "", 0, ()], "none")
    d = S.pick([S.int("d"), None, "", 0, False, 5, [1]], "default")
    isa = S.pick([None, int], "isa")
    if isa:
        S.assume(isinstance(d, int))
    how = S.flag("trait")
    kw = {"isa": isa} if isa else {}
    p = (V1Property if how else Property)(v1_none=n, default=d, **kw)
    r = type("B", (Record,), {"p": p})()
    S.check("p" in r.__dict__, "default next to a none value: slot unset")
    S.check(same(S, r.p, d), "default next to a none value")
    S.witness("default")
    del r.p
    S.check("p" not in r.__dict__ and same(S, r.p, n), "none value")
    S.check(("p=" in repr(r)) is False, "repr")
    S.witness("none")


@harness(witness=["default", "accessor"])
def own_default(S):
    """a default that is not false stays a default of a v1 property"""
    d = S.pick([S.int("d"), S.str("d", 1), "x", 5, [1], True], "default")
    how = S.choice(3, "how")
    p = [lambda: V1Property(default=d),
         lambda: Property(traits=["safe", "v1"], default=d),
         lambda: V1Property(isa=object, default=d)][how]()
    r = type("O", (Record,), {"p": p})()
    S.check(("p" in r.__dict__) == (True if isinstance(d, list) else bool(d)),
            "slot of the default")
    S.check(same(S, r.p, d), "reads as the default")
    S.witness("default")
    # an accessor for empty values can be had by asking for it
    q = S.pick([V1Property, Property], "type")(v1_none=None, empty_attr="alt")
    r = type("A", (Record,), {"p": q})()
    o = S.outcome(lambda: r.alt)
    S.check(o.ok and o.value is None, "accessor: " + o.kind())
    v = r.p = S.int("v")
    S.check(r.alt is v, "accessor of a set slot")
    S.check(S.outcome(lambda: r.p0).raised(AttributeError), "p0")
    S.witness("accessor")


@harness(witness=["upgraded", "kept", "mutable"])
def upgrade(S):
    """a default upgrades a property exactly when it is false and hashable"""
    v = S.pick([S.int("d"), S.str("d", 1), None, False, True, 0.0, 1.5, (),
                (0,), [], {}, [0]], "default")
    how = S.choice(3, "how")
    if how == 0:
        p = Property(default=v)
    elif how == 1:
        p = Property(default=v, json_name="x")
    else:
        p = Property(default=v, check=lambda x: True)
    cls = type("U", (Record,), {"p": p})
    r = cls()
    hashable = not isinstance(v, (list, dict))
    up = hashable and not v
    S.check(isinstance(p, V1Property) == bool(up), "upgraded to v1")
    S.check(("p" in r.__dict__) == (not up), "slot of the default")
    S.check(same(S, r.p, v), "reads as the default")
    S.witness("upgraded" if up else "kept")
    m = S.pick([[], {}, [1]], "mutable")
    o = S.outcome(lambda: V1Property(v1_none=m))
    S.check(o.raised(exc.NoneMutable), "mutable none value: " + o.kind())
    S.witness("mutable")
