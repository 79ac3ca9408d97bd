"""Required slots stay present, read-only slots never change: every trait
combination, any history of assignments and deletions."""
from sx.api import harness, MISSING
import normalize
from normalize import Record, Property, JsonRecord
from normalize.property import SafeProperty, LazyProperty, ROProperty, \
    LazySafeProperty, ROLazyProperty, V1Property
from normalize.property.coll import ListProperty, DictProperty
from normalize.property.json import JsonProperty, JsonListProperty
from normalize.property.types import IntProperty, StringProperty, \
    NumberProperty, DateProperty
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("histories longer than 2 (quick) or 4 (thorough) operations; "
           "writing to a record's __dict__ directly")


class Item(Record):
    x = Property(isa=int)


class Calls(object):
    n = 0


def lazy_value():
    Calls.n += 1
    return Calls.n


# read-only declarations: name -> (make, value kind, default or MISSING)
RO = {
    "plain": (lambda: ROProperty(), "any", MISSING),
    "trait": (lambda: Property(traits=["ro"]), "any", MISSING),
    "typed": (lambda: ROProperty(isa=int), "int", MISSING),
    "traittyped": (lambda: Property(isa=int, traits=["ro"]), "int", MISSING),
    "req": (lambda: Property(isa=int, required=True, traits=["ro"]), "int",
            MISSING),
    "checked": (lambda: Property(traits=["ro"], check=lambda x: True), "any",
                MISSING),
    "default": (lambda: ROProperty(isa=int, default=3), "int", 3),
    "calldef": (lambda: ROProperty(default=lambda: 3), "any", 3),
    "falsy": (lambda: ROProperty(isa=int, default=0), "int", 0),
    "emptystr": (lambda: Property(traits=["ro"], default=""), "any", ""),
    "v1": (lambda: ROProperty(isa=int, v1_none=None), "int", None),
    "v1trait": (lambda: V1Property(isa=int, traits=["ro"]), "int", None),
    "lazy": (lambda: ROLazyProperty(isa=int, default=lazy_value), "int",
             "lazy"),
    "lazytrait": (lambda: Property(isa=int, traits=["ro"], lazy=True,
                                   default=lazy_value), "int", "lazy"),
    "lazyjson": (lambda: ROLazyProperty(isa=int, default=lazy_value,
                                        json_name="zz"), "int", "lazy"),
    "lazyv1": (lambda: Property(isa=int, traits=["ro"], lazy=True,
                                default=0), "int", 0),
    "json": (lambda: Property(isa=int, json_name="jj", traits=["ro"]), "int",
             MISSING),
    "jsonv1": (lambda: Property(isa=int, json_name="jj", traits=["ro"],
                                default=0), "int", 0),
    "jsonprop": (lambda: JsonProperty(isa=int, traits=["ro"]), "int",
                 MISSING),
    "diffas": (lambda: Property(isa=int, compare_as=lambda x: x,
                                traits=["ro"]), "int", MISSING),
    "safe": (lambda: SafeProperty(isa=int, traits=["ro"]), "int", MISSING),
    "safelazy": (lambda: LazySafeProperty(isa=int, traits=["ro"],
                                          default=lazy_value), "int", "lazy"),
    "intprop": (lambda: IntProperty(traits=["ro"]), "int", MISSING),
    "intlazyjson": (lambda: IntProperty(traits=["ro"], json_name="q",
                                        lazy=True, default=lazy_value),
                    "int", "lazy"),
    "item": (lambda: ROProperty(isa=Item), "item", MISSING),
    "list": (lambda: ListProperty(of=Item, traits=["ro"]), "list", MISSING),
    "listof": (lambda: Property(list_of=Item, traits=["ro"]), "list",
               MISSING),
    "jsonlist": (lambda: Property(list_of=Item, json_name="ll",
                                  traits=["ro"]), "list", MISSING),
    "jsonlistp": (lambda: JsonListProperty(of=Item, traits=["ro"]), "list",
                  MISSING),
    "dict": (lambda: DictProperty(of=Item, traits=["ro"]), "dict", MISSING),
    "extr": (lambda: Property(isa=int, traits=["ro"], extraneous=True),
             "int", MISSING),
}

CLASSES = {}


def cls_of(name, table, base):
    key = (name, id(table), base)
    if key not in CLASSES:
        CLASSES[key] = type("C_" + name, (base,), {
            "p": table[name][0](), "other": Property(isa=int)})
    return CLASSES[key]


def given(S, kind):
    """(value passed, value stored)"""
    n = S.int("v")
    if kind == "int":
        return S.pick([(n, n), ("17", 17)], "given")
    if kind == "any":
        return S.pick([(n, n), (None, None), ([n], [n])], "given")
    if kind == "item":
        it = Item(x=n)
        return S.pick([(it, it), ({"x": n}, it)], "given")
    if kind == "list":
        return [{"x": n}], [Item(x=n)]
    return {"k": {"x": n}}, {"k": Item(x=n)}


def attempt(S, kind):
    """a value someone tries to assign: good and bad ones"""
    n = S.int("w")
    return S.pick([n, None, "x", {"x": n}, [], Item(x=n)], "attempt")


def stored(S, got, want, kind, what):
    S.check(got is not MISSING, what + ": read-only slot lost")
    if kind == "list":
        S.check(len(got) == len(want) and
                all(got[i] == want[i] for i in range(len(want))), what)
    elif kind == "dict":
        S.check(len(got) == 1 and got["k"] == want["k"], what)
    else:
        S.check(got is want or (S.type(got) is S.type(want) and got == want),
                what + ": read-only slot changed")


def refuse(S, r, k, what):
    if k == 0:
        w = attempt(S, what)
        o = S.outcome(lambda: setattr(r, "p", w))
    else:
        o = S.outcome(lambda: delattr(r, "p"))
    S.check(not o.ok, "%s: read-only slot %s" % (
        what, "deleted" if k else "assigned"))
    S.check(o.raised(exc.ReadOnlyAttributeError),
            "%s: %s instead of ReadOnlyAttributeError" % (what, o.kind()))


@harness(nops=(2, 4), witness=["set", "unset", "lazy"])
def readonly(S):
    """any read-only declaration, any state, any history of attempts"""
    Calls.n = 0
    name = S.pick(sorted(RO), "decl")
    _, kind, dflt = RO[name]
    cls = cls_of(name, RO, S.pick([Record, JsonRecord], "base"))
    S.check(isinstance(cls.properties["p"], ROProperty),
            name + ": not read-only")
    args = {"other": 1}
    if name == "req" or S.flag("given"):
        v, want = given(S, kind)
        args["p"] = v
        isset = True
        S.witness("set")
    else:
        want = dflt
        isset = False
        S.witness("lazy" if dflt == "lazy" else "unset")
    r = cls(**args)
    first = None
    for _ in range(S.p["nops"]):
        k = S.choice(4, "op")
        if k < 2:
            refuse(S, r, k, name)
        elif k == 2:
            got = S.get(r, "p")
            if isset:
                stored(S, got, want, kind, name)
                if first is not None:
                    S.check(got is first[0], name + ": another object")
                first = (got,)
            elif want == "lazy":
                S.check(got is not MISSING, name + ": lazy unset")
                want, isset = got, True
            elif want is MISSING:
                S.check(got is MISSING, name + ": unset slot reads")
            else:
                S.check(S.type(got) is S.type(want) and got == want,
                        name + ": default")
        else:
            r.other = S.int("o")
    if isset:
        stored(S, S.get(r, "p"), want, kind, name + " at the end")
    elif want is MISSING:
        S.check("p" not in r.__dict__, name + ": unset slot became set")


# required declarations: name -> (make, kind, None is a member of the type)
REQ = {
    "plain": (lambda: Property(required=True), "any", False),
    "safe": (lambda: SafeProperty(required=True), "any", False),
    "int": (lambda: Property(isa=int, required=True), "int", False),
    "optint": (lambda: Property(isa=(int, type(None)), required=True,
                                coerce=lambda x: int(x)), "int", True),
    "obj": (lambda: Property(isa=object, required=True), "any", True),
    "check": (lambda: Property(required=True, check=lambda x: True), "any",
              False),
    "tonone": (lambda: Property(isa=int, required=True,
                                coerce=lambda x: None), "int", False),
    "default": (lambda: Property(required=True, isa=int, default=5), "int",
                False),
    "json": (lambda: Property(required=True, isa=int, json_name="j"), "int",
             False),
    "jsonany": (lambda: Property(required=True, json_name="j"), "any",
                False),
    "list": (lambda: Property(required=True, list_of=Item), "list", False),
    "dict": (lambda: DictProperty(required=True, of=Item), "dict", False),
    "item": (lambda: Property(required=True, isa=Item), "item", False),
    "diffas": (lambda: Property(required=True, compare_as=lambda x: x),
               "any", False),
    "extr": (lambda: Property(required=True, extraneous=True), "any", False),
    "intprop": (lambda: IntProperty(required=True), "int", False),
    "numprop": (lambda: NumberProperty(required=True), "int", False),
    "dateprop": (lambda: DateProperty(required=True), "date", False),
    "v1int": (lambda: Property(required=True, isa=int, v1_none=None), "int",
              False),
    "v1any": (lambda: Property(required=True, v1_none=None), "any", False),
    "v1zero": (lambda: V1Property(required=True, isa=int, v1_none=0), "int",
               False),
}


def good_value(S, kind):
    n = S.int("v")
    if kind == "item":
        return Item(x=n)
    if kind == "list":
        return [Item(x=n)]
    if kind == "dict":
        return {"k": Item(x=n)}
    if kind == "date":
        import datetime
        return datetime.date(2020, 1, 2)
    return n


def check_present(S, r, name, kind, want, what):
    got = S.get(r, "p")
    S.check(got is not MISSING, what + ": required slot unset")
    S.check("p" in r.__dict__, what + ": required slot unset")
    if kind in ("list", "dict"):
        stored(S, got, want, kind, what)
    else:
        S.check(got is want or (S.type(got) is S.type(want) and got == want),
                what + ": required slot changed")
    if not REQ[name][2]:
        S.check(got is not None, what + ": required slot is None")


@harness(nops=(2, 4), witness=["missing", "none", "end"])
def required(S):
    """any required declaration, any history"""
    name = S.pick(sorted(REQ), "decl")
    make, kind, none_ok = REQ[name]
    cls = cls_of(name, REQ, S.pick([Record, JsonRecord], "base"))
    how = S.choice(3, "construct")
    if how == 0:
        o = S.outcome(lambda: cls(other=1))
        if name == "default":
            S.check(o.ok and o.value.p == 5, "default of a required slot")
        else:
            S.check(o.raised(exc.PropertyRequired),
                    "%s: missing required slot: %s" % (name, o.kind()))
        S.witness("missing")
        return
    if how == 1:
        o = S.outcome(lambda: cls(p=None, other=1))
        if o.ok:
            S.check(none_ok or o.value.p is not None,
                    name + ": required slot constructed as None")
        else:
            S.check(not none_ok, name + ": None refused")
            S.check(isinstance(o.exc, (exc.CoercionError,
                                       exc.AttributeValueError)),
                    name + ": None refused with " + o.kind())
        S.witness("none")
        return
    want = good_value(S, kind)
    r = cls(p=want, other=1)
    check_present(S, r, name, kind, want, name + " built")
    for _ in range(S.p["nops"]):
        k = S.choice(5, "op")
        if k == 0:
            o = S.outcome(lambda: delattr(r, "p"))
            S.check(not o.ok, name + ": required slot deleted")
            S.check(isinstance(o.exc, exc.PropertyRequired),
                    name + ": delete refused with " + o.kind())
        elif k == 1:
            o = S.outcome(lambda: setattr(r, "p", None))
            if kind in ("list", "dict", "item") and o.ok:
                # the declared type makes an empty value of None
                want = S.get(r, "p")
                S.check(want is not None and want is not MISSING,
                        name + ": None stored")
                if kind == "dict":
                    S.check(len(want) == 0, name + ": made of None")
                    want = good_value(S, kind)
                    r.p = want
                continue
            S.check(o.ok == none_ok, "%s: assigning None: %s" % (
                name, o.kind()))
            if o.ok:
                want = None
            else:
                S.check(isinstance(o.exc, (exc.CoercionError,
                                           exc.AttributeValueError)),
                        name + ": None refused with " + o.kind())
        elif k == 2:
            want = good_value(S, kind)
            o = S.outcome(lambda: setattr(r, "p", want))
            S.check(o.ok, name + ": good value refused: " + o.kind())
        elif k == 3:
            bad = S.pick(["zz", [5], {"k": 5}], "bad")
            o = S.outcome(lambda: setattr(r, "p", bad))
            if o.ok:
                want = S.get(r, "p")
                S.check(want is bad, name + ": coerced bad value")
        else:
            o = S.outcome(lambda: delattr(r, "other"))
            S.check(o.ok or "other" not in r.__dict__, "delete other")
        check_present(S, r, name, kind, want, name)
    S.witness("end")


# deletable declarations
DEL = {
    "safe": (lambda: Property(isa=int), "int", MISSING),
    "plain": (lambda: Property(), "any", MISSING),
    "safeany": (lambda: SafeProperty(), "any", MISSING),
    "default": (lambda: Property(isa=int, default=4), "int", MISSING),
    "json": (lambda: Property(isa=int, json_name="j"), "int", MISSING),
    "list": (lambda: Property(list_of=Item), "list", MISSING),
    "jsonlist": (lambda: JsonListProperty(of=Item), "list", MISSING),
    "dict": (lambda: DictProperty(of=Item), "dict", MISSING),
    "item": (lambda: Property(isa=Item), "item", MISSING),
    "lazy": (lambda: LazySafeProperty(isa=int, default=lazy_value), "int",
             "lazy"),
    "v1": (lambda: V1Property(isa=int), "int", None),
    "v1z": (lambda: Property(isa=int, default=0), "int", 0),
    "diffas": (lambda: Property(isa=int, compare_as=lambda x: x), "int",
               MISSING),
    "extr": (lambda: Property(isa=int, extraneous=True), "int", MISSING),
    "check": (lambda: Property(check=lambda x: True), "any", MISSING),
}


@harness(nops=(3, 4), witness=["end"])
def deletable(S):
    """optional safe slots can be deleted when set; afterwards they are unset;
    deleting an unset slot raises AttributeError"""
    Calls.n = 0
    name = S.pick(sorted(DEL), "decl")
    make, kind, unset = DEL[name]
    cls = cls_of(name, DEL, S.pick([Record, JsonRecord], "base"))
    r = cls(p=good_value(S, kind), other=1)
    isset = True
    for _ in range(S.p["nops"]):
        if S.flag("del"):
            o = S.outcome(lambda: delattr(r, "p"))
            if isset:
                S.check(o.ok, name + ": delete: " + o.kind())
            else:
                S.check(o.ok if name in ("v1", "v1z") else
                        isinstance(o.exc, AttributeError),
                        name + ": deleting an unset slot: " + o.kind())
            isset = False
        else:
            v = good_value(S, kind)
            o = S.outcome(lambda: setattr(r, "p", v))
            S.check(o.ok, name + ": assign: " + o.kind())
            isset = True
        if not isset:
            S.check("p" not in r.__dict__, name + ": still there")
            if unset != "lazy":
                got = S.get(r, "p")
                S.check(got is unset or (
                    unset is not MISSING and got == unset),
                    name + ": reads after deletion")
        else:
            S.check("p" in r.__dict__, name + ": lost")
        S.check(r.other == 1, "other slot")
    S.witness("end")


# ---- values and names that decide

class Guard(Record):
    """a read-only slot and a required one, with conditions of their own"""
    limit = 0

    ro = Property(isa=int, check=lambda x: x > Guard.limit,
                  coerce=lambda x: Guard.convert(x), traits=["ro"])
    req = Property(isa=int, required=True,
                   coerce=lambda x: Guard.convert(x))
    free = Property(isa=int, check=lambda x: x > Guard.limit)

    @staticmethod
    def convert(x):
        # (conditional: some values have no conversion, or None for one)
        return None if x < "ab" else len(x) if x < "b" else x


class GuardJ(JsonRecord, Guard):
    pass


def word(S, label):
    return S.str(label, 3, 0, "ab")


@harness(nops=(2, 3), witness=["same", "other", "bad", "unset"])
def guarded(S):
    """read-only slots with symbolic values and conditions: assigning is
    refused whatever the value is (also the one that is there already, or one
    that is no value of the type), and conditions hold at construction"""
    limit = Guard.limit = S.int("limit")
    cls = S.pick([Guard, GuardJ], "class")
    v = S.int("v")
    given = S.flag("given")
    o = S.outcome(lambda: cls(req=1, **({"ro": v} if given else {})))
    if given and not v > limit:
        S.check(o.raised(exc.ValueCoercionError, exc.AttributeValueError,
                         exc.CoercionError),
                "condition not checked: " + o.kind())
        S.witness("bad")
        return
    S.check(o.ok, "refused: " + o.kind())
    r = o.value
    for _ in range(S.p["nops"]):
        k = S.choice(4, "op")
        w = S.int("w") if k < 2 else word(S, "word")
        if k == 3:
            o = S.outcome(lambda: delattr(r, "ro"))
        else:
            o = S.outcome(lambda: setattr(r, "ro", w))
        S.check(o.raised(exc.ReadOnlyAttributeError),
                "read-only slot: " + o.kind())
        if given:
            S.check(r.ro == v, "changed")
            S.witness("same" if k < 2 and w == v else "other")
        else:
            S.check("ro" not in r.__dict__, "set")
            S.witness("unset")


@harness(nops=(2, 3), witness=["number", "converted", "refused"])
def required_values(S):
    """required slots whose conversion makes None of some values only"""
    Guard.limit = 0
    cls = S.pick([Guard, GuardJ], "class")
    cur = S.int("v")
    r = None
    for n in range(S.p["nops"]):
        new = S.int("w") if S.flag("number") else word(S, "word")
        if r is None:
            o = S.outcome(lambda: cls(req=new))
        else:
            o = S.outcome(lambda: setattr(r, "req", new))
        if S.type(new) is int:
            S.check(o.ok, "number refused: " + o.kind())
            cur = new
            S.witness("number")
        elif "ab" <= new < "b":
            S.check(o.ok, "refused: " + o.kind())
            cur = len(new)
            S.witness("converted")
        else:
            S.check(not o.ok, "required slot without a value")
            S.check(isinstance(o.exc, (exc.CoercionError,
                                       exc.AttributeValueError)),
                    "refused with " + o.kind())
            S.witness("refused")
            if r is None:
                return
        if r is None:
            r = o.value
        S.check("req" in r.__dict__, "unset")
        S.check(S.type(r.req) is int and r.req == cur, "another value")


class Names(Record):
    aa = Property(isa=int, traits=["ro"])
    ab = Property(isa=int, required=True)
    b = Property(isa=int)
    bb = Property(isa=int, traits=["ro"], default=5)


class NamesJ(JsonRecord):
    aa = Property(isa=int, traits=["ro"], json_name="b")
    ab = Property(isa=int, required=True)
    b = Property(isa=int, json_name="aa")
    bb = Property(isa=int, traits=["ro"], default=5)


@harness(nops=(2, 3), witness=["ro", "required", "free"])
def any_name(S):
    """setattr and delattr under any name: only the writable slots change"""
    cls = S.pick([Names, NamesJ], "class")
    v, w, u = S.int("v"), S.int("w"), S.int("u")
    r = cls(aa=v, ab=w, b=u)
    want = {"aa": v, "ab": w, "b": u, "bb": 5}
    for _ in range(S.p["nops"]):
        name = S.str("name", 2, 1, "abc")
        x = S.int("x")
        if S.flag("del"):
            o = S.outcome(lambda: delattr(r, name))
        else:
            o = S.outcome(lambda: setattr(r, name, x))
        for n in ("aa", "bb"):
            if name == n:
                S.check(o.raised(exc.ReadOnlyAttributeError),
                        "read-only: " + o.kind())
                S.witness("ro")
        if name == "ab":
            S.check(o.ok or isinstance(o.exc, exc.PropertyRequired),
                    "required: " + o.kind())
            if o.ok:
                want["ab"] = x
            S.witness("required")
        if name == "b":
            S.check(o.ok or (isinstance(o.exc, AttributeError) and
                             want["b"] is None), "free: " + o.kind())
            if o.ok:
                want["b"] = S.get(r, "b")
                S.check(want["b"] is MISSING or want["b"] == x, "free value")
                want["b"] = None if want["b"] is MISSING else x
            S.witness("free")
        S.check(r.aa == want["aa"] and r.bb == 5, "read-only slot changed")
        S.check(r.ab == want["ab"], "required slot lost or changed")
        S.check(want["b"] is None or r.b == want["b"], "another slot")
