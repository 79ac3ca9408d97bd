"""Type-safe slots: every assignment, deletion and construction, with coerce
and check functions that may do anything."""
from sx.api import harness, MISSING
import normalize
from normalize import Record, Property
from normalize.property import SafeProperty, LazySafeProperty, V1Property
from normalize.property.coll import ListProperty
from normalize.subtype import subtype
import normalize.exc as exc

OUTSIDE = ("histories longer than 2 (quick) or 3 (thorough) operations, "
           "string values longer than 2 characters, coerce functions that "
           "depend on state other than the value")


VALIDATE_EVERY = 17


class Item(Record):
    x = Property(isa=int)


class Item2(Item):
    pass


class H(object):
    """what the coerce and check functions of the current run do"""
    coerce = check = None
    seen_coerce = []
    seen_check = []


def co(v):
    H.seen_coerce.append(v)
    return H.coerce(v)


def ck(v):
    H.seen_check.append(v)
    return H.check(v)


pos = subtype("pos", of=int, where=lambda x: x > 0)
posc = subtype("posc", of=int, where=lambda x: x > 0, coerce=lambda v: co(v))


class R(Record):
    """one slot of every shape, and a witness slot that must never change"""
    i = Property(isa=int)
    s = Property(isa=str)
    t = Property(isa=(int, str), coerce=co)
    tn = Property(isa=(int, type(None)), coerce=co)
    ic = Property(isa=int, coerce=co)
    ick = Property(isa=int, coerce=co, check=ck)
    ik = Property(isa=int, check=ck)
    k = Property(check=ck)
    st = Property(isa=pos)
    stc = Property(isa=posc)
    sk = Property(isa=pos, coerce=co, check=ck)
    item = Property(isa=Item)
    itemc = Property(isa=Item, coerce=co, check=ck)
    lz = LazySafeProperty(isa=int, coerce=co, check=ck, default=lambda: 1)
    un = Property(traits=["safe"])
    other = Property(isa=int)
    lst = Property(isa=list)


class Req(Record):
    i = Property(isa=int, required=True)
    ic = Property(isa=int, coerce=co, required=True)
    ick = Property(isa=int, coerce=co, check=ck, required=True)
    any = Property(required=True)
    k = Property(check=ck, required=True)


def is_pos(v):
    return isinstance(v, int) and v > 0


# slot -> (predicate of the declared type, coerce reference, has check)
SLOTS = {
    "i": (lambda v: isinstance(v, int), int, False),
    "s": (lambda v: isinstance(v, str), str, False),
    "t": (lambda v: isinstance(v, (int, str)), "co", False),
    "tn": (lambda v: v is None or isinstance(v, int), "co", False),
    "ic": (lambda v: isinstance(v, int), "co", False),
    "ick": (lambda v: isinstance(v, int), "co", True),
    "ik": (lambda v: isinstance(v, int), int, True),
    "k": (None, None, True),
    "st": (is_pos, "fail", False),
    "stc": (is_pos, "co", False),
    "sk": (is_pos, "co", True),
    "item": (lambda v: isinstance(v, Item), Item, False),
    "itemc": (lambda v: isinstance(v, Item), "co", True),
    "lz": (lambda v: isinstance(v, int), "co", True),
    "un": (None, None, False),
    "any": (None, None, False),
}

HOOKED = ("co",)


def value(S, slot, label="v", few=False):
    if few:
        return S.pick([S.int(label), "5", None, 2.5, {"x": 1}], label)
    k = S.choice(7, label + ".kind")
    if k == 0:
        return S.int(label)
    if k == 1:
        return S.str(label, 2, alphabet=" -+_019a\u0663")
    if k == 2:
        return None
    if k == 3:
        return S.pick([2.5, float("inf"), True, [], {}], label + ".other")
    if k == 4:
        return Item(x=S.int(label + ".x"))
    if k == 5:
        return Item2(x=S.int(label + ".x"))
    if k == 6:
        return S.pick([{"x": S.int(label + ".x")}, {"nope": 1},
                       {"x": "bad"}], label + ".d")


class Boom(Exception):
    pass


def hook_coerce(S):
    """any behaviour of a coerce function: returns something or raises"""
    k = S.choice(8, "coerce")
    if k == 0:
        r = S.int("cv")
        return lambda v: r
    if k == 1:
        return lambda v: None
    if k == 2:
        return lambda v: "w"
    if k == 3:
        r = Item(x=S.int("cv"))
        return lambda v: r

    def raiser(e):
        def f(v):
            raise e
        return f
    if k == 4:
        return raiser(Boom("boom"))
    if k == 5:
        return raiser(S.pick([AttributeError("a"), KeyError("k"),
                              TypeError("t"), StopIteration()], "exc"))
    if k == 6:
        r = S.pick([5, None, "w"], "carried")
        return raiser(exc.SubtypeCoerceError(
            subtype=pos, subtype_of=int, passed=0, coerced=r))
    return lambda v: v


def hook_check(S):
    k = S.choice(4, "check")
    if k == 0:
        return lambda v: True
    if k == 1:
        falsy = S.pick([False, None, 0, ""], "falsy")
        return lambda v: falsy
    if k == 2:
        lim = S.int("lim")
        return lambda v: isinstance(v, int) and v > lim

    def f(v):
        raise Boom("check")
    return f


REJECT = "reject"
BOOM = "boom"
UNSET = "unset"


def expect(S, slot, v, init, required):
    """what storing v must give: ("store", value) / (REJECT,) / (BOOM,) /
    (UNSET,) for a value that a coerce function turned into None while
    constructing a record"""
    isa, cref, has_check = SLOTS[slot]
    if v is None and required and isa is None:
        return (REJECT,)
    if isa is not None and not isa(v):
        if cref == "fail":
            return (REJECT,)
        try:
            nv = H.coerce(v) if cref == "co" else cref(v)
        except exc.SubtypeCoerceError as e:
            nv = e.coerced
        except Exception:
            return (REJECT,)
        if slot == "stc" and not is_pos(nv):
            # the subtype's own constructor refuses
            if nv is None and init and not required:
                return (UNSET,)
            return (REJECT,)
        if not isa(nv):
            if init and nv is None and not required:
                return (UNSET,)
            return (REJECT,)
        v = nv
    if has_check:
        try:
            if not H.check(v):
                return (REJECT,)
        except Exception:
            return (BOOM,)
    return ("store", v)


def apply_expect(S, what, slot, e, o, rec, model, v, before_coerce,
                 before_check):
    isa, cref, has_check = SLOTS[slot]
    if e[0] == "store":
        S.check(o.ok, "%s: %s for an acceptable value" % (what, o.kind()))
        model[slot] = e[1]
    elif e[0] == UNSET:
        S.check(o.ok, "%s: %s" % (what, o.kind()))
        model.pop(slot, None)
    else:
        S.check(not o.ok, what + ": unacceptable value accepted")
        if e[0] == REJECT:
            S.check(isinstance(o.exc, (exc.CoercionError,
                                       exc.AttributeValueError)),
                    "%s: rejected with %s" % (what, o.kind()))
    # what the functions were shown
    if cref == "co":
        for w in H.seen_coerce[before_coerce:]:
            S.check(w is v, what + ": coerce saw another value")
    if has_check and e[0] == "store":
        S.check(len(H.seen_check) > before_check, what + ": check not called")
        for w in H.seen_check[before_check:]:
            S.check(w is e[1] or (S.type(w) is S.type(e[1]) and w == e[1]),
                    what + ": check saw another value")


def verify(S, rec, model, what):
    for slot in type(rec).properties:
        if slot == "lz" and slot not in model:
            continue
        got = S.get(rec, slot)
        if slot in model:
            w = model[slot]
            S.check(got is not MISSING, what + ": %s lost" % slot)
            S.check(got is w or (S.type(got) is S.type(w) and got == w),
                    what + ": %s holds something else" % slot)
            isa = SLOTS[slot][0] if slot in SLOTS else None
            if isa is not None:
                S.check(isa(got), what + ": %s of the wrong type" % slot)
        else:
            S.check(got is MISSING, what + ": %s set" % slot)


def start():
    H.seen_coerce, H.seen_check = [], []


def same_passed(S, slot, v, e, got, what):
    """a value of the declared type is stored as passed, not a copy"""
    isa = SLOTS[slot][0]
    if e[0] == "store" and (isa is None or isa(v)):
        S.check(got is v, what + ": stored another object than passed")


@harness(nops=(2, 3), witness=["stored", "rejected", "deleted", "end"])
def assign(S):
    """assignments and deletions on one slot of any shape"""
    start()
    slot = S.pick(sorted(set(SLOTS) - set(["any"])), "slot")
    _, cref, has_check = SLOTS[slot]
    if cref == "co":
        H.coerce = hook_coerce(S)
    if has_check:
        H.check = hook_check(S)
    rec = R(other=7)
    model = {"other": 7}
    for n in range(S.p["nops"]):
        if slot in model and S.flag("del"):
            o = S.outcome(lambda: delattr(rec, slot))
            S.check(o.ok, "delete: " + o.kind())
            del model[slot]
            S.witness("deleted")
        else:
            v = value(S, slot, few=n > 0)
            e = expect(S, slot, v, False, False)
            bc, bk = len(H.seen_coerce), len(H.seen_check)
            o = S.outcome(lambda: setattr(rec, slot, v))
            apply_expect(S, "assign " + slot, slot, e, o, rec, model, v, bc,
                         bk)
            if o.ok:
                same_passed(S, slot, v, e, getattr(rec, slot),
                            "assign " + slot)
            S.witness("stored" if o.ok else "rejected")
        verify(S, rec, model, "after assignment to " + slot)
    S.witness("end")


@harness(witness=["built", "refused"])
def construct(S):
    """the same rules for values given to the constructor, then one
    assignment"""
    start()
    slot = S.pick(sorted(set(SLOTS) - set(["any"])), "slot")
    _, cref, has_check = SLOTS[slot]
    if cref == "co":
        H.coerce = hook_coerce(S)
    if has_check:
        H.check = hook_check(S)
    v = value(S, slot)
    e = expect(S, slot, v, True, False)
    model = {"other": 7}
    bc, bk = len(H.seen_coerce), len(H.seen_check)
    if S.flag("mapping"):
        o = S.outcome(lambda: R({"other": 7, slot: v}))
    else:
        o = S.outcome(lambda: R(**{slot: v, "other": 7}))
    apply_expect(S, "construct with " + slot, slot, e, o, None, model, v, bc,
                 bk)
    if not o.ok:
        S.witness("refused")
        return
    rec = o.value
    verify(S, rec, model, "constructed")
    if slot in model:
        same_passed(S, slot, v, e, getattr(rec, slot), "construct")
    S.witness("built")


@harness(witness=["built", "refused", "assigned"])
def required(S):
    """required slots: construction and assignment"""
    start()
    slot = S.pick(sorted(Req.properties), "slot")
    H.coerce = lambda v: v
    H.check = lambda v: True
    args = {"i": 1, "ic": 2, "ick": 3, "any": 4, "k": 5}
    rec = Req(**args)
    if SLOTS[slot][1] == "co":
        H.coerce = hook_coerce(S)
    if SLOTS[slot][2]:
        H.check = hook_check(S)
    v = value(S, slot)
    if S.flag("construct"):
        e = expect(S, slot, v, True, True)
        a = dict(args)
        a[slot] = v
        if SLOTS[slot][1] != "co":
            H.coerce = lambda v: v
        if not SLOTS[slot][2]:
            H.check = lambda v: True
        else:
            # other checked slots share the check function
            for other in ("ick", "k"):
                if other != slot:
                    try:
                        ok = H.check(a[other])
                    except Exception:
                        ok = False
                    S.assume(bool(ok))
        bc, bk = len(H.seen_coerce), len(H.seen_check)
        o = S.outcome(lambda: Req(**a))
        if e[0] == "store":
            S.check(o.ok, "construct: " + o.kind())
            got = getattr(o.value, slot)
            S.check(got is e[1] or (S.type(got) is S.type(e[1]) and
                                    got == e[1]), "constructed value")
            S.witness("built")
        else:
            S.check(not o.ok, "construct: unacceptable value accepted")
            if e[0] != BOOM:
                S.check(isinstance(o.exc, (exc.CoercionError,
                                           exc.AttributeValueError)),
                        "construct rejected with " + o.kind())
            S.witness("refused")
        return
    model = dict(args)
    e = expect(S, slot, v, False, True)
    bc, bk = len(H.seen_coerce), len(H.seen_check)
    o = S.outcome(lambda: setattr(rec, slot, v))
    apply_expect(S, "assign " + slot, slot, e, o, rec, model, v, bc, bk)
    for s, w in model.items():
        got = getattr(rec, s)
        S.check(got is w or (S.type(got) is S.type(w) and got == w),
                "after assignment: " + s)
    S.witness("assigned")


class Multi(Record):
    a = Property(isa=int)
    b = Property(isa=str, coerce=lambda v: str(int(v) + 1))
    c = Property(isa=Item)
    cs = ListProperty(of=Item)


@harness(nops=(2, 3), witness=["end"])
def several_slots(S):
    """operations on several slots of one record do not disturb each other,
    nor another record of the class; the slots of subclasses and collection
    slots follow the same rules"""
    start()
    r1, r2 = Multi(), Multi(a=1, b="x", c={"x": 2}, cs=[{"x": 3}])
    model = {}
    for _ in range(S.p["nops"]):
        k = S.choice(5, "op")
        if k == 0:
            v = S.pick([S.int("v"), "12", "zz", None], "a")
            try:
                want = int(v)
            except Exception:
                want = MISSING
            o = S.outcome(lambda: setattr(r1, "a", v))
            S.check(o.ok == (want is not MISSING), "a: " + o.kind())
            if o.ok:
                model["a"] = want
        elif k == 1:
            v = S.pick([S.int("v"), "12", "zz", None], "b")
            o = S.outcome(lambda: setattr(r1, "b", v))
            if isinstance(v, str):
                want = v
            elif v is None:
                want = MISSING
            else:
                want = str(v + 1)
            S.check(o.ok == (want is not MISSING), "b: " + o.kind())
            if o.ok:
                model["b"] = want
        elif k == 2:
            n = S.int("v")
            v = S.pick([{"x": n}, Item(x=n), Item2(x=n), 5], "c")
            o = S.outcome(lambda: setattr(r1, "c", v))
            S.check(o.ok == (not isinstance(v, int)), "c: " + o.kind())
            if o.ok:
                model["c"] = v if isinstance(v, Item) else Item(x=n)
        elif k == 3:
            n = S.int("v")
            v = S.pick([[{"x": n}], [Item(x=n), Item2(x=n)], [5], 5], "cs")
            o = S.outcome(lambda: setattr(r1, "cs", v))
            ok = not isinstance(v, int) and not isinstance(v[0], int)
            S.check(o.ok == ok, "cs: " + o.kind())
            if ok:
                model["cs"] = [w if isinstance(w, Item) else Item(x=n)
                               for w in v]
        else:
            which = S.pick(["a", "b", "c", "cs"], "which")
            if which in model:
                o = S.outcome(lambda: delattr(r1, which))
                S.check(o.ok, "delete: " + o.kind())
                del model[which]
        for s in ("a", "b", "c", "cs"):
            got = S.get(r1, s)
            if s not in model:
                S.check(got is MISSING, s + " set")
                continue
            S.check(got is not MISSING, s + " lost")
            if s == "cs":
                S.check(isinstance(got, Multi.properties["cs"].valuetype),
                        "type of cs")
                S.check(len(got) == len(model[s]), "items of cs")
                for i in range(len(got)):
                    S.check(isinstance(got[i], Item), "item type")
                    S.check(type(got[i]) is type(model[s][i]) and
                            got[i] == model[s][i], "item of cs")
            else:
                S.check(S.type(got) is S.type(model[s]) and got == model[s],
                        s + " differs")
    S.check(r2.a == 1 and r2.b == "x" and r2.c.x == 2 and len(r2.cs) == 1 and
            r2.cs[0].x == 3, "another record changed")
    S.witness("end")
