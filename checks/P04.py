"""Lazy properties: computed at most once, on demand, checked like assigned
values, for any default function and any history of reads and writes."""
from sx.api import harness, MISSING
import copy
import pickle
import normalize
from normalize import Record, Property, JsonRecord
from normalize.property import SafeProperty, LazyProperty, ROProperty, \
    LazySafeProperty, ROLazyProperty, V1Property
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("histories longer than 3 (quick) or 4 (thorough) operations, the last a read, "
           "default functions that write to the record they compute from")


class Item(Record):
    x = Property(isa=int)


class F(object):
    """the default function of the current run"""
    calls = []
    plan = None


def fn():
    F.calls.append(None)
    return F.plan()


def meth(self):
    F.calls.append(self)
    return F.plan()


def ck(v):
    return F.check(v)


def co(v):
    return F.coerce(v)


def any_type(v):
    return True


def is_int(v):
    return isinstance(v, int)


def maybe_int(v):
    return v is None or isinstance(v, int)


def is_item(v):
    return isinstance(v, Item)


# name -> (declaration, predicate, coercion reference, checked, writable kind)
DECL = {
    "lazy": (lambda: LazyProperty(default=fn), any_type, None, False,
             "unsafe"),
    "lazym": (lambda: LazyProperty(default=meth), any_type, None, False,
              "unsafe"),
    "typed": (lambda: LazyProperty(isa=int, default=fn, traits=["unsafe"]),
              is_int, int, False, "unsafe"),
    "safe": (lambda: LazySafeProperty(isa=int, default=fn), is_int, int,
             False, "safe"),
    "arg": (lambda: Property(isa=int, lazy=True, default=meth), is_int, int,
            False, "safe"),
    "trait": (lambda: Property(isa=int, traits=["lazy"], default=meth),
              is_int, int, False, "safe"),
    "checked": (lambda: Property(isa=int, lazy=True, default=meth, check=ck),
                is_int, int, True, "safe"),
    "checkonly": (lambda: LazyProperty(default=fn, check=ck), any_type, None,
                  True, "safe"),
    "coerced": (lambda: Property(isa=int, lazy=True, default=fn, coerce=co,
                                 check=ck), is_int, co, True, "safe"),
    "maybe": (lambda: Property(isa=(int, type(None)), lazy=True, default=fn,
                               coerce=co), maybe_int, co, False, "safe"),
    "maybero": (lambda: ROLazyProperty(isa=(int, type(None)), default=meth,
                                       coerce=co), maybe_int, co, False,
                "ro"),
    "any": (lambda: LazySafeProperty(default=meth), any_type, None, False,
            "safe"),
    "item": (lambda: Property(isa=Item, lazy=True, default=meth), is_item,
             Item, False, "safe"),
    "ro": (lambda: ROLazyProperty(isa=int, default=meth), is_int, int, False,
           "ro"),
    "roarg": (lambda: Property(isa=int, lazy=True, traits=["ro"],
                               default=fn, check=ck), is_int, int, True,
              "ro"),
    "json": (lambda: Property(isa=int, lazy=True, default=fn,
                              json_name="pj"), is_int, int, False, "safe"),
    "diffas": (lambda: Property(isa=int, lazy=True, default=meth,
                                compare_as=lambda x: x), is_int, int, False,
               "safe"),
    "extr": (lambda: Property(isa=int, lazy=True, default=meth,
                              extraneous=True), is_int, int, False, "safe"),
    "req": (lambda: Property(isa=int, lazy=True, default=fn, required=True),
            is_int, int, False, "safe"),
}

CLASSES = {}


def cls_of(name, base):
    if (name, base) not in CLASSES:
        CLASSES[name, base] = type("L_" + name, (base,), {
            "p": DECL[name][0](), "other": Property(isa=int),
            "plain": Property()})
    return CLASSES[name, base]


class Boom(Exception):
    pass


def plan(S):
    """what the default function does: a value of any kind, or an error"""
    k = S.choice(5, "plan")
    if k == 0:
        n = S.int("lazyval")
        return lambda: n
    if k == 1:
        return lambda: "41"
    if k == 2:
        n = S.int("lazyval")
        return lambda: Item(x=n)
    if k == 3:
        w = S.pick([None, "zz", {"x": 5}], "oddval")
        return lambda: w

    e = S.pick([Boom("x"), ValueError("v"), KeyError("k")], "err")

    def f():
        raise e
    return f


def store(S, name, v):
    """the value that results from storing v, or MISSING when refused"""
    _, pred, cref, checked, _ = DECL[name]
    if not pred(v):
        try:
            v = cref(v)
        except Exception:
            return MISSING
        if not pred(v):
            return MISSING
    if checked and not F.check(v):
        return MISSING
    return v


def same(S, a, b):
    return a is b or (S.type(a) is S.type(b) and a == b)


INSPECT = ["repr", "str", "json", "len", "copy", "deepcopy", "pickle",
           "other", "otherdel", "in", "dir", "plain0"]


def inspect_other(S, r, what):
    """operations which do not look at the slot p"""
    if what == "other":
        r.other = S.int("o")
        return r.other
    if what == "otherdel":
        if "other" in r.__dict__:
            del r.other
        return None
    if what == "repr":
        return repr(r)
    if what == "plain0":
        return r.plain0
    if what == "dir":
        return dir(r)
    if what == "in":
        return "p" in r.__dict__
    if what == "copy":
        return copy.copy(r)
    if what == "deepcopy":
        return copy.deepcopy(r)
    if what == "pickle":
        return S.pickle(r, 2)


@harness(nops=(3, 4), witness=["computed", "given", "failed"])
def lazy(S):
    F.calls = []
    name = S.pick(sorted(DECL), "decl")
    make, pred, cref, checked, kind = DECL[name]
    lim = S.int("lim")
    F.check = lambda v: isinstance(v, int) and v > lim
    F.coerce = lambda v: int(v) + 1
    cls = cls_of(name, S.pick([Record, JsonRecord], "base") if name in
                 ("json", "safe", "ro") else Record)
    S.check(not F.calls, "declaring called the default")
    F.plan = plan(S)
    state = MISSING
    if S.flag("given"):
        v = S.pick([S.int("v"), "5"], "v")
        want = store(S, name, v)
        o = S.outcome(lambda: cls(p=v))
        S.check(o.ok == (want is not MISSING),
                name + ": construction " + o.kind())
        if not o.ok:
            return
        r, state = o.value, want
        S.witness("given")
    else:
        r = cls()
    S.check(not F.calls, name + ": construction called the default")
    twin = cls()
    computed = None
    ncalls = 0
    for i in range(S.p["nops"]):
        if i + 1 == S.p["nops"]:
            k = 0
        else:
            k = S.choice(4 if kind != "ro" else 3, "op")
        before = len(F.calls)
        if k == 0:
            # read
            o = S.outcome(lambda: r.p)
            if state is not MISSING:
                S.check(o.ok, name + ": read: " + o.kind())
                S.check(same(S, o.value, state), name + ": reads otherwise")
                S.check(len(F.calls) == before,
                        name + ": set property computed again")
                if computed is not None:
                    S.check(o.value is computed, name + ": another object")
                computed = o.value
            else:
                S.check(len(F.calls) == before + 1,
                        name + ": default calls on first read")
                if DECL[name][0].__code__.co_names and \
                        cls.properties["p"].default is meth:
                    S.check(F.calls[-1] is r, name + ": self of the default")
                try:
                    raw = F.plan()
                    want = store(S, name, raw)
                except Exception as e:
                    want = MISSING
                    S.check(not o.ok and isinstance(o.exc, type(e)),
                            name + ": error of the default: " + o.kind())
                S.check(o.ok == (want is not MISSING),
                        "%s: computed value: %s" % (name, o.kind()))
                if o.ok:
                    S.check(same(S, o.value, want), name + ": computed value")
                    S.check(pred(o.value), name + ": type of computed value")
                    S.check("p" in r.__dict__, name + ": not stored")
                    state = o.value
                    computed = o.value
                    S.witness("computed")
                else:
                    S.check("p" not in r.__dict__,
                            name + ": failed computation stored something")
                    S.witness("failed")
        elif k == 1:
            inspect_other(S, r, S.pick(
                ["repr", "other", "plain0", "copy"] if
                i or S.tier == "quick" else
                ["repr", "other", "otherdel", "plain0", "dir", "copy",
                 "deepcopy", "pickle", "in"], "inspect"))
            S.check(len(F.calls) == before,
                    name + ": computed by an unrelated operation")
            S.check(("p" in r.__dict__) == (state is not MISSING),
                    name + ": slot state changed")
        elif k == 2:
            # another record of the class
            o = S.outcome(lambda: twin.p)
            S.check(("p" in r.__dict__) == (state is not MISSING),
                    name + ": another record's read set the slot")
            if o.ok:
                S.check(len(F.calls) <= before + 1, name + ": twin calls")
                twin = cls()
        else:
            if S.flag("del"):
                if state is MISSING or name == "req":
                    continue
                o = S.outcome(lambda: delattr(r, "p"))
                S.check(o.ok, name + ": delete: " + o.kind())
                state, computed = MISSING, None
            else:
                v = S.pick([S.int("v"), "5", None], "assigned")
                want = v if kind == "unsafe" else store(S, name, v)
                o = S.outcome(lambda: setattr(r, "p", v))
                S.check(o.ok == (want is not MISSING),
                        name + ": assignment " + o.kind())
                if o.ok:
                    state, computed = want, None
                S.check(same(S, r.__dict__.get("p", MISSING), state),
                        name + ": stored")
            S.check(len(F.calls) == before,
                    name + ": default called by assignment or deletion")
        if state is not MISSING:
            S.check(same(S, r.__dict__.get("p", MISSING), state),
                    name + ": slot differs")


class Chain(Record):
    """lazy properties computed from each other"""
    a = Property(isa=int)
    b = Property(isa=int, lazy=True, default=lambda self: Chain.note(
        "b") or self.a + 1)
    c = Property(isa=int, lazy=True, default=lambda self: Chain.note(
        "c") or self.b * 2 + self.a)
    d = ROLazyProperty(isa=int, default=lambda self: Chain.note(
        "d") or self.c - self.b)
    log = []

    @staticmethod
    def note(x):
        Chain.log.append(x)


@harness(witness=["end"])
def chain(S):
    """each of a chain of lazy properties is computed once, in whatever order
    they are read; a record without the input leaves them all unset"""
    Chain.log = []
    n = S.int("a")
    r = Chain(a=n)
    S.check(not Chain.log, "construction computed")
    want = {"b": n + 1, "c": (n + 1) * 2 + n, "d": (n + 1) + n}
    for _ in range(3):
        k = S.pick(["b", "c", "d"], "read")
        S.check(getattr(r, k) == want[k], "value of " + k)
    S.check(sorted(set(Chain.log)) == sorted(Chain.log), "computed twice")
    for k in ("b", "c", "d"):
        S.check((k in r.__dict__) == (k in Chain.log), "slot of " + k)
    e = Chain()
    k = S.pick(["b", "c", "d"], "unset")
    S.check(S.get(e, k) is MISSING, "computed from nothing")
    S.check(not e.__dict__, "failed computation left something")
    e.a = n
    S.check(getattr(e, k) == want[k], "value after input was set")
    S.check(r.b == want["b"], "record disturbed")
    S.witness("end")


@harness(witness=["end"])
def falsy_constants(S):
    """a lazy property with a constant default reads as that constant,
    whatever its truth value"""
    dflt = S.pick([S.int("d"), S.str("s", 1), None], "default")
    how = S.choice(3, "how")
    if how == 0:
        p = LazyProperty(default=dflt)
    elif how == 1:
        p = Property(lazy=True, default=dflt)
    else:
        p = ROLazyProperty(default=dflt)
    cls = type("K", (Record,), {"p": p})
    r = cls()
    S.check("p" not in r.__dict__, "lazy set early")
    got = S.get(r, "p")
    S.check(same(S, got, dflt), "constant default of a lazy property")
    S.check(S.get(r, "p") is got, "another object")
    S.witness("end")
