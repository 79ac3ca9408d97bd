"""Record construction: every declaration menu times every way of passing."""
from sx.api import harness, MISSING
import normalize
from normalize import Record, Property
from normalize.property import SafeProperty, LazyProperty, ROProperty, \
    LazySafeProperty
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("classes with more than 2 (quick) or 3 (thorough) freely declared "
           "slots, property names longer than 2 characters, defaults that "
           "read other defaulted slots of the same record")


class D(object):
    """the default function of the run and its calls"""
    calls = 0
    given = None


def default_fn():
    D.calls += 1
    return [D.calls]


def default_int():
    D.calls += 1
    return D.calls


def self_default(self):
    D.calls += 1
    D.given = self
    return ("of", D.calls)


class Box(Record):
    v = Property(isa=int)


# name -> (declaration, kind of default)
MENU = {
    "plain": (lambda: Property(), None),
    "int": (lambda: Property(isa=int), None),
    "req": (lambda: Property(required=True), "required"),
    "reqint": (lambda: Property(isa=int, required=True), "required"),
    "dflt": (lambda: Property(default=5), 5),
    "dfltint": (lambda: Property(isa=int, default="12"), 12),
    "dfltnone": (lambda: Property(default=None), None),
    "zero": (lambda: Property(isa=int, default=0), 0),
    "empty": (lambda: Property(isa=str, default=""), ""),
    "fn": (lambda: Property(default=default_fn), "call"),
    "fnint": (lambda: Property(isa=int, default=default_int), "call"),
    "self": (lambda: Property(default=self_default), "self"),
    "reqd": (lambda: Property(isa=int, required=True, default=9), 9),
    "ro": (lambda: ROProperty(isa=int), None),
    "rodflt": (lambda: ROProperty(isa=int, default=4), 4),
    "lazy": (lambda: LazyProperty(isa=int, default=default_int), "lazy"),
    "lazysafe": (lambda: LazySafeProperty(isa=int, default=default_int),
                 "lazy"),
    "extr": (lambda: Property(isa=int, extraneous=True), None),
    "box": (lambda: Property(isa=Box), None),
    "list": (lambda: Property(list_of=Box), None),
    "dict": (lambda: Property(dict_of=Box), None),
    "v1": (lambda: Property(isa=int, v1_none=None), "v1"),
    "badd": (lambda: Property(isa=int, default="x"), "bad"),
}
NODEFAULT = ("plain", "int", "ro", "extr", "box", "list", "dict")
INTS = ("int", "reqint", "dfltint", "zero", "fnint", "reqd", "ro", "rodflt",
        "lazy", "lazysafe", "extr", "v1", "badd")


def passed(S, kind):
    """(value passed or MISSING, value stored, acceptable)"""
    k = S.choice(3, "pass")
    if k == 0:
        return MISSING, MISSING, True
    if kind in INTS:
        if k == 1:
            v = S.int("v")
            return v, v, True
        return S.pick([("7", 7, True), ("zz", None, False),
                       (None, None, False)], "odd")
    if kind == "empty":
        if k == 1:
            v = S.str("v", 1)
            return v, v, True
        return 7, "7", True
    if kind == "box":
        n = S.int("v")
        if k == 1:
            b = Box(v=n)
            return b, b, True
        return S.pick([({"v": n}, Box(v=n), True),
                       ({"w": 1}, None, False)], "odd")
    if kind == "list":
        n = S.int("v")
        if k == 1:
            return [{"v": n}, Box(v=n)], [Box(v=n)] * 2, True
        return 5, None, False
    if kind == "dict":
        n = S.int("v")
        if k == 1:
            return {"k": {"v": n}}, {"k": Box(v=n)}, True
        return 5, None, False
    if k == 1:
        v = S.int("v")
        return v, v, True
    if kind == "req":
        return None, None, False
    return S.pick([(None, None, True), ([1], [1], True)], "odd")


def is_set(S, r, name):
    return name in r.__dict__


def check_slot(S, r, name, kind, v, st, calls0, what):
    dk = MENU[kind][1]
    if v is not MISSING:
        got = S.get(r, name)
        S.check(got is not MISSING, what + ": passed slot %s unset" % kind)
        if kind == "list":
            S.check(len(got) == len(st) and
                    all(got[i] == st[i] and isinstance(got[i], Box)
                        for i in range(len(st))),
                    what + ": passed list")
        elif kind == "dict":
            S.check(len(got) == 1 and got["k"] == st["k"],
                    what + ": passed dict")
        else:
            S.check(got is st or (S.type(got) is S.type(st) and got == st),
                    what + ": slot %s holds another value" % kind)
        return
    if kind in NODEFAULT:
        S.check(not is_set(S, r, name), what + ": %s set" % kind)
        S.check(S.get(r, name) is MISSING, what + ": unset %s reads" % kind)
    elif dk == "lazy":
        S.check(not is_set(S, r, name), what + ": lazy set early")
    elif dk == "v1":
        S.check(getattr(r, name) is None, what + ": unset v1 slot")
    elif dk in ("call", "self"):
        S.check(is_set(S, r, name), what + ": default not called")
    else:
        got = S.get(r, name)
        S.check(got is not MISSING and S.type(got) is S.type(dk) and
                got == dk, what + ": default of %s" % kind)


@harness(slots=(2, 3), witness=["built", "refused"])
def every_declaration(S):
    D.calls = 0
    n = S.p["slots"]
    menu = sorted(MENU)
    if n > 2:
        menu = ["fn", "int", "lazy", "list", "reqint", "rodflt", "self",
                "zero"]
    names = ["a", "b", "c0"][:n]
    kinds = [S.pick(menu, "decl") for _ in names]
    if n == 2:
        # one free menu, one reduced: pairs beyond that add nothing new
        S.assume(kinds[1] in ("int", "fn", "reqint", "dflt", "self"))
    decls = [(nm, MENU[k][0]()) for nm, k in zip(names, kinds)]
    # the order of declaration does not matter
    if S.flag("order"):
        decls.reverse()
    cls = type("Cls", (Record,), dict(decls))
    S.check(sorted(cls.properties) == names, "properties of the class")
    S.check(D.calls == 0, "default called while declaring")
    args = {}
    ok = True
    given = []
    for nm, k in zip(names, kinds):
        v, st, good = passed(S, k)
        given.append((v, st))
        if v is not MISSING:
            args[nm] = v
            ok = ok and good
        elif MENU[k][1] == "required" or MENU[k][1] == "bad":
            ok = False
    before = dict(args)
    how = S.choice(2, "how")
    o = S.outcome(lambda: cls(args) if how else cls(**args))
    S.check(len(args) == len(before) and
            all(args[k] is before[k] for k in before), "mapping changed")
    S.check(o.ok == ok, "%s(%s): %s" % (
        "mapping" if how else "keywords", " ".join(kinds), o.kind()))
    if not ok:
        S.check(isinstance(o.exc, (exc.CoercionError, exc.PropertyRequired)),
                "refused with " + o.kind())
        if all(MENU[k][1] != "bad" and
               (v is MISSING or st is not None or k == "req")
               for k, (v, st) in zip(kinds, given)) and \
                all(v is not None for v, _ in given):
            S.check(isinstance(o.exc, exc.PropertyRequired),
                    "missing slot refused with " + o.kind())
        S.witness("refused")
        return
    r = o.value
    want_calls = sum(1 for k, (v, _) in zip(kinds, given)
                     if v is MISSING and MENU[k][1] in ("call", "self"))
    S.check(D.calls == want_calls, "default function calls")
    for nm, k, (v, st) in zip(names, kinds, given):
        check_slot(S, r, nm, k, v, st, 0, "built")
        if v is MISSING and MENU[k][1] == "self":
            S.check(D.given is r, "default method called on something else")
    # a second record: defaults are called anew
    r2 = cls(**args) if how else cls(args)
    S.check(D.calls == 2 * want_calls, "default function not called anew")
    for nm, k, (v, st) in zip(names, kinds, given):
        check_slot(S, r2, nm, k, v, st, 0, "built again")
        if v is MISSING and k == "fn":
            S.check(getattr(r, nm) is not getattr(r2, nm),
                    "records share a default")
    # both ways are equal
    if want_calls == 0 and all(MENU[k][1] != "lazy" or v is not MISSING
                               for k, (v, _) in zip(kinds, given)):
        S.check(r == r2, "keywords and mapping give different records")
    S.witness("built")


class ABC(Record):
    ab = Property(isa=int)
    b = Property()
    c = Property(default=3)


@harness(witness=["unknown", "known"])
def any_names(S):
    """a mapping with any keys: accepted exactly when they are all names of
    properties"""
    S.hash_k("ab", "b", "c", "properties", "ab0", "b0")
    n = S.choice(3, "n")
    m = {}
    for _ in range(n):
        m[S.str("k", 2, alphabet="abc_0")] = S.int("v")
    S.assume(len(m) == n)
    known = True
    for k in list(m):
        if not (k == "ab" or k == "b" or k == "c"):
            known = False
    keys = list(m)
    o = S.outcome(lambda: ABC(m))
    S.check(o.ok == known, "names: " + o.kind())
    S.check(len(m) == n and list(m) == keys, "mapping changed")
    if not known:
        S.check(isinstance(o.exc, exc.PropertyNotKnown),
                "unknown name: " + o.kind())
        S.witness("unknown")
        return
    r = o.value
    for nm in ("ab", "b", "c"):
        got = S.get(r, nm)
        want = m.get(nm, MISSING)
        if want is MISSING:
            want = 3 if nm == "c" else MISSING
        S.check(got is want or got == want, "slot " + nm)
    S.witness("known")


@harness(witness=["ambiguous", "unknown"])
def wrong_arguments(S):
    a, b = S.int("a"), S.int("b")
    k = S.choice(6, "how")
    if k == 0:
        o = S.outcome(lambda: ABC({"ab": a}, b=b))
        S.check(o.raised(exc.AmbiguousConstruction), o.kind())
        S.witness("ambiguous")
    elif k == 1:
        o = S.outcome(lambda: ABC({"ab": a}, {"b": b}))
        S.check(o.raised(TypeError), o.kind())
    elif k == 2:
        nm = S.pick(["nope", "ab0", "primary_key", "properties", "__dict__"],
                    "name")
        o = S.outcome(lambda: ABC(**{nm: a}))
        S.check(o.raised(exc.PropertyNotKnown), o.kind())
        S.witness("unknown")
    elif k == 3:
        o = S.outcome(lambda: ABC(None))
        S.check(o.ok and S.get(o.value, "ab") is MISSING and o.value.c == 3,
                "no arguments")
    elif k == 4:
        o = S.outcome(lambda: ABC({}))
        S.check(o.ok and S.get(o.value, "ab") is MISSING and o.value.c == 3,
                "empty mapping")
    else:
        o = S.outcome(lambda: ABC({"ab": a}, c=b))
        S.check(o.raised(exc.AmbiguousConstruction), o.kind())


class Mix(Record):
    m = Property(isa=int, default=1)
    n = Property()


class Base(Record):
    a = Property(isa=int)
    b = Property(isa=str, default="base")
    r = Property(required=True)


class Sub(Base):
    b = Property(isa=int, default=2)
    c = Property()


class SubSub(Sub):
    r = Property(default="r")
    a = Property(isa=str)


class Both(Sub, Mix):
    d = Property(default=8)


EXPECT = {
    # name: {slot: (type or None, default or MISSING, required)}
    "Base": {"a": (int, MISSING, False), "b": (str, "base", False),
             "r": (None, MISSING, True)},
    "Sub": {"a": (int, MISSING, False), "b": (int, 2, False),
            "r": (None, MISSING, True), "c": (None, MISSING, False)},
    "SubSub": {"a": (str, MISSING, False), "b": (int, 2, False),
               "r": (None, "r", False), "c": (None, MISSING, False)},
    "Both": {"a": (int, MISSING, False), "b": (int, 2, False),
             "r": (None, MISSING, True), "c": (None, MISSING, False),
             "m": (int, 1, False), "n": (None, MISSING, False),
             "d": (None, 8, False)},
}


@harness(witness=["built", "refused"])
def inheritance(S):
    cls = S.pick([Base, Sub, SubSub, Both], "cls")
    spec = EXPECT[cls.__name__]
    S.check(sorted(cls.properties) == sorted(spec), "inherited properties")
    args, want, ok = {}, {}, True
    for nm in sorted(spec):
        typ, dflt, req = spec[nm]
        if nm in ("c", "n", "d", "m") and len(spec) > 4 and nm != "m":
            k = 0
        else:
            k = S.choice(3, "pass " + nm)
        if k == 0:
            if req:
                ok = False
            elif dflt is not MISSING:
                want[nm] = dflt
            continue
        v = S.int("v") if k == 1 else "x"
        args[nm] = v
        try:
            want[nm] = v if typ is None or isinstance(v, typ) else typ(v)
        except ValueError:
            ok = False
    o = S.outcome(lambda: cls(args) if S.flag("mapping") else cls(**args))
    S.check(o.ok == ok, cls.__name__ + ": " + o.kind())
    if not ok:
        S.check(isinstance(o.exc, (exc.CoercionError, exc.PropertyRequired)),
                "refused with " + o.kind())
        S.witness("refused")
        return
    r = o.value
    S.check(type(r) is cls, "class of the record")
    for nm in spec:
        got = S.get(r, nm)
        w = want.get(nm, MISSING)
        S.check(got is w or (S.type(got) is S.type(w) and got == w),
                "slot %s of %s" % (nm, cls.__name__))
    # a slot can be reassigned under the rules of the class's own declaration
    nm = S.pick(["a", "b"], "assign")
    typ = spec[nm][0]
    o = S.outcome(lambda: setattr(r, nm, "y"))
    S.check(o.ok == (typ is str), "assignment " + o.kind())
    S.witness("built")


@harness(witness=["end"])
def independent_records(S):
    """several records of one class do not share slots"""
    n = 3
    rs = []
    vals = []
    for _ in range(n):
        v = {}
        for nm in ("ab", "b"):
            if S.flag("pass"):
                v[nm] = S.int(nm)
        vals.append(v)
        rs.append(ABC(v))
    i = S.choice(n, "which")
    v = S.int("new")
    rs[i].ab = v
    vals[i] = dict(vals[i], ab=v)
    for r, v in zip(rs, vals):
        for nm in ("ab", "b"):
            got = S.get(r, nm)
            w = v.get(nm, MISSING)
            S.check(got is w or got == w, "slot of another record")
        S.check(r.c == 3, "default")
    S.witness("end")


class Maker(object):
    """all the ways of being callable"""
    calls = 0
    value = None

    def __init__(self, n=None):
        Maker.calls += 1

    def __call__(self):
        Maker.calls += 1
        return Maker.value

    def bound(self):
        Maker.calls += 1
        return Maker.value

    def optional(self, other=None):
        Maker.calls += 1
        return Maker.value if other is None else "called with it"

    @classmethod
    def klass(cls):
        Maker.calls += 1
        return Maker.value

    @staticmethod
    def static():
        Maker.calls += 1
        return Maker.value

    @staticmethod
    def wants_self(self):
        Maker.calls += 1
        return (Maker.value, self)


def added(x, y=0):
    Maker.calls += 1
    return x


def kwonly(*, x=None):
    Maker.calls += 1
    return Maker.value


def star(*args, **kw):
    Maker.calls += 1
    return Maker.value if not args and not kw else "called with it"


def optional_arg(x=None):
    Maker.calls += 1
    return Maker.value if x is None else "called with it"


def other_name(this):
    Maker.calls += 1
    return (Maker.value, this)


def self_and_more(self, x=None):
    Maker.calls += 1
    return (Maker.value, self) if x is None else "called with it"


class CallMe(Record):
    v = Property(isa=int, default=3)


def optional_self(self=None):
    Maker.calls += 1
    return Maker.value if self is None else "called with it"


# kind -> what the default function is and whether its calls are counted
def callables(kind, v):
    import functools
    m = Maker()
    return {
        "object": lambda: m, "bound": lambda: m.bound,
        "optional": lambda: m.optional, "class method": lambda: Maker.klass,
        "static method": lambda: Maker.static,
        "wants self": lambda: Maker.wants_self,
        "partial": lambda: functools.partial(added, v),
        "keyword only": lambda: kwonly, "star": lambda: star,
        "optional argument": lambda: optional_arg,
        "optional self": lambda: optional_self,
        "other name": lambda: other_name, "self and more":
        lambda: self_and_more, "record class": lambda: CallMe,
        "class": lambda: Maker, "dict": lambda: dict, "list": lambda: list,
        "set": lambda: set, "str": lambda: str,
        "built-in bound": lambda: [v].copy,
        "next": lambda: iter([[v], [v]]).__next__,
    }[kind]()


@harness(witness=["eager", "lazy", "given"])
def callable_defaults(S):
    """whatever can be called without arguments, or with the record, is as
    good for a default as a function is"""
    import warnings
    v = Maker.value = S.int("v")
    kind = S.pick(["object", "bound", "optional", "class method",
                   "static method", "wants self", "partial", "keyword only",
                   "star", "optional argument", "optional self",
                   "other name",
                   "self and more", "record class", "class", "dict", "list",
                   "set", "str", "built-in bound", "next"], "callable")
    fn = callables(kind, v)
    lazy = S.flag("lazy")
    ptype = S.pick([Property, SafeProperty, ROProperty] if not lazy else
                   [LazyProperty, LazySafeProperty], "property")
    o = S.outcome(lambda: type("C", (Record,), {
        "p": ptype(default=fn, extraneous=S.flag("extraneous"))}))
    S.check(o.ok, "%s for a default: %s" % (kind, o.kind()))
    cls = o.value
    Maker.calls = 0
    if S.flag("given"):
        r = cls(p=v)
        S.check(r.p is v and Maker.calls == 0, "default of a passed slot")
        S.witness("given")
        return
    rs = []
    for n in range(2):
        o = S.outcome(lambda: cls())
        S.check(o.ok, "%s for a default: %s" % (kind, o.kind()))
        S.check(not lazy or "p" not in o.value.__dict__, "lazy set early")
        rs.append(o.value)
    S.check(not lazy or Maker.calls == 0, "lazy default computed early")
    vals = []
    for r in rs:
        o = S.outcome(lambda: r.p)
        S.check(o.ok, "%s for a default: reading: %s" % (kind, o.kind()))
        S.check(r.p is o.value, "read twice")
        vals.append(o.value)
        x = o.value
        if kind in ("wants self", "other name", "self and more"):
            S.check(x[0] is v and x[1] is r, kind + ": value")
        elif kind == "record class":
            S.check(S.type(x) is CallMe and x.v == 3, kind + ": value")
        elif kind == "class":
            S.check(type(x) is Maker, kind + ": value")
        elif kind in ("dict", "list", "set", "str"):
            S.check(type(x) is {"dict": dict, "list": list, "set": set,
                                "str": str}[kind] and len(x) == 0,
                    kind + ": value")
        elif kind in ("built-in bound", "next"):
            S.check(type(x) is list and len(x) == 1 and x[0] is v,
                    kind + ": value")
        else:
            S.check(x is v, kind + ": value")
    if kind not in ("record class", "dict", "list", "set", "str",
                    "built-in bound", "next"):
        S.check(Maker.calls == 2, kind + ": number of calls")
    if kind not in ("str",) and not (vals[0] is v):
        S.check(vals[0] is not vals[1], "records share a default")
    S.witness("lazy" if lazy else "eager")


@harness(maxlen=(5, 7), witness=["named", "unknown"])
def primary_keys(S):
    """a primary key is made of properties of the class"""
    props = {"ab": Property(isa=int), "a": Property(), "id": Property()}
    foreign = S.pick([MISSING, 5, None, Box.v, Property(), ("ab",)],
                     "foreign")
    names = [S.str("name", S.p["maxlen"] - 3, alphabet="abid")
             for _ in range(S.choice(3, "n"))]
    key = list(names)
    if S.flag("object"):
        key.append(props["ab"])
    if foreign is not MISSING:
        key.append(foreign)
    if S.flag("tuple"):
        key = tuple(key)
    o = S.outcome(lambda: type("K", (Record,), dict(props, primary_key=key)))
    known = all(n == "ab" or n == "a" or n == "id" for n in names)
    if known and foreign is MISSING:
        S.check(o.ok, "primary key of own properties: " + o.kind())
        pk = o.value.primary_key
        S.check(len(pk) == len(key), "length of the primary key")
        for i, k in enumerate(key):
            S.check(pk[i] is k or pk[i].name == k, "primary key")
            S.check(pk[i] is o.value.properties[pk[i].name], "own property")
        S.witness("named")
    else:
        S.check(o.raised(exc.PropertiesNotKnown),
                "primary key of no property of the class: " + o.kind())
        S.witness("unknown")


@harness(witness=["refused"])
def misdeclared(S):
    """classes that are refused"""
    k = S.choice(4, "what")
    if k == 0:
        name = S.pick(["properties", "eager_properties"], "name")
        o = S.outcome(lambda: type("M", (Record,), {
            name: S.pick([Property(), 1, None, {}], "value"),
            "p": Property()}))
        S.check(o.raised(exc.ReservedPropertyName), name + ": " + o.kind())
    elif k == 1:
        one = type("One", (Record,), {"a": Property(), "b": Property()})
        two = type("Two", (Record,), {"b": Property(), "c": Property()})
        bases = (one, two) if S.flag("order") else (two, one)
        o = S.outcome(lambda: type("M", bases, {}))
        S.check(o.raised(exc.MultipleInheritanceClash), "clash: " + o.kind())
        three = type("Three", (Record,), {"d": Property(default=1)})
        o = S.outcome(lambda: type("M", (bases[0], three), {})(b=2))
        S.check(o.ok and o.value.b == 2 and o.value.d == 1,
                "two bases: " + o.kind())
    else:
        n = S.choice(4, "n")
        fn = [lambda: 1, lambda x: 1, lambda x, y: 1,
              lambda self, y, z=1: 1][n]
        cls = LazyProperty if k == 2 else Property
        o = S.outcome(lambda: cls(default=fn))
        S.check(o.ok if n < 2 else o.raised(exc.DefaultSignatureError),
                "default function of too many arguments: " + o.kind())
    S.witness("refused")
