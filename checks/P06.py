"""Property() picks the type its arguments imply, whatever their order and
whatever was composed before."""
from sx.api import harness, MISSING
import normalize
from normalize import Record, Property
from normalize.coll import ListCollection, DictCollection
from normalize.property import SafeProperty, LazyProperty, ROProperty, \
    LazySafeProperty, ROLazyProperty, V1Property, DiffasProperty, \
    make_property_type
import normalize.property.meta as meta
from normalize.property.coll import ListProperty, DictProperty, \
    CollectionProperty
from normalize.property.json import JsonProperty, JsonListProperty, \
    SafeJsonProperty, JsonDictProperty
from normalize.property.types import IntProperty, StringProperty, \
    UnicodeProperty, DateProperty
from normalize.record.json import JsonRecordList, JsonRecordDict
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("declarations with more than 2 (quick) or 3 (thorough) optional "
           "arguments besides a type; histories of more than one earlier "
           "composition (quick) or two (thorough)")


class Item(Record):
    x = Property(isa=int)


class AProperty(Property):
    __trait__ = "xa"

    def __init__(self, amb=None, only_a=None, **kwargs):
        super(AProperty, self).__init__(**kwargs)
        self.only_a = only_a


class BProperty(Property):
    __trait__ = "xb"

    def __init__(self, amb=None, **kwargs):
        super(BProperty, self).__init__(**kwargs)


STOCK = dict(meta.PROPERTY_TYPES)
STOCK_DUCK = dict((k, set(v)) for k, v in meta.DUCKWARGS.items())


def reset():
    """only the declared types exist, as after import"""
    for k in list(meta.PROPERTY_TYPES):
        if k not in STOCK:
            del meta.PROPERTY_TYPES[k]
    for k in list(meta.DUCKWARGS):
        if k not in STOCK_DUCK:
            del meta.DUCKWARGS[k]
        elif meta.DUCKWARGS[k] != STOCK_DUCK[k]:
            meta.DUCKWARGS[k] = set(STOCK_DUCK[k])


# starting class -> (class, its traits, arguments it implies)
BASES = {
    "Property": (Property, (), ()),
    "Safe": (SafeProperty, ("safe",), ()),
    "Lazy": (LazyProperty, ("lazy",), ()),
    "RO": (ROProperty, ("ro",), ()),
    "ROLazy": (ROLazyProperty, ("lazy", "ro"), ()),
    "LazySafe": (LazySafeProperty, ("lazy", "safe"), ()),
    "V1": (V1Property, ("safe", "v1"), ()),
    "Json": (JsonProperty, ("json",), ()),
    "SafeJson": (SafeJsonProperty, ("json", "safe"), ()),
    "Int": (IntProperty, ("int",), ("isa",)),
    "Unicode": (UnicodeProperty, ("str", "unicode"), ("isa",)),
    "Date": (DateProperty, ("date", "json"), ("isa",)),
    "Diffas": (DiffasProperty, ("diffas",), ()),
    "A": (AProperty, ("xa",), ()),
}
COLLBASES = {
    "List": (ListProperty, ("coll", "list"), ()),
    "Dict": (DictProperty, ("coll", "dict"), ()),
    "JsonList": (JsonListProperty, ("coll", "json", "list"), ()),
    "JsonDict": (JsonDictProperty, ("coll", "dict", "json"), ()),
}

SEVEN = lambda: 7


def ident(x):
    return x


def yes(x):
    return True


# optional argument sets: name -> (keywords, traits they imply)
ARGS = {
    "required": ({"required": True}, ()),
    "check": ({"check": yes}, ()),
    "default": ({"default": SEVEN}, ()),
    "truthy": ({"default": 5}, ()),
    "lazy": ({"lazy": True, "default": SEVEN}, ("lazy",)),
    "json_name": ({"json_name": "jn"}, ("json",)),
    "json_io": ({"json_in": ident, "json_out": ident}, ("json",)),
    "v1_none": ({"v1_none": None}, ("safe", "v1")),
    "falsy": ({"default": 0}, ("safe", "v1")),
    "compare_as": ({"compare_as": ident}, ("diffas",)),
    "extraneous": ({"extraneous": True}, ()),
    "doc": ({"doc": "text"}, ()),
    "only_a": ({"only_a": 3}, ("xa",)),
    "t_ro": ({"traits": ["ro"]}, ("ro",)),
    "t_safe": ({"traits": ["safe"]}, ("safe",)),
    "t_unsafe": ({"traits": ["unsafe"]}, ("unsafe",)),
    "t_lazy": ({"traits": ("lazy",), "default": SEVEN}, ("lazy",)),
    "t_json": ({"traits": set(["json"])}, ("json",)),
    "t_xa": ({"traits": ["xa"]}, ("xa",)),
    "t_rolazy": ({"traits": ["ro", "lazy"], "default": SEVEN},
                 ("lazy", "ro")),
}
SAFE_ARGS = ("required", "check")


def combine(names):
    """keywords of several argument sets, or None when they disagree"""
    kw, traits, implied = {}, set(), set()
    for n in names:
        k, t = ARGS[n]
        for a, v in k.items():
            if a == "traits":
                traits |= set(v)
            elif a in kw and kw[a] is not v:
                return None
            else:
                kw[a] = v
        implied |= set(t)
    if traits:
        kw["traits"] = sorted(traits)
    return kw, implied


def expected(base_traits, implied_args, names, typ):
    kw, implied = combine(names)
    want = set(base_traits) | set(implied)
    safe = bool(implied_args) or typ or any(n in SAFE_ARGS for n in names) \
        or "coll" in want
    if "unsafe" in want and "safe" not in want:
        want.discard("unsafe")
    elif "ro" not in want and safe:
        want.add("safe")
    return want


def pick_args(S, n):
    names = []
    last = -1
    keys = sorted(ARGS)
    for _ in range(n):
        k = S.choice(len(keys) + 1, "arg")
        if k == len(keys) or k <= last:
            # the same set in another order is covered by `order`
            S.assume(k == len(keys))
            break
        names.append(keys[k])
        last = k
    return names


def earlier(S, n):
    """any other property composed before"""
    for _ in range(n):
        k = S.choice(7, "earlier")
        if k == 0:
            continue
        S.outcome([
            None,
            lambda: Property(isa=int, json_name="e", traits=["ro"]),
            lambda: Property(lazy=True, default=SEVEN, json_name="e",
                             traits=["unsafe"]),
            lambda: Property(isa=int, default=0, json_name="e",
                             traits=["ro"]),
            lambda: Property(isa=int, v1_none=None, lazy=True, default=SEVEN,
                             compare_as=ident),
            lambda: Property(list_of=Item, json_name="e", traits=["ro"]),
            lambda: CollectionProperty(of=Item, coll=ListCollection,
                                       json_name="e"),
        ][k])


def shuffle(S, kw):
    """the same keywords in another order"""
    items = list(kw.items())
    k = S.choice(3, "order")
    if k == 1:
        items.reverse()
    elif k == 2:
        items = items[1:] + items[:1]
    return dict(items)


def has_trait_class(p, trait):
    return isinstance(p, STOCK_CLASS[trait])


STOCK_CLASS = {
    "safe": SafeProperty, "ro": ROProperty, "lazy": LazyProperty,
    "v1": V1Property, "json": JsonProperty, "diffas": DiffasProperty,
    "coll": CollectionProperty, "list": ListProperty, "dict": DictProperty,
    "int": IntProperty, "unicode": UnicodeProperty, "str": StringProperty,
    "date": DateProperty, "xa": AProperty,
}


def behaves(S, p, want, kw, bn):
    """the property does what its traits say"""
    cls = type("B", (Record,), {"p": p})
    good = 3
    if bn in ("List", "JsonList"):
        good = [{"x": 1}]
    elif bn in ("Dict", "JsonDict"):
        good = {"k": {"x": 1}}
    elif bn == "Unicode":
        good = "s"
    elif bn in ("Date", "Unicode"):
        import datetime
        good = datetime.date(2001, 2, 3)
    r = cls(p=good)
    o = S.outcome(lambda: setattr(r, "p", good))
    S.check(o.ok == ("ro" not in want), "assignment: " + o.kind())
    if "ro" in want:
        S.check(o.raised(exc.ReadOnlyAttributeError), "assignment refused")
        o = S.outcome(lambda: delattr(r, "p"))
        S.check(o.raised(exc.ReadOnlyAttributeError), "deletion refused")
    elif "safe" in want and p.valuetype and bn not in ("Unicode",):
        o = S.outcome(lambda: setattr(r, "p", 2.5 if bn in (
            "List", "Dict", "JsonList", "JsonDict", "Date") else "no"))
        S.check(not o.ok, "unchecked assignment")
    elif "safe" not in want:
        o = S.outcome(lambda: setattr(r, "p", "anything"))
        S.check(o.ok, "unsafe assignment " + o.kind())
    if "list" in want or "dict" in want:
        t = p.valuetype
        S.check(issubclass(t, ListCollection if "list" in want else
                           DictCollection), "collection type")
        S.check(t.itemtype is Item, "item type")
        if bn in ("JsonList", "JsonDict"):
            S.check(issubclass(t, JsonRecordList if "list" in want else
                               JsonRecordDict), "JSON collection type")
    if "lazy" in want and "default" in kw and not p.valuetype:
        r = cls()
        S.check("p" not in r.__dict__, "lazy set early")
        if kw["default"] is SEVEN:
            S.check(r.p == 7, "lazy value")
    elif "v1" in want and not kw.get("required"):
        dv = kw.get("default", None)
        r = cls()
        if not callable(dv):
            S.check(r.p == dv, "v1 none value")
    if "json" in want:
        S.check(p.json_name == kw.get("json_name", "p"), "JSON name")
        if "json_in" in kw:
            S.check(p.json_in is ident and p.json_out is ident, "JSON io")
    if "diffas" in want:
        S.check(p.compare_as is kw.get("compare_as"), "compare_as")
    if "xa" in want:
        S.check(p.only_a == kw.get("only_a"), "own argument")
    S.check(p.required == kw.get("required", False), "required")
    S.check(p.extraneous == kw.get("extraneous", False), "extraneous")
    S.check(p.__doc__ == kw.get("doc"), "doc")
    S.check(p.name == "p" and p.bound, "bound")


@harness(nargs=(2, 3), nprior=(1, 2), witness=["made"])
def selection(S):
    reset()
    try:
        bases = dict(BASES)
        bases.update(COLLBASES)
        bn = S.pick(sorted(bases), "base")
        cls, bt, implied_args = bases[bn]
        names = pick_args(S, S.p["nargs"])
        c = combine(names)
        S.assume(c is not None)
        kw, _ = c
        if bn in ("Date", "Unicode"):
            S.assume("default" not in kw)
        if bn == "Diffas" and "compare_as" not in kw:
            kw["compare_as"] = ident
        typ = False
        if bn in COLLBASES:
            S.assume(not ("default" in kw and not ("lazy" in kw)))
            S.assume("falsy" not in names and "lazy" not in names and
                     "t_lazy" not in names and "t_rolazy" not in names)
            how = S.choice(2, "how")
            kw["of" if how else
               ("list_of" if "List" in bn else "dict_of")] = Item
            if bn in ("List", "Dict") and S.flag("generic"):
                # the same property asked for by its argument
                cls = Property
                if how:
                    kw["coll"] = ListCollection if bn == "List" else \
                        DictCollection
                    bt = ("coll",)
        elif bn not in ("Int", "Unicode", "Date") and S.flag("isa"):
            kw["isa"] = int
            typ = True
            S.assume("v1_none" not in kw or True)
        if "t_unsafe" in names:
            # asking for both is refused; see `refused`
            S.assume("t_safe" not in names and "safe" not in bt)
        want = expected(bt, implied_args, names, typ)
        if "lazy" in bt and "default" not in kw:
            kw["default"] = SEVEN
        if "traits" in kw and "unsafe" in kw["traits"] and \
                "safe" in want:
            # v1 properties are safe by nature
            return
        earlier(S, S.p["nprior"])
        kw0 = dict(kw)
        kw = shuffle(S, kw)
        o = S.outcome(lambda: cls(**kw))
        S.check(o.ok, "%s(%s): %s" % (cls.__name__,
                                      " ".join(sorted(names)), o.kind()))
        p = o.value
        if want != set(p.traits):
            S.fail("%s(%s): has %s instead of %s" % (
                cls.__name__, " ".join(names), ",".join(p.traits),
                ",".join(sorted(want))))
        S.check(list(type(p).traits) == sorted(want), "traits")
        for t in want:
            S.check(has_trait_class(p, t), "does not do " + t)
        if typ:
            S.check(p.valuetype is int, "type")
        S.check("traits" not in kw0 or kw0["traits"] == kw["traits"],
                "arguments changed")
        behaves(S, p, want, kw0, bn)
        # declaring the same again gives the same type
        o = S.outcome(lambda: cls(**kw0))
        S.check(o.ok and type(o.value) is type(p), "second declaration")
        S.witness("made")
    finally:
        reset()


def two(a, b):
    return a


REFUSED = {
    "positional": (lambda: Property(int), exc.PositionalArgumentsProhibited),
    "positional2": (lambda: ROProperty(None), exc.PositionalArgumentsProhibited),
    "coerce": (lambda: Property(coerce=int), exc.CoerceWithoutType),
    "lazyfalse": (lambda: Property(lazy=False, default=SEVEN),
                  exc.LazyIsFalse),
    "ambiguous": (lambda: Property(amb=1), exc.AmbiguousPropertyTraitArg),
    "ambiguous2": (lambda: SafeProperty(isa=int, amb=1),
                   exc.AmbiguousPropertyTraitArg),
    "impossible": (lambda: Property(traits=["nosuch"]),
                   exc.PropertyTypeMixinNotPossible),
    "impossible2": (lambda: Property(isa=int, traits=["safe", "nosuch"]),
                    exc.PropertyTypeMixinNotPossible),
    "both": (lambda: Property(isa=int, traits=["safe", "unsafe"]),
             exc.PropertyTypeMixinNotPossible),
    "listofwhat": (lambda: ListProperty(), exc.ListOfWhat),
    "dictofwhat": (lambda: DictProperty(), exc.DictOfWhat),
    "collwhat": (lambda: CollectionProperty(of=Item), exc.CollRequiredError),
    "collwrong": (lambda: ListProperty(of=Item, coll=DictCollection),
                  exc.ListPropertyMustDeriveListCollection),
    "collwrong2": (lambda: DictProperty(of=Item, coll=ListCollection),
                   exc.DictPropertyMustDeriveDictCollection),
    "default2": (lambda: Property(default=two), exc.DefaultSignatureError),
    "compare2": (lambda: Property(compare_as=two),
                 exc.CompareAsSignatureError),
}


@harness(witness=["refused"])
def refused(S):
    """unknown, ambiguous and impossible declarations, whatever came before"""
    reset()
    try:
        name = S.pick(sorted(REFUSED), "what")
        earlier(S, 1)
        make, err = REFUSED[name]
        o = S.outcome(make)
        S.check(not o.ok, name + ": accepted")
        S.check(isinstance(o.exc, err), "%s: %s" % (name, o.kind()))
        S.check(set(meta.PROPERTY_TYPES) >= set(STOCK), "types lost")
        S.witness("refused")
    finally:
        reset()


@harness(witness=["unknown"])
def any_argument(S):
    """argument names no type understands"""
    reset()
    name = S.pick(["bogus", "isax", "name", "class_", "prop", "0", "",
                   "json", "values", "is a"], "name")
    cls = S.pick([Property, SafeProperty, IntProperty, JsonProperty,
                  ListProperty], "cls")
    earlier(S, 1)
    kw = {name: S.int("v")}
    if S.flag("more"):
        kw["isa"] = int
    o = S.outcome(lambda: cls(**kw))
    S.check(o.raised(exc.PropertyArgumentNotKnown), "unknown argument: " +
            o.kind())
    reset()
    S.witness("unknown")


@harness(witness=["end"])
def made_types(S):
    """types of make_property_type carry their defaults, overridable, in any
    combination with arguments and traits"""
    reset()
    try:
        n = S.int("d")
        over = S.int("over")
        kind = S.choice(4, "kind")
        kw = [dict(isa=int, default=n, check=yes), dict(isa=int, default=lambda: n),
              dict(isa=int, json_name="mk", default=lambda: n),
              dict(isa=int, lazy=True, default=lambda: n)][kind]
        T = make_property_type("TProperty", **kw)
        earlier(S, 1)
        extra = S.choice(4, "extra")
        ek = [{}, {"traits": ["ro"]}, {"json_name": "zz"},
              {"default": lambda: over}][extra]
        o = S.outcome(lambda: T(**ek))
        S.check(o.ok, "declaration: " + o.kind())
        p = o.value
        S.check(isinstance(p, T), "type")
        cls = type("M", (Record,), {"p": p})
        r = cls()
        S.check(r.p == (over if extra == 3 else n), "default")
        o = S.outcome(lambda: setattr(r, "p", 5))
        S.check(o.ok == (extra != 1), "assignment")
        o = S.outcome(lambda: setattr(r, "p", "no"))
        S.check(not o.ok, "assignment unchecked")
        if extra == 2 or kind == 2:
            S.check(p.json_name == ("zz" if extra == 2 else "mk"),
                    "JSON name")
        S.witness("end")
    finally:
        reset()


@harness(witness=["v1", "plain", "argument"])
def any_default(S):
    """the default decides whether a property is a v1 one, and nothing else
    about it does: any number or string"""
    reset()
    try:
        earlier(S, 1)
        d = S.int("d") if S.flag("number") else S.str("s", 2)
        kw = S.pick([{}, {"isa": int}, {"json_name": "jn"},
                     {"traits": ["ro"]}, {"compare_as": ident},
                     {"extraneous": True}, {"isa": int, "json_name": "jn"}],
                    "with")
        S.assume("isa" not in kw or S.type(d) is int)
        args = dict(kw, default=d)
        if S.flag("order"):
            args = dict(list(args.items())[::-1])
        explicit = S.flag("explicit")
        if explicit:
            args["v1_none"] = d
            del args["default"]
        o = S.outcome(lambda: Property(**args))
        S.check(o.ok, "declaration: " + o.kind())
        p = o.value
        v1 = explicit or not d
        want = set()
        if v1:
            want.update(("v1", "safe"))
            S.witness("v1")
        else:
            S.witness("plain")
        if "isa" in kw and "traits" not in kw:
            want.add("safe")
        for a, t in (("json_name", "json"), ("compare_as", "diffas")):
            if a in kw:
                want.add(t)
        want.update(kw.get("traits", ()))
        S.check(set(p.traits) == want, "has %s instead of %s" % (
            ",".join(p.traits), ",".join(sorted(want))))
        cls = type("D", (Record,), {"p": p})
        S.check(cls().p == d, "default")
        again = S.outcome(lambda: Property(**args))
        S.check(again.ok and type(again.value) is type(p), "second time")
        S.witness("argument")
    finally:
        reset()


@harness(tlen=(4, 6), witness=["known", "unknown"])
def any_trait(S):
    """a trait of any name: that of a declared type, or refused"""
    reset()
    try:
        earlier(S, 1)
        name = S.str("name", S.p["tlen"], 0, "adefilnorstyvx1")
        more = S.pick([{}, {"isa": int}, {"json_name": "jn"}], "with")
        traits = [name]
        if S.flag("two"):
            traits = S.pick([[name, "ro"], ["ro", name]], "traits")
        o = S.outcome(lambda: Property(traits=traits, **more))
        for t in ("ro", "safe", "lazy", "xa", "int", "float", "date",
                  "diffas", "str"):
            if name == t:
                S.check(o.ok, t + ": " + o.kind())
                want = set(traits[:1] + traits[1:])
                p = o.value
                S.check(t in p.traits, t + ": missing")
                S.check(("ro" in p.traits) == ("ro" in want or t == "ro"),
                        t + ": read-only")
                S.check(("json" in p.traits) == ("json_name" in more or t == "date"), t + ": json")
                S.witness("known")
                return
        if name == "unsafe":
            S.check(o.ok and "unsafe" not in o.value.traits, "unsafe")
            return
        if name == "v1" and "isa" in more and len(traits) == 1:
            S.check(o.ok and "v1" in o.value.traits, "v1")
            return
        S.check(o.raised(exc.PropertyTypeMixinNotPossible),
                "unknown trait: " + o.kind())
        S.witness("unknown")
    finally:
        reset()
