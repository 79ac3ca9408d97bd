"""Record equality, hash and identity over pairs and triples of records."""
from sx.api import harness, MISSING
import normalize
from normalize import Record, Property, ListProperty, DictProperty, \
    JsonRecord
from normalize.coll import list_of, dict_of
from normalize.identity import record_id
from normalize.property import LazyProperty, ROProperty
from normalize.property.types import IntProperty, StringProperty

VALIDATE_EVERY = 17
OUTSIDE = ("values whose own == is no equivalence (NaN), values that are not "
           "hashable (hash and identity only), a primary key that is itself "
           "marked extraneous, nesting deeper than 2, collections with more "
           "than 2 (quick) or 3 (thorough) items or with extra properties of their own")


class Flat(Record):
    i = Property(isa=int)
    s = Property(isa=str)
    any = Property()
    ex = Property(isa=int, extraneous=True)


class Sub(Flat):
    pass


class Sub2(Flat):
    i = Property(isa=str)


class Pk(Record):
    id = Property(isa=int)
    z = Property()
    primary_key = [id]


class Pk2(Record):
    a = Property()
    b = Property(isa=int)
    c = Property()
    primary_key = [b, a]


class PkByName(Pk):
    y = Property()
    primary_key = ["y", "id"]


class PkGone(Pk):
    """a primary key is not inherited"""
    y = Property()


class Empty(Record):
    pass


class One(Record):
    x = Property(isa=int)


class Nest(Record):
    one = Property(isa=One)
    pk = Property(isa=Pk)
    n = Property(isa=int)


class NestPk(Record):
    key = Property(isa=Pk)
    z = Property()
    primary_key = [key]


class NestEmpty(Record):
    e = Property(isa=Empty)
    x = Property(isa=One)


class Lst(Record):
    items = ListProperty(of=One)
    n = Property(isa=int)


class LstPk(Record):
    items = ListProperty(of=Pk)


class Nums(Record):
    nums = ListProperty(of=int)


class Dct(Record):
    d = DictProperty(of=One)


class DctInt(Record):
    d = DictProperty(of=int)


class Union(Record):
    u = Property(isa=(One, str))
    w = Property(isa=(int, str))


class Union2(Record):
    u = Property(isa=(list_of(One), int))


class Other(Record):
    y = Property(isa=str)
    z = Property(isa=int)


class Union3(Record):
    u = Property(isa=(One, Other, Pk))


class Lazy(Record):
    l = LazyProperty(default=lambda: 7)
    ro = ROProperty(isa=int)


class V1(Record):
    v = Property(isa=int, v1_none=None)
    d = Property(isa=str, default="")


class JFlat(JsonRecord):
    i = Property(isa=int, json_name="I")
    ex = Property(isa=int, extraneous=True)


class Typed(Record):
    n = IntProperty()
    s = StringProperty()


class Matrix(Record):
    rows = ListProperty(of=list_of(int))


class Book(Record):
    d = ListProperty(of=dict_of(int))


LIST, DICT = list_of(One), dict_of(One)


def i(S):
    return S.int("i")


def s(S):
    return S.str("s", 1)


def scalar(S):
    k = S.choice(3, "k")
    return S.int("v") if k == 0 else S.str("v", 1) if k == 1 else None


class M(object):
    """model of a record, list or dict built"""
    def __init__(self, kind, body):
        self.kind, self.body = kind, body


SLOTS = {
    Flat: dict(i=i, s=s, any=scalar, ex=i),
    Sub: dict(i=i, s=s, ex=i),
    Sub2: dict(i=s, s=s),
    Pk: dict(id=i, z=scalar),
    Pk2: dict(a=scalar, b=i, c=i),
    PkByName: dict(id=i, z=i, y=scalar),
    PkGone: dict(id=i, z=i, y=i),
    Empty: {},
    One: dict(x=i),
    Other: dict(y=s, z=i),
    Nest: dict(one=One, pk=Pk, n=i),
    NestPk: dict(key=Pk, z=i),
    NestEmpty: dict(e=Empty, x=One),
    Lst: dict(items=[One], n=i),
    LstPk: dict(items=[Pk]),
    Nums: dict(nums=[i]),
    Dct: dict(d={"of": One}),
    DctInt: dict(d={"of": i}),
    Union: dict(u=(One, s), w=(i, s)),
    Union2: dict(u=([One], i)),
    Union3: dict(u=(One, Other, Pk)),
    Lazy: dict(l=i, ro=i),
    V1: dict(v=i, d=s),
    JFlat: dict(i=i, ex=i),
    Typed: dict(n=i, s=s),
    Matrix: dict(rows=[[i]]),
    Book: dict(d=[{"of": i}]),
}
PK = {Pk: ["id"], Pk2: ["b", "a"], PkByName: ["y", "id"], NestPk: ["key"]}
EXTRA = {Flat: ["ex"], Sub: ["ex"], Sub2: ["ex"], JFlat: ["ex"]}
# what reading an unset slot gives
UNSET = {Lazy: dict(l=7), V1: dict(v=None, d="")}


def value(S, spec, small):
    """-> (value to pass, model of the value)"""
    if isinstance(spec, type) and issubclass(spec, Record):
        return build(S, spec, small)
    if isinstance(spec, tuple):
        return value(S, S.pick(spec, "alt"), small)
    if isinstance(spec, list):
        vs = [value(S, spec[0], True) for _ in range(S.choice(
            (S.p.get("nitems", 2) if spec[0] in (One, i) else 2) + 1,
            "len"))]
        return [v for v, _ in vs], M(list, [m for _, m in vs])
    if isinstance(spec, dict):
        ks = S.pick([(), ("a",), ("b",), ("a", "b"), ("b", "a")], "keys")
        vs = [(k, value(S, spec["of"], True)) for k in ks]
        return (dict((k, v[0]) for k, v in vs),
                M(dict, dict((k, v[1]) for k, v in vs)))
    v = spec(S)
    return v, v


def build(S, cls, small=False):
    """a record of the class with any subset of slots set and its model"""
    kw, body = {}, {}
    for name, spec in sorted(SLOTS[cls].items()):
        if S.flag("set." + name):
            kw[name], body[name] = value(S, spec, True)
    if cls is Union2 and isinstance(kw.get("u"), list):
        kw["u"] = LIST(kw["u"])
    r = cls(**kw)
    for name, v in UNSET.get(cls, {}).items():
        body.setdefault(name, v)
    return r, M(cls, body)


def meq(S, a, b):
    """equality of models"""
    if isinstance(a, M) or isinstance(b, M):
        if not (isinstance(a, M) and isinstance(b, M)) or a.kind is not b.kind:
            return False
        if a.kind is list:
            return len(a.body) == len(b.body) and all(
                meq(S, x, y) for x, y in zip(a.body, b.body))
        names = set(a.body) | set(b.body)
        for n in sorted(names):
            if n in EXTRA.get(a.kind, ()):
                continue
            if n not in a.body or n not in b.body:
                return False
            if not meq(S, a.body[n], b.body[n]):
                return False
        return True
    return bool(a == b)


def ident(m):
    """the model of the identity: key slots when declared, compared slots
    otherwise, an unset slot counting as None"""
    if not isinstance(m, M):
        return m
    if m.kind is list:
        return M(list, [ident(x) for x in m.body])
    if m.kind is dict:
        return M(dict, dict((k, ident(x)) for k, x in m.body.items()))
    names = PK.get(m.kind) or [n for n in sorted(SLOTS[m.kind])
                               if n not in EXTRA.get(m.kind, ())]
    return M(list, [ident(m.body.get(n)) for n in names])


PAIRS = [(c, c) for c in sorted(SLOTS, key=lambda c: c.__name__)] + [
    (Flat, Sub), (Sub, Flat), (Flat, Sub2), (Pk, PkGone), (One, JFlat),
    (Empty, One), (Empty, NestEmpty)]


@harness(nitems=(2, 3), witness=["equal", "different", "same id"])
def pair(S):
    ca, cb = S.pick(PAIRS, "classes")
    name = ca.__name__ + "/" + cb.__name__
    if ca is Lazy:
        S.hash_k(7)
    a, ma = build(S, ca)
    b, mb = build(S, cb)
    sa, sb = S.snap(a), S.snap(b)
    want = meq(S, ma, mb)
    o = S.outcome(lambda: a == b)
    S.check(o.ok, name + ": == raises " + o.kind())
    S.check(bool(o.value) == want, name + ": ==")
    S.check(bool(b == a) == want, name + ": == reversed")
    S.check(bool(a != b) == (not want), name + ": !=")
    S.check(a == a and not a != a, name + ": reflexive")
    for x in (ca, None, 1, "", (), object()):
        S.check(not a == x and a != x, name + ": == other objects")
    S.witness("equal" if want else "different")
    oa = S.outcome(lambda: record_id(a))
    ob = S.outcome(lambda: record_id(b))
    S.check(oa.ok and ob.ok, name + ": record_id: " + oa.kind() + ob.kind())
    ha, hb = S.outcome(lambda: S.hash(a)), S.outcome(lambda: S.hash(b))
    S.check(ha.ok and hb.ok, name + ": hash: " + ha.kind() + " " + hb.kind())
    S.check(S.hash(a) == ha.value, name + ": hash is stable")
    if ca is cb:
        same = meq(S, ident(ma), ident(mb))
        got = bool(oa.value == ob.value)
        if same:
            S.check(got, name + ": same identity, different record_id")
            S.check(bool(S.hash(oa.value) == S.hash(ob.value)),
                    name + ": same identity, different hash of record_id")
            S.witness("same id")
        elif ca not in (Union3,):
            # alternatives of different record types can have equal identities
            S.check(not got, name + ": identities differ, same record_id")
        S.check(bool(record_id(a, ca) == oa.value), name + ": explicit type")
    if want:
        S.check(bool(ha.value == hb.value), name + ": equal, hashes differ")
        S.check(bool(oa.value == ob.value), name + ": equal, ids differ")
        S.check(len(set([a, b])) == 1, name + ": one element of a set")
        S.check({a: 1}.get(b) == 1, name + ": found in a dict")
    S.check(S.eq(S.snap(a), sa) and S.eq(S.snap(b), sb), name + ": changed")


@harness(witness=["chain"])
def triple(S):
    """transitivity, and equal records keep being equal in other records"""
    menu = [Flat, Pk2, Nest, Union, Lazy, V1]
    if S.tier == "thorough":
        menu += [NestPk, JFlat, Nums, DctInt]
    cls = S.pick(menu, "class")
    S.hash_k(7)
    a, _ = build(S, cls)
    b, _ = build(S, cls)
    S.assume(a == b)
    c, _ = build(S, cls)
    S.assume(b == c)
    S.check(a == c and c == a, cls.__name__ + ": transitive")
    S.check(bool(S.hash(a) == S.hash(c)), cls.__name__ + ": hash")
    S.witness("chain")


KINDS = {
    "plain": lambda ex: Property(extraneous=ex),
    "typed": lambda ex: Property(isa=int, extraneous=ex),
    "required": lambda ex: Property(required=True, extraneous=ex),
    "reqtyped": lambda ex: Property(isa=int, required=True, extraneous=ex),
    "default": lambda ex: Property(isa=int, default=7, extraneous=ex),
    "check": lambda ex: Property(check=lambda v: True, extraneous=ex),
    "ro": lambda ex: Property(traits=["ro"], isa=int, extraneous=ex),
    "unsafe": lambda ex: Property(traits=["unsafe"], extraneous=ex),
    "lazy": lambda ex: Property(lazy=True, default=7, extraneous=ex),
    "lazysafe": lambda ex: Property(lazy=True, isa=int,
                                    default=lambda: 7, extraneous=ex),
    "v1": lambda ex: Property(isa=int, v1_none=None, extraneous=ex),
    "v1default": lambda ex: Property(isa=int, default=0, extraneous=ex),
    "json": lambda ex: Property(isa=int, json_name="X", extraneous=ex),
    "diffas": lambda ex: Property(compare_as=lambda v: 0, extraneous=ex),
    "list": lambda ex: ListProperty(of=int, extraneous=ex),
    "dict": lambda ex: DictProperty(of=int, extraneous=ex),
    "int": lambda ex: IntProperty(extraneous=ex),
    "record": lambda ex: Property(isa=One, extraneous=ex),
}
UNSET_READS = {"default": 7, "lazy": 7, "lazysafe": 7, "v1": None,
               "v1default": 0}
KIND_CLASSES = {}


def kind_class(kind, ex, base, key):
    if (kind, ex, base, key) not in KIND_CLASSES:
        attrs = {"a": Property(isa=int), "x": KINDS[kind](ex)}
        if key:
            attrs["primary_key"] = ["a"]
        KIND_CLASSES[kind, ex, base, key] = type("K_" + kind, (base,), attrs)
    return KIND_CLASSES[kind, ex, base, key]


@harness(witness=["equal", "different", "unset"])
def kinds(S):
    """a property of any kind is compared if it is not extraneous, and does
    not matter for equality, hash and identity if it is"""
    kind = S.pick(sorted(KINDS), "kind")
    ex, key = S.flag("extraneous"), S.flag("key")
    base = S.pick([Record, JsonRecord], "base")
    cls = kind_class(kind, ex, base, key)
    name = kind + (" extraneous" if ex else "") + (" key" if key else "")
    S.hash_k(0, 7)
    recs, vals = [], []
    for n in "ab":
        kw = {"a": S.int("a" + n)}
        x = MISSING
        if kind in ("required", "reqtyped") or S.flag("set" + n):
            v = S.int("x" + n)
            x = v
            if kind == "list":
                v = [v]
            elif kind == "dict":
                v = {"k": v}
            elif kind == "record":
                v = One(x=v)
            kw["x"] = v
        else:
            S.witness("unset")
        if x is MISSING and kind in UNSET_READS:
            x = UNSET_READS[kind]
        recs.append(cls(**kw))
        vals.append((kw["a"], x))
    (r, s), ((a, x), (b, y)) = recs, vals
    same_a = bool(a == b)
    if x is MISSING or y is MISSING or x is None or y is None:
        same_x = x is y
    else:
        same_x = bool(x == y)
    want = same_a and (ex or same_x)
    S.check(bool(r == s) == want, name + ": ==")
    S.check(bool(r != s) == (not want), name + ": !=")
    if want:
        S.check(bool(S.hash(r) == S.hash(s)), name + ": equal, hashes differ")
        S.check(bool(record_id(r) == record_id(s)),
                name + ": equal, ids differ")
        S.check(len(set([r, s])) == 1, name + ": one element of a set")
    if (key or ex) and same_a:
        S.check(bool(record_id(r) == record_id(s)),
                name + ": same identity, different record_id")
    elif not same_a:
        S.check(not record_id(r) == record_id(s),
                name + ": identities differ, same record_id")
    S.witness("equal" if want else "different")


class MyList(normalize.RecordList):
    itemtype = One


class Lookalike(object):
    itemtype = One
    colltype = list


class Derived(MyList):
    pass


class Other(Record):
    x = Property()


@harness(witness=["same", "different"])
def item_types(S):
    """collections of different item types are different, whatever is in
    them"""
    n = S.choice(2, "n")
    v = S.int("v", -9, 9)
    types = [int, (int, str), str, (str, int), object]
    made = []
    for label in "ab":
        t = S.pick(types, label)
        kind = S.pick([normalize.RecordList, normalize.coll.DictCollection],
                      label + ".kind")
        cls = type(S.pick(["X", "Y"], label + ".name"), (kind,),
                   {"itemtype": t})
        vals = ["p" if t is str else v] * n
        made.append((t, kind, cls(
            vals if kind is normalize.RecordList else
            dict((i, x) for i, x in enumerate(vals)))))
    (ta, ka, a), (tb, kb, b) = made
    want = ta == tb and (ka is kb)
    S.check(bool(a == b) == want, "==")
    S.check(bool(b == a) == want, "== reversed")
    S.check(bool(a != b) == (not want), "!=")
    if want:
        S.check(bool(S.hash(a) == S.hash(b)), "hashes differ")
    S.witness("same" if want else "different")


@harness(witness=["equal", "different"])
def collections(S):
    """record lists and dicts: equal contents of one item type; hash agrees"""
    kind = S.pick(["list", "my", "mixed", "derived", "dict"], "kind")
    if kind == "dict":
        va, ma = value(S, {"of": One}, True)
        vb, mb = value(S, {"of": One}, True)
        a, b = DICT(va), DICT(vb)
    else:
        va, ma = value(S, [One], True)
        vb, mb = value(S, [One], True)
        ca, cb = {"list": (LIST, LIST), "my": (MyList, MyList),
                  "mixed": (LIST, MyList),
                  "derived": (MyList, Derived)}[kind]
        a, b = ca(va), cb(vb)
    want = meq(S, ma, mb)
    S.check(bool(a == b) == want, kind + ": ==")
    S.check(bool(b == a) == want, kind + ": == reversed")
    S.check(bool(a != b) == (not want), kind + ": !=")
    S.check(a == a, kind + ": reflexive")
    # plain collections compare by contents
    S.check(bool(a == vb) == want, kind + ": == plain")
    o = S.outcome(lambda: S.hash(a))
    S.check(o.ok, kind + ": hash: " + o.kind())
    if want:
        S.check(bool(S.hash(b) == o.value), kind + ": hashes differ")
        S.check(bool(record_id(a) == record_id(b)), kind + ": ids differ")
    S.check(not a == 1 and a != 1 and not a == None, kind + ": == other")
    S.check(not (a == One()) and not (One() == a), kind + ": == record")
    for x in (type(a), Lookalike(), object(), One, (), "", {}.keys(),
              list_of(int)([]), dict_of(int)(), list_of(Other)([])):
        S.check(not a == x and a != x, kind + ": == other objects")
    S.witness("equal" if want else "different")
