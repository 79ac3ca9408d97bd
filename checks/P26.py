"""Errors say what was refused: their families, what they carry, their text.

The text of symbolic values is exact here (S.exact_repr), so 'the message
shows the value' is decided for every value."""
from sx.api import harness
from normalize import (
    DictProperty, FieldSelector, JsonProperty, JsonListProperty, JsonRecord,
    ListProperty, Property, Record, SafeProperty,
)
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.subtype import subtype
from normalize.record.json import JsonRecordDict, JsonRecordList
from normalize.identity import record_id
from normalize.visitor import VisitorPattern
import normalize.exc as exc

OUTSIDE = ("messages of errors in the declaration of property types; what "
           "copies or pickles of exceptions carry; values whose own repr or "
           "str raises")


class Boom(Exception):
    pass


def _boom(v):
    raise Boom("boom at", v)


Short = subtype("Short", of=str, where=lambda s: len(s) < 2)
Cut = subtype("Cut", of=str, where=lambda s: len(s) < 2,
              coerce=lambda v: v + v)


class Slots(Record):
    num = Property(isa=int)
    safe = SafeProperty(isa=int)
    union = SafeProperty(isa=(int, float))
    boom = SafeProperty(isa=int, coerce=_boom)
    bad = SafeProperty(isa=int, coerce=lambda v: [v])
    small = SafeProperty(isa=int, check=lambda v: v < 3)
    need = SafeProperty(required=True, default=1)
    short = SafeProperty(isa=Short)
    cut = SafeProperty(isa=Cut)
    lst = ListProperty(of=int)
    dct = DictProperty(of=int)


def value(S, label="v"):
    k = S.choice(4, label + ".kind")
    if k == 0:
        return S.str(label, 2, 0, "a'\\{\n")
    if k == 1:
        return S.int(label, -9, 99)
    if k == 2:
        return [S.int(label, 0, 9)]
    return S.pick([None, 1.5, b"b", ("a", 1), {"k": 2}], label)


def common(S, e, fam, cls, **kw):
    """what every structured exception does"""
    S.check(isinstance(e, cls), "raises %s" % type(e).__name__)
    S.check(isinstance(e, exc.NormalizeError), "not a NormalizeError")
    S.check(isinstance(e, fam), "%s is no %s" % (
        type(e).__name__, fam.__name__))
    text = str(e)
    S.check(isinstance(text, str) and len(text) > 0, "no text")
    S.check(str(e) == text, "the text changes")
    for k, v in kw.items():
        S.check(hasattr(e, k), "does not carry " + k)
        S.check(getattr(e, k) is v or S.same(getattr(e, k), v),
                "carries another " + k)
    S.check(not hasattr(e, "no_such_detail"), "carries anything")
    r = repr(e)
    S.check(type(e).__name__ in r, "repr without the name")
    for k, v in kw.items():
        if k == "passed":
            S.check((k + "=" + repr(v)) in r, "repr without " + k)
    return text


@harness(witness=["coerce", "bad result", "check", "required", "subtype",
                  "accepted", "list", "dict"])
def slots(S):
    """a value refused by a property's slot, at construction or assignment"""
    S.exact_repr(ints=True)
    name = S.pick(["num", "safe", "union", "boom", "bad", "small", "need",
                   "short", "cut", "lst", "dct"], "slot")
    v = value(S)
    prop = Slots.properties[name]
    if S.flag("construct") or name == "num":
        if S.flag("positional"):
            o = S.outcome(lambda: Slots({name: v}))
        else:
            o = S.outcome(lambda: Slots(**{name: v}))
    else:
        r = Slots()
        o = S.outcome(lambda: setattr(r, name, v))
    if o.ok:
        S.witness("accepted")
        return
    e = o.exc
    full = "Slots." + name
    S.check(prop.fullname == full, "fullname")
    if name == "need":
        S.check(v is None, "refused a value")
        t = common(S, e, ValueError, exc.PropertyRequired, prop=prop)
        S.check(full in t, "text without the property")
        S.witness("required")
        return
    if name == "small" and isinstance(e, exc.ValueCheckError):
        t = common(S, e, ValueError, exc.ValueCheckError, prop=prop)
        # what was checked is the coerced value
        want = v if isinstance(v, int) else int(v)
        S.check(e.passed == want, "another value")
        S.check(repr(want) in t and full in t, "text")
        S.witness("check")
        return
    if name == "bad" or (name == "cut" and
                         isinstance(e, exc.ValueCoercionError)):
        coerced = [v] if name == "bad" else v + v
        t = common(S, e, TypeError, exc.ValueCoercionError, prop=prop,
                   passed=v, coerced=coerced)
        S.check(full in t, "text without the property")
        S.check(repr(v) in t and repr(coerced) in t, "text without the value")
        S.witness("bad result")
        return
    t = common(S, e, TypeError, exc.CoerceError, prop=prop, passed=v)
    S.check(full in t, "text without the property")
    S.check(repr(v) in t, "text without the value")
    inner = e.exc
    S.check(isinstance(inner, Exception) and str(inner) in t,
            "text without the reason")
    for tn in (["int", "float"] if name == "union" else
               ["Short"] if name == "short" else ["Cut"] if name == "cut" else
               ["intList"] if name == "lst" else
               ["intMap"] if name == "dct" else ["int"]):
        S.check(tn in t, "text without the type")
    if name == "boom":
        S.check(type(inner) is Boom and S.same(inner.args[1], v),
                "another reason")
    elif name == "short":
        it = common(S, inner, TypeError, exc.SubtypeNoCoerceFunc, passed=v,
                    subtype=Short, subtype_of=str)
        S.check("Short" in it and "str" in it and repr(v) in it, "reason")
        S.witness("subtype")
        return
    elif name in ("lst", "dct"):
        coll = prop.valuetype
        if isinstance(inner, exc.CollectionItemCoerceError):
            it = common(S, inner, TypeError, exc.CollectionItemCoerceError,
                        colltype=coll, itemtype=int)
        else:
            it = common(S, inner, TypeError, exc.CollectionCoerceError,
                        passed=v, colltype=coll)
            S.check(repr(v) in it and coll.__name__ in it, "reason")
        S.witness("list" if name == "lst" else "dict")
        return
    S.witness("coerce")


IntList = list_of(int)
IntMap = dict_of(int)


class Union(ListCollection):
    itemtype = (int, str)


class Odd(ListCollection):
    itemtype = int

    @classmethod
    def coerceitem(cls, v):
        if isinstance(v, str):
            raise Boom("odd", v)
        return v


@harness(witness=["refused", "own reason"])
def items(S):
    """an item refused by a collection, whatever the way in"""
    S.exact_repr(ints=True)
    cls = S.pick([IntList, IntMap, Union, Odd], "coll")
    v = value(S)
    if cls is Union:
        S.assume(not isinstance(v, (int, str)))
    how = S.pick(["construct", "setitem", "append", "extend", "insert",
                  "update"], "how")
    if cls is IntMap:
        if how in ("append", "extend", "insert"):
            return
        c = cls({0: 1})
        o = S.outcome(
            (lambda: cls({"k": v})) if how == "construct" else
            (lambda: c.__setitem__(0, v)) if how == "setitem" else
            (lambda: c.update({"k": v})))
    else:
        if how == "update":
            return
        c = cls([1])
        o = S.outcome(
            (lambda: cls([1, v])) if how == "construct" else
            (lambda: c.__setitem__(0, v)) if how == "setitem" else
            (lambda: c.append(v)) if how == "append" else
            (lambda: c.insert(0, v)) if how == "insert" else
            (lambda: c.extend([2, v])))
    if o.ok:
        S.check(cls is not Union, "accepted")
        return
    e = o.exc
    t = common(S, e, TypeError, exc.CollectionItemCoerceError, passed=v,
               colltype=cls, itemtype=cls.itemtype)
    S.check(repr(v) in t, "text without the value")
    S.check(cls.__name__ in t, "text without the collection")
    S.check("int" in t, "text without the item type")
    if cls is Union:
        S.check("str" in t, "text without an item type")
    S.check(str(e.exc) in t, "text without the reason")
    if cls is Odd and isinstance(v, str):
        S.check(type(e.exc) is Boom and S.same(e.exc.args[1], v),
                "another reason")
        S.witness("own reason")
    S.witness("refused")


class Lazy(Record):
    fixed = Property(traits=["ro"])
    must = Property(required=True, traits=["ro"])
    other = Property()


@harness(witness=["read-only", "required", "unknown", "ambiguous"])
def records(S):
    """what a record refuses other than a value's type"""
    S.exact_repr(ints=True)
    what = S.choice(4, "what")
    v = value(S)
    if what == 0:
        r = Lazy(fixed=1, must=2)
        if S.flag("del"):
            o = S.outcome(lambda: delattr(r, "fixed"))
        else:
            o = S.outcome(lambda: setattr(r, "fixed", v))
        t = common(S, o.exc, AttributeError, exc.ReadOnlyAttributeError)
        S.check("Lazy.fixed" in t, "text without the property")
        S.witness("read-only")
    elif what == 1:
        o = S.outcome(lambda: Lazy(fixed=v))
        t = common(S, o.exc, ValueError, exc.PropertyRequired,
                   prop=Lazy.properties["must"])
        S.check("Lazy.must" in t, "text without the property")
        S.witness("required")
    elif what == 2:
        name = S.str("name", 2, 1, "abo{}")
        o = S.outcome(lambda: Lazy({"must": 1, name: v}))
        t = common(S, o.exc, exc.UsageException, exc.PropertyNotKnown,
                   propname=name, recordtype=Lazy)
        S.check(name in t and "Lazy" in t, "text")
        S.witness("unknown")
    else:
        o = S.outcome(lambda: Lazy({"must": 1}, other=v))
        common(S, o.exc, exc.UsageException, exc.AmbiguousConstruction)
        S.witness("ambiguous")


class Leaf(JsonRecord):
    n = JsonProperty(isa=int, json_name="N")


class Leaves(JsonRecordList):
    itemtype = Leaf


class LeafMap(JsonRecordDict):
    itemtype = Leaf


class Tree(JsonRecord):
    leaf = JsonProperty(isa=Leaf)
    leaves = JsonListProperty(of=Leaf)
    named = JsonProperty(isa=LeafMap)


@harness(n=(2, 3), witness=["value", "record", "list", "map"])
def json_input(S):
    """a JSON document refused: the error says where and carries why"""
    S.exact_repr(ints=True)
    where = S.pick(["leaf", "leaves", "named", "top list", "top map"],
                   "where")
    depth = S.choice(3, "what")
    v = value(S)
    good = {"N": 1}
    n = S.choice(S.p["n"], "pos")
    key = S.str("key", 1, 1, "ab")
    if depth:
        # text is read as JSON
        S.assume(not isinstance(v, (str, bytes)))
    if depth == 0:
        # a bad value for the number
        S.assume(not isinstance(v, (int, float)))
        if isinstance(v, str):
            S.assume(v != "")
            S.assume(S.eq(v[0], "a") or S.eq(v[0], "{"))
        bad = {"N": v}
    elif depth == 1:
        # what is no record
        S.assume(not isinstance(v, dict))
        bad = v
    else:
        bad = None
    if where == "leaf":
        if depth == 2:
            return
        doc, path = {"leaf": bad}, ["leaf"]
        cls = Tree
    elif where in ("leaves", "top list"):
        if depth == 2:
            S.assume(not isinstance(v, (list, tuple)))
            S.assume(v is not None)
            doc, path = v, []
        else:
            doc, path = [good] * n + [bad], [n]
        cls = Leaves
        if where == "leaves":
            doc, path, cls = {"leaves": doc}, ["leaves"] + path, Tree
    else:
        if depth == 2:
            S.assume(not isinstance(v, dict))
            S.assume(v is not None)
            doc, path = v, []
        else:
            doc, path = {key: bad}, [key]
        cls = LeafMap
        if where == "named":
            doc, path, cls = {"named": doc}, ["named"] + path, Tree
    o = S.outcome(lambda: cls.from_json(doc))
    if o.ok:
        # a list of json records may be given in other shapes
        S.check(depth != 0, "a bad value accepted")
        return
    e = o.exc
    S.check(isinstance(e, exc.NormalizeError), "raises " + o.kind())
    S.check(isinstance(e, TypeError), "no TypeError: " + o.kind())
    text = str(e)
    S.check(len(text) > 0, "no text")
    if depth == 0:
        common(S, e, TypeError, exc.JsonConversionError)
        # (of the record; the reason names the property)
        S.check(list(e.error_fs.selectors) == path, "path")
        S.check(e.error_fs.path in text, "text without the path")
        sub = e.sub_exception
        st = common(S, sub, TypeError, exc.CoercionError, passed=v)
        S.check(sub.prop is Leaf.properties["n"], "property")
        S.check(st in text, "text without the reason")
        S.witness("value")
    elif depth == 1:
        sub = e
        if isinstance(e, exc.JsonConversionError):
            S.check(list(e.error_fs.selectors) == path, "path")
            S.check(e.error_fs.path in text, "text without the path")
            sub = e.sub_exception
            S.check(str(sub) in text, "text without the reason")
        common(S, sub, TypeError, exc.JsonRecordCoerceError, passed=v,
               recordtype=Leaf)
        S.check("Leaf" in text, "text without the type")
        S.check(repr(v) in text, "text without the value")
        S.witness("record")
    else:
        S.witness("list" if cls is Leaves or where == "leaves" else "map")
        S.check(repr(v) in text, "text without the value")
        sub = e.sub_exception if path else e
        if path:
            S.check(list(e.error_fs.selectors) == path, "path")
        common(S, sub, TypeError, exc.JsonCollectionCoerceError, passed=v)
        S.check(sub.colltype.itemtype is Leaf, "type")
        S.check(("array" if cls is Leaves or where == "leaves" else
                 "object") in text, "text without what is expected")


@harness(witness=["formatted", "missing", "positional", "few"])
def own_exceptions(S):
    """an exception declared with a name and a format string"""
    S.exact_repr(ints=True)
    a = S.str("a", 2, 0, "x{}%")
    b = value(S, "b")
    shape = S.choice(4, "shape")
    if shape == 0:
        class Mine(exc.StringFormatException):
            message = "{a} got {b!r}"
        e = Mine(a=a, b=b, extra=3)
        S.check(str(e) == a + " got " + repr(b), "text")
        S.check(e.a is a and e.b is b and e.extra == 3, "attributes")
        S.check(S.outcome(lambda: e.c).raised(AttributeError), "e.c")
        r = repr(e)
        S.check(r == "Mine(a=%s, b=%s, extra=3)" % (repr(a), repr(b)),
                "repr")
        S.witness("formatted")
    elif shape == 1:
        class Mine(exc.StringFormatException):
            message = "{a} got {b!r}"
        drop = S.pick(["a", "b"], "drop")
        kw = {"a": a, "b": b}
        del kw[drop]
        o = S.outcome(lambda: Mine(**kw))
        S.check(o.raised(exc.KeywordExceptionFormatError), o.kind())
        S.check(o.exc.missing == drop and o.exc.typename == "Mine",
                "what is missing")
        S.check(drop in str(o.exc) and "Mine" in str(o.exc), "text")
        S.witness("missing")
    elif shape == 2:
        class Mine(exc.StringFormatException):
            message = "{0} got {1!r}"
        e = Mine(a, b)
        S.check(str(e) == a + " got " + repr(b), "text")
        S.check(e[0] is a and e[1] is b, "items")
        S.check(len(e.args) == 2 and e.args[1] is b, "args")
        S.check(repr(e) == "Mine(%s, %s)" % (repr(a), repr(b)), "repr")
        S.witness("positional")
    else:
        class Mine(exc.StringFormatException):
            message = "{0} got {1!r}"
        o = S.outcome(lambda: Mine(a))
        S.check(o.raised(exc.PositionalExceptionFormatError), o.kind())
        S.check("Mine" in str(o.exc), "text")
        S.witness("few")


class Pt(Record):
    x = Property(isa=int)
    leafs = ListProperty(of=Slots)
    plain = Property()


@harness(witness=["attribute", "key", "vivify"])
def selectors(S):
    """a selector which leads nowhere: AttributeError or KeyError, naming it"""
    S.exact_repr(ints=True)
    op = S.pick(["get", "put", "post", "delete"], "op")
    name = S.str("name", 2, 1, "abx")
    v = value(S)
    kind = S.choice(4, "kind")
    if kind == 0:
        rec, fs, why = Pt(x=1), FieldSelector((name, "deep")), name
        S.assume(not S.eq(name, "x"))
        fam = AttributeError
    elif kind == 1:
        i = S.int("i", 0, 4)
        rec, fs, why = Pt(leafs=[{}]), FieldSelector(("leafs", i, "num")), i
        S.assume(i > 0)
        if op == "post":
            return
        fam = KeyError
    elif kind == 2:
        if op not in ("put", "post"):
            return
        rec, fs, why = Pt(), FieldSelector(("plain", name)), "plain"
        fam = Exception
        if op == "put":
            fam = AttributeError
    else:
        if op not in ("get", "delete"):
            return
        rec, fs, why = Pt(x=1), FieldSelector(("plain",)), "plain"
        fam = AttributeError
    o = S.outcome(
        (lambda: fs.get(rec)) if op == "get" else
        (lambda: fs.delete(rec)) if op == "delete" else
        (lambda: fs.put(rec, v)) if op == "put" else
        (lambda: fs.post(rec, v)))
    S.check(not o.ok, "found something")
    e = o.exc
    S.check(isinstance(e, fam), "%s raises %s" % (op, o.kind()))
    S.check(isinstance(e, exc.FieldSelectorException), "family " + o.kind())
    text = str(e)
    S.check(str(why) in text, "text without the name")
    if isinstance(e, AttributeError):
        common(S, e, AttributeError, exc.FieldSelectorAttributeError,
               name=why)
        S.witness("attribute")
    elif isinstance(e, KeyError):
        common(S, e, KeyError, exc.FieldSelectorKeyError, key=why)
        S.witness("key")
    else:
        common(S, e, exc.FieldSelectorException, exc.FieldSelectorVivifyError,
               prop=Pt.properties["plain"])
        S.witness("vivify")


def _bang(self):
    raise Boom("prop", 7)


class Bad(Record):
    deep = Property(lazy=True, default=_bang)


class Top(Record):
    first = Property(isa=int)
    bads = ListProperty(of=Bad)


class PkHolder(Record):
    k = Property()
    primary_key = [k]


class Vis(VisitorPattern):
    @classmethod
    def aggregate(cls, vals, coll_type, visitor):
        return list(v for k, v in vals)


@harness(witness=["unhashable", "visit", "grok record", "grok collection"])
def machinery(S):
    """errors of identities and visitors"""
    S.exact_repr(ints=True)
    what = S.choice(3, "what")
    if what == 0:
        # identities are of hashable values
        r = PkHolder(k=[S.int("n", 0, 9)])
        o = S.outcome(lambda: hash(r))
        S.check(not o.ok, "hashed")
        S.check(isinstance(o.exc, (TypeError, exc.KeyHashError)), o.kind())
        S.check(len(str(o.exc)) > 0, "text")
        S.witness("unhashable")
    elif what == 1:
        n = S.choice(2, "pos")
        t = Top(first=S.int("f"), bads=[Bad(deep=1)] * n + [Bad()])
        o = S.outcome(lambda: VisitorPattern.visit(t))
        if o.ok:
            # unset lazy properties need not be computed
            return
        e = o.exc
        txt = common(S, e, exc.VisitorException, exc.VisitorPropError,
                     prop_name="deep", record_type_name="Bad")
        S.check("deep" in txt and "Bad" in txt, "text")
        S.check(list(e.fs.selectors)[:2] == ["bads", n], "where")
        S.check(type(e.exception) is Boom, "why")
        S.witness("visit")
    else:
        v = value(S)
        coll = S.flag("coll")
        doc = {"leafs": v} if coll else {"leafs": [v]}
        if coll:
            S.assume(not isinstance(v, (list, tuple, dict, str, bytes)))
            S.assume(v is not None)
        else:
            S.assume(not isinstance(v, dict))
            S.assume(v is not None)
        o = S.outcome(lambda: VisitorPattern.cast(Pt, doc))
        if o.ok:
            return
        e = o.exc
        t = common(S, e, exc.VisitorException,
                   exc.VisitorGrokCollectionError if coll else
                   exc.VisitorGrokRecordError)
        S.check(repr(v) in t, "text without the value")
        S.check(list(e.field_selector.selectors) ==
                (["leafs"] if coll else ["leafs", 0]), "where")
        S.check(e.record_type_name in t, "type")
        S.witness("grok collection" if coll else "grok record")
