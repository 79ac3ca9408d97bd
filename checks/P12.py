"""JSON input: which key sets what, and where errors are reported."""
from sx.api import harness, MISSING
import normalize
from normalize import Record, Property, ListProperty, DictProperty, \
    JsonRecord, from_json, to_json
from normalize.property.json import JsonProperty, JsonListProperty, \
    JsonDictProperty
from normalize.record.json import JsonRecordList, JsonRecordDict
import normalize.exc as exc

VALIDATE_EVERY = 17
OUTSIDE = ("symbolic keys longer than 1 character, "
           "structures deeper than 4, more than one invalid element, "
           "key values of kinds other than the four listed")


class J(JsonRecord):
    a = Property(isa=int, json_name="A")
    b = Property(isa=int)
    c = Property(json_name="long name")
    h = Property(isa=int, json_name=None)
    r = JsonProperty(json_name="r", extraneous=True)


class Kept(JsonRecord):
    unknown_json_keys = JsonProperty(json_name=None)
    a = Property(isa=int, json_name="A")
    b = Property(isa=int)
    h = Property(isa=int, json_name=None)


class WithPlain(J):
    p = Property()


class Sub(WithPlain):
    d = Property(isa=int)
    b = Property(isa=int, json_name="B")


class Plain(Record):
    a = Property(isa=int, json_name="A")
    b = Property(isa=int)
    h = Property(isa=int, json_name=None)


# class -> key -> slot
KEYS = {
    J: {"A": "a", "b": "b", "long name": "c", "r": "r"},
    Kept: {"A": "a", "b": "b"},
    Sub: {"A": "a", "B": "b", "long name": "c", "r": "r", "d": "d"},
    Plain: {"A": "a", "b": "b"},
}
MENU = ["A", "a", "b", "B", "h", "long name", "c", "unknown_json_keys", "",
        "r", "d", "zz"]


def jvalue(S):
    k = S.choice(4, "value")
    if k == 0:
        return {"x": [S.int("v", -99, 99)]}
    if k == 1:
        return [S.str("t", 1)]
    if k == 2:
        return None
    return S.int("v", -99, 99)


def structure(S, cls, nkeys, any_key=True):
    """any keys: known, unknown, hidden, or any short string"""
    js = {}
    for _ in range(S.choice(nkeys + 1, "nkeys")):
        k = S.pick(MENU + ["*"] * any_key, "key")
        if k == "*":
            k = S.str("key", S.p["klen"], 1, alphabet="AabBhz")
        if k in js:
            S.assume(False)
        slot = None
        for known in sorted(KEYS[cls]):
            if k == known:
                slot = KEYS[cls][known]
                k = known
        if slot is None or slot in ("c", "r"):
            js[k] = jvalue(S)
        else:
            js[k] = S.int("v", -99, 99)
    return js


def known(cls, js):
    """-> slots that must be set, keys that belong to no property"""
    slots, rest = {}, {}
    for k, v in js.items():
        if k in KEYS[cls]:
            slots[KEYS[cls][k]] = v
        else:
            rest[k] = v
    return slots, rest


def parts(x):
    r = []
    if type(x) in (list, dict):
        r.append(x)
        for v in (x.values() if type(x) is dict else x):
            r.extend(parts(v))
    return r


@harness(nkeys=(2, 3), klen=(1, 1), hows=(1, 1), witness=["known", "unknown", "refused"])
def keys(S):
    cls = S.pick([J, Kept, Sub, Plain], "class")
    name = cls.__name__
    S.hash_k(*(MENU + ["other"]))
    js = structure(S, cls, S.p["nkeys"])
    before = S.snap(js)
    how = S.pick(["new", "from_json", "text"][:S.p["hows"]], "how")
    o = S.outcome(lambda: cls(js) if how == "new" and cls is not Plain else
                  from_json(cls, S.json_text(js, "str") if how == "text"
                            else js))
    slots, rest = known(cls, js)
    S.check(S.eq(S.snap(js), before), name + ": input modified")
    if cls is Plain and rest:
        S.check(o.raised(exc.PropertyNotKnown), name + ": unknown key: " +
                o.kind())
        S.witness("refused")
        return
    S.check(o.ok, name + ": " + o.kind())
    r = o.value
    for n in cls.properties:
        if n == "unknown_json_keys":
            continue
        v = S.get(r, n)
        if n in slots:
            S.check(v is not MISSING and S.eq(v, slots[n]),
                    "%s: slot %s" % (name, n))
            S.witness("known")
        else:
            S.check(v is MISSING, "%s: slot %s set by itself" % (name, n))
    got = S.get(r, "unknown_json_keys")
    if cls is not Plain:
        S.check((S.eq(got, rest)) if rest else
                got is MISSING or len(got) == 0, name + ": unknown keys")
    if rest:
        S.witness("unknown")
        for k1, k2 in zip(got, rest):
            S.check(S.eq(k1, k2), name + ": order of the unknown keys")
        # kept apart from the caller's structure
        mine = parts(js)
        for x in parts(got):
            for y in mine:
                S.check(x is not y, name + ": unknown keys share structure")
    if cls is Plain:
        return
    # written out again
    for ex in (True, False):
        out = S.outcome(lambda: r.json_data(extraneous=ex))
        S.check(out.ok, name + ": json_data: " + out.kind())
        want = {}
        for k, v in js.items():
            if k in KEYS[cls]:
                if ex or not cls.properties[KEYS[cls][k]].extraneous:
                    want[k] = v
            elif ex or cls is Kept:
                want[k] = v
        S.check(S.eq(out.value, want), "%s: json_data(extraneous=%s)" % (
            name, ex))


@harness(witness=["same"])
def ways(S):
    """however a structure is passed, it means the same"""
    cls = S.pick([J, Kept, Sub], "class")
    js = structure(S, cls, 1, False)
    js["zz"] = jvalue(S)
    r = cls(js)
    for o in (S.outcome(lambda: from_json(cls, js)),
              S.outcome(lambda: cls(S.json_text(js, "str"))),
              S.outcome(lambda: from_json(cls, S.json_text(js, "bytes"))),
              S.outcome(lambda: cls(json_data=S.json_text(js, "bytearray"))),
              S.outcome(lambda: cls.from_json(js))):
        S.check(o.ok, o.kind())
        S.check(S.type(o.value) is cls and bool(o.value == r), "equal")
        S.check(S.eq(o.value.unknown_json_keys, r.unknown_json_keys),
                "unknown keys")
    S.witness("same")


@harness(witness=["changed"])
def no_override(S):
    """what the record says wins over unknown keys of the same name"""
    cls = S.pick([J, Kept], "class")
    v, w = S.int("v", -99, 99), S.int("w", -99, 99)
    r = cls({"zz": v})
    k = S.pick(["A", "b", "zz", "h"], "key")
    r.unknown_json_keys = {k: w, "other": None}
    r.a = v
    r.h = v
    out = r.json_data(extraneous=True)
    want = {"A": v, "other": None}
    if k != "A":
        want[k] = w
    S.check(S.eq(out, want), "json_data")
    S.check(S.eq(r.unknown_json_keys, {k: w, "other": None}), "modified")
    S.witness("changed")


@harness(witness=["both"])
def keywords(S):
    """keywords given beside a structure win over the keys in it"""
    v, w = S.int("v", -99, 99), S.int("w", -99, 99)
    cls = S.pick([WithPlain, Sub], "class")
    js = {}
    for k in ("A", "zz", "long name", "p"):
        if S.flag("in." + k):
            js[k] = v
    kw = {}
    for k in ("a", "h", "c", "p"):
        if S.flag("kw." + k):
            kw[k] = w
            if k in "cp" and S.flag("kw.none"):
                kw[k] = None
    r = cls(dict(js), **kw)
    for n, k in (("a", "A"), ("c", "long name"), ("h", None), ("p", "p")):
        want = kw[n] if n in kw else js[k] if k in js else MISSING
        got = S.get(r, n)
        S.check(got is want if want is MISSING or want is None else
                got is not MISSING and got == want, "slot " + n)
    u = S.get(r, "unknown_json_keys")
    S.check(S.eq(u, {"zz": v}) if "zz" in js else u is MISSING or not u,
            "unknown keys")
    S.witness("both")


class JPages(JsonRecordList):
    itemtype = J
    page = Property(isa=int)


class JSections(JsonRecordDict):
    itemtype = J
    page = Property(isa=int)


@harness(witness=["given", "read", "none"])
def keywords_coll(S):
    """the same for the items and the properties of collections"""
    v, w, n = S.int("v", -99, 99), S.int("w", -99, 99), S.int("n")
    cls = S.pick([JPages, JSections], "class")
    text = S.flag("text")
    js = [{"A": v}] * S.choice(3, "len")
    if cls is JSections:
        js = dict(("xyz"[i], x) for i, x in enumerate(js))
    before = S.snap(js)
    kw = {}
    given = S.pick(["none", "empty", "items", "json"], "values")
    if given != "none":
        items = ([] if given == "empty" else [J(a=w)] if given == "items"
                 else [{"A": w}])
        kw["values"] = items if cls is JPages else dict(zip("k", items))
    elif S.flag("kw.none"):
        kw["values"] = None
    if S.flag("page"):
        kw["page"] = n
    o = S.outcome(lambda: cls(S.json_text(js, "str") if text else js, **kw))
    S.check(o.ok, "raises " + o.kind())
    r = o.value
    page = S.get(r, "page")
    S.check(page == n if "page" in kw else page is MISSING, "page")
    S.check(S.eq(S.snap(js), before), "input modified")
    got = list(r) if cls is JPages else list(r.items())
    if given == "none":
        want = [v] * len(js)
        keys = list(js)
        S.witness("read")
    else:
        want = [w] * len(kw["values"])
        keys = list(kw["values"])
        S.witness("given")
    if not want:
        S.witness("none")
    S.check(len(got) == len(want), "number of items")
    for i, x in enumerate(got):
        if cls is JSections:
            S.check(x[0] == keys[i], "key")
            x = x[1]
        S.check(S.type(x) is J and x.a == want[i], "item")


@harness(witness=["shared", "absent"])
def shared_name(S):
    """two properties may read the same key"""
    base = S.pick([Record, JsonRecord], "base")
    v = S.int("v", -99, 99)
    cls = type("Two", (base,), {
        "x": Property(isa=int, json_name="k"),
        "y": Property(json_name="k", json_in=lambda j: [j],
                      json_out=lambda l: l[0])})
    js = {"k": v} if S.flag("there") else {}
    o = S.outcome(lambda: from_json(cls, js))
    S.check(o.ok, "shared: " + o.kind())
    if js:
        S.check(o.value.x == v and S.eq(o.value.y, [v]), "slots")
        S.check(S.eq(to_json(o.value), {"k": v}), "to_json")
        S.witness("shared")
    else:
        S.check(S.get(o.value, "x") is MISSING, "set")
        S.witness("absent")


# -- where errors are


class Leaf(Record):
    x = Property(isa=int)
    y = Property(isa=int, json_name="Y")


class JLeaf(JsonRecord):
    x = Property(isa=int, json_name="X")
    need = Property(isa=int, required=True)
    conv = JsonProperty(json_in=lambda j: 10 // j)


class Mid(JsonRecord):
    leaf = Property(isa=JLeaf, json_name="Leaf")
    leaves = JsonListProperty(of=JLeaf, json_name="Leaves")
    plain = Property(isa=Leaf)
    nums = JsonListProperty(of=int)


class Doc(JsonRecord):
    n = Property(isa=int, json_name="N")
    conv = Property(isa=int, json_name="C", json_in=lambda j: 10 // j)
    leaf = Property(isa=JLeaf)
    mid = Property(isa=Mid, json_name="Mid")
    mids = JsonListProperty(of=Mid)
    table = JsonDictProperty(of=JLeaf, json_name="Table")
    plains = ListProperty(of=Leaf, json_name="Plains")
    ptable = DictProperty(of=Leaf)
    nums = ListProperty(of=int)


class PDoc(Record):
    leaf = Property(isa=JLeaf)
    mid = Property(isa=Mid, json_name="Mid")
    plains = ListProperty(of=Leaf, json_name="Plains")
    plain = Property(isa=Leaf)


class JLeaves(JsonRecordList):
    itemtype = JLeaf


class JTable(JsonRecordDict):
    itemtype = Leaf


INT, REC, CONV, NEED = "int", "rec", "conv", "need"
# spec of a structure: dict of key -> spec, [spec], {"of": spec} or a leaf; a
# 1-tuple is a collection that is not JSON-aware: its slot coerces the items
LEAF = {"x": INT, "Y": INT}
JLEAF = {"X": INT, "need": NEED, "conv": CONV}
MID = {"Leaf": JLEAF, "Leaves": [JLEAF], "plain": LEAF, "nums": [INT]}
DOCS = {
    Doc: {"N": INT, "C": CONV, "leaf": JLEAF, "Mid": MID, "mids": [MID],
          "Table": {"of": JLEAF}, "Plains": (LEAF,),
          "ptable": ({"of": LEAF},), "nums": (INT,)},
    PDoc: {"leaf": JLEAF, "Mid": MID, "Plains": (LEAF,), "plain": LEAF},
    JLeaves: [JLEAF],
    JTable: {"of": LEAF},
}


def good(S, spec):
    if spec in (INT, NEED):
        return S.int("g", -99, 99)
    if spec == CONV:
        return 1
    if type(spec) is tuple:
        spec = spec[0] if type(spec[0]) is dict and "of" in spec[0] else \
            [spec[0]]
    if type(spec) is list:
        return [good(S, spec[0])]
    if "of" in spec:
        return {"k": good(S, spec["of"])}
    # a record: the required slots, at least
    return dict((k, good(S, v)) for k, v in spec.items() if v == NEED)


def bad(S, spec, path, inside, whole=True):
    """-> (structure with one invalid element, path to it, length of the path
    to the record or collection that it belongs to)"""
    if type(spec) is str:
        if spec == CONV:
            return S.pick([0, "no", None], "bad"), path, inside
        return S.pick(["bad", [], {"x": 1}], "bad"), path, inside
    if type(spec) is tuple:
        if S.flag("here"):
            return S.pick([5, True], "bad"), path, inside
        spec = spec[0] if type(spec[0]) is dict and "of" in spec[0] else \
            [spec[0]]
        js, p, l = bad(S, spec, path, inside, False)
        # what is no record is refused when the slot coerces the items
        return js, p, inside if len(p) == len(path) + 1 else l
    if whole and path and S.flag("here"):
        # in place of a record or collection
        wrong = [5, True]
        wrong += [[3], "[1]"] if type(spec) is dict else [{"a": 1}, "{}"]
        return S.pick(wrong, "bad"), path, inside
    inside = len(path)
    if type(spec) is list:
        n = S.choice(2, "before")
        items = [good(S, spec[0]) for _ in range(n)]
        b, p, l = bad(S, spec[0], path + [n], inside)
        items.append(b)
        if S.flag("after"):
            items.append(good(S, spec[0]))
        return items, p, l
    if "of" in spec:
        key = S.pick(["k", "", "it's"], "key")
        js = {"g": good(S, spec["of"])} if S.flag("before") else {}
        js[key], p, l = bad(S, spec["of"], path + [key], inside)
        return js, p, l
    js = good(S, spec)
    if path and NEED in spec.values() and S.flag("missing"):
        return {}, path, inside
    k = S.pick(sorted(spec), "slot")
    js[k], p, l = bad(S, spec[k], path + [k], inside)
    return js, p, l


@harness(witness=["located", "top"])
def errors(S):
    """one invalid element, anywhere: the path of the error leads to it"""
    cls = S.pick([Doc, PDoc, JLeaves, JTable], "class")
    js, path, inside = bad(S, DOCS[cls], [], 0)
    S.note(path)
    before = S.snap(js)
    how = S.pick(["struct", "new"], "how")
    if how == "new" and not issubclass(cls, JsonRecord):
        return
    o = S.outcome(lambda: cls(js) if how == "new" else from_json(cls, js))
    S.check(S.eq(S.snap(js), before), "input modified")
    where = "%s %s" % (cls.__name__, path)
    S.check(not o.ok, where + ": accepted")
    e = o.exc
    S.check(isinstance(e, exc.StringFormatException),
            where + ": no normalize error but " + o.kind())
    if isinstance(e, exc.JsonConversionError):
        got = list(e.error_fs.selectors)
        S.check(len(got) <= len(path) and S.eq(got, path[:len(got)]),
                "%s: located at %s" % (where, got))
        S.check(len(got) >= inside, "%s: only located at %s" % (where, got))
        S.check(not isinstance(e.sub_exception, exc.JsonConversionError),
                where + ": errors nested")
        S.check(S.outcome(lambda: str(e)).ok, where + ": no message")
        S.witness("located")
    else:
        S.check(inside == 0, where + ": not located: " + o.kind())
        S.witness("top")
