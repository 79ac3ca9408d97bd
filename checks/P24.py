"""Auto JSON records: keys become attributes and go back as they came."""
import copy

from sx.api import harness, MISSING
from normalize import AutoJsonRecord, JsonRecord, NCAutoJsonRecord, \
    Property, Record, from_json, to_json
from normalize.coll import ListCollection
from normalize.property.json import JsonProperty
from normalize.record.json import JsonRecordList

VALIDATE_EVERY = 17
OUTSIDE = ("keys of more than 5 characters or with characters other than the "
           "ones listed, keys that are the name of a method of Record (the "
           "method is what attribute access finds), lists of lists of "
           "objects (their objects stay dicts), structures deeper than 3")
ALPHABET = "aB_1"


class Mine(AutoJsonRecord):
    foo_bar = Property(isa=int, json_name="fooBar")
    other = Property(isa=int, json_name="x")
    hidden = Property(isa=int, json_name=None)
    late = Property(isa=int, extraneous=True)


class NCMine(NCAutoJsonRecord):
    foo_bar = Property(isa=int, json_name="fooBar")
    other = Property(isa=int, json_name="x")
    hidden = Property(isa=int, json_name=None)
    late = Property(isa=int, extraneous=True)


class Kept(AutoJsonRecord):
    unknown_json_keys = JsonProperty(
        json_name=None, extraneous=True, default=lambda: {})


AUTO = [AutoJsonRecord, NCAutoJsonRecord]


def lower(ch):
    return ("a" <= ch and ch <= "z") or ("0" <= ch and ch <= "9")


def upper(ch):
    return "A" <= ch and ch <= "Z"


def snake(key):
    """an upper case letter after a lower case one or a digit becomes an
    underscore and the lower case letter"""
    out = ""
    free = True
    for i in range(len(key)):
        ch = key[i]
        if i and upper(ch) and lower(key[i - 1]) and free:
            out += "_" + ch.lower()
        else:
            out += ch
    return out


def camel(name):
    """the opposite: where a single underscore stands between a lower case
    letter or digit and a lower case letter; the letter that was converted is
    not the start of another one"""
    out = ""
    i = 0
    n = len(name)
    while i < n:
        if i + 2 < n and lower(name[i]) and name[i + 1] == "_" and \
                "a" <= name[i + 2] and name[i + 2] <= "z":
            out += name[i] + name[i + 2].upper()
            i += 3
        else:
            out += name[i]
            i += 1
    return out


def name_of(cls, key):
    return key if issubclass(cls, NCAutoJsonRecord) else snake(key)


def key_of(cls, name):
    return name if issubclass(cls, NCAutoJsonRecord) else camel(name)


@harness(klen=(4, 5), witness=["same", "converted"])
def one_key(S):
    """the attribute of a key of any form, and the JSON written"""
    cls = S.pick(AUTO, "class")
    key = S.str("key", S.p["klen"], 1, alphabet=ALPHABET)
    v = S.int("v", -99, 99)
    rec = cls({key: v})
    name = name_of(cls, key)
    S.check(S.eq(S.get(rec, name), v), "the key's attribute has its value")
    S.check(S.eq(rec.json_data(), {key: v}), "the key is written as it came")
    S.check(S.eq(to_json(rec).get(key, v), v), "to_json")
    S.witness("same" if name == key else "converted")


@harness(klen=(3, 3), nkeys=(2, 2), witness=["apart", "clash"])
def several_keys(S):
    """keys do not get in each other's way"""
    cls = AutoJsonRecord
    keys = []
    for i in range(S.p["nkeys"]):
        k = S.str("key", S.p["klen"], 1, alphabet="aBb_")
        for o in keys:
            S.assume(k != o)
        keys.append(k)
    js = {}
    for i, k in enumerate(keys):
        js[k] = i + 10
    rec = cls(dict(js))
    out = rec.json_data()
    S.check(S.eq(out, js), "every key is written as it came")
    S.check(S.eq(rec.json_data(extraneous=True), js), "extraneous or not")
    names = [snake(k) for k in keys]
    clash = names[0] == names[1]
    for i, k in enumerate(keys):
        taken = False
        for j, o in enumerate(keys):
            if j != i and (names[i] == o or names[i] == names[j]):
                taken = True
        if not taken:
            S.check(S.eq(S.get(rec, names[i]), i + 10),
                    "each key's attribute has its value")
        elif names[i] == k:
            S.check(S.eq(S.get(rec, k), i + 10),
                    "a key that is an attribute's name is that attribute")
    seen = []
    for k in rec.unknown_json_keys:
        seen.append(rec.unknown_json_keys[k])
    S.check(len(seen) == len(keys), "no value gets lost")
    S.witness("clash" if clash else "apart")


@harness(witness=["found"])
def three_keys(S):
    """keys with the same attribute, whatever their order"""
    menu = ["aB_b", "a_bB", "aBB", "a_b_b", "a_b_B", "a_bb", "aBb"]
    i = S.choice(len(menu), "k")
    j = S.choice(len(menu), "k")
    k = S.choice(len(menu), "k")
    S.assume(i != j and j != k and i != k)
    js = {menu[i]: 1, menu[j]: 2, menu[k]: 3}
    rec = AutoJsonRecord(js)
    S.check(S.eq(rec.json_data(), js), "every key is written as it came")
    S.check(S.eq(AutoJsonRecord(rec.json_data()).json_data(), js), "again")
    for n in (i, j, k):
        if snake(menu[n]) == menu[n]:
            S.check(S.eq(S.get(rec, menu[n]), js[menu[n]]),
                    "a key that is an attribute's name is that attribute")
    S.witness("found")


def value(S, depth):
    kinds = ["int", "empty list"]
    if depth == S.p["depth"]:
        kinds += ["str", "none", "true", "list"]
    if depth:
        kinds += ["object", "objects", "mixed"]
    kind = S.pick(kinds, "kind")
    if kind == "int":
        return S.int("v", -99, 99)
    if kind == "str":
        return S.str("s", 1, alphabet="aB_")
    if kind == "none":
        return None
    if kind == "true":
        return True
    if kind == "empty list":
        return []
    if kind == "list":
        return [S.int("v", -99, 99), "aB"]
    if kind == "object":
        return obj(S, depth - 1)
    if kind == "objects":
        return [obj(S, depth - 1) for _ in range(1 + S.choice(
            S.p["items"], "items"))]
    pair = [{"c_d": 1}, S.pick([1, None, [], "x"], "item")]
    if S.flag("swapped"):
        pair.reverse()
    return pair


def obj(S, depth):
    js = {}
    keys = S.choice(3, "keys")
    if keys:
        js["aB"] = value(S, depth)
    if keys == 2:
        js["c_d"] = S.int("v", -99, 99)
    return js


def same(S, cls, got, js):
    """what the attribute for a JSON value holds"""
    t = S.type(js)
    if t is dict:
        if S.type(got) is not cls:
            return False
        for k in js:
            if not same(S, cls, S.get(got, name_of(cls, k)), js[k]):
                return False
        return S.eq(got.json_data(), js)
    if t is list and js:
        objects = True
        for x in js:
            if S.type(x) is not dict:
                objects = False
        if objects:
            if not isinstance(got, ListCollection) or len(got) != len(js):
                return False
            for i in range(len(js)):
                if not same(S, cls, got[i], js[i]):
                    return False
            return True
    return S.eq(got, js)


@harness(depth=(2, 2), items=(1, 2), witness=["end"])
def nested(S):
    """objects become records and lists of objects lists of records; what is
    written is what came"""
    cls = S.pick(AUTO, "class")
    js = {}
    js["aB"] = value(S, S.p["depth"])
    js["c_d"] = S.int("v", -99, 99)
    before = copy.deepcopy(js)
    how = S.choice(3, "how")
    if how == 0:
        rec = cls(js)
    elif how == 1:
        rec = from_json(cls, js)
    else:
        rec = cls(S.json_text(js))
    S.check(same(S, cls, rec, before), "attributes of all levels")
    S.check(S.eq(js, before), "the input is not modified")
    S.check(S.eq(rec.json_data(extraneous=True), before), "extraneous JSON")
    S.check(S.eq(cls(rec.json_data()).json_data(), before), "JSON of JSON")
    other = cls(before)
    S.check(rec == other and not rec != other, "equal to another one from it")
    S.check(len(list(rec.diff_iter(other))) == 0, "no difference")
    S.witness("end")


# key -> attribute, of the declared ones
DECLARED = {"fooBar": "foo_bar", "x": "other", "late": "late"}
MENU = ["fooBar", "x", "late", "foo_bar", "other", "hidden", "someKey",
        "some_key", "unknown_json_keys", "X", ""]


@harness(nkeys=(2, 3), witness=["end"])
def declared(S):
    """declared properties and other keys in one record"""
    cls = S.pick([Mine, NCMine], "class")
    js = {}
    for i in range(1 + S.choice(S.p["nkeys"], "nkeys")):
        k = S.pick(MENU, "key")
        S.assume(k not in js)
        js[k] = S.int("v", -99, 99)
    before = dict(js)
    rec = cls(js)
    for k in before:
        if k in DECLARED:
            S.check(S.eq(S.get(rec, DECLARED[k]), before[k]), "declared key")
        else:
            name = name_of(cls, k)
            if name == "some_key" and "some_key" in js and k != name:
                continue
            if name not in ("foo_bar", "other", "hidden",
                            "unknown_json_keys"):
                S.check(S.eq(S.get(rec, name), before[k]), "undeclared key")
    for k in DECLARED:
        if k not in before:
            S.check(S.get(rec, DECLARED[k]) is MISSING or
                    S.get(rec, DECLARED[k]) is None, "declared, not set")
    out = rec.json_data()
    kept = dict((k, before[k]) for k in before if k != "late")
    S.check(S.eq(out, kept), "JSON without extraneous properties")
    S.check(S.eq(rec.json_data(extraneous=True), before), "all of the JSON")
    S.witness("end")


@harness(witness=["end"])
def kept_extraneous(S):
    """where the unknown keys are declared to be extraneous"""
    js = {"aB": S.int("v", -99, 99)}
    rec = Kept(js)
    S.check(S.eq(rec.json_data(), {}), "left out")
    S.check(S.eq(rec.json_data(extraneous=True), js), "on request")
    S.check(S.eq(S.get(rec, "a_b"), js["aB"]), "attribute")
    S.witness("end")


NAMES = ["foo_bar", "other", "late", "some_key", "someKey", "a", "snake_key"]


@harness(steps=(2, 3), witness=["set", "deleted"])
def changes(S):
    """attributes that are set and deleted"""
    cls = S.pick([Mine, NCMine], "class")
    nc = cls is NCMine
    js = {"fooBar": 1}
    if S.flag("other keys"):
        js["someKey"] = 2
        js["snake_key"] = 3
    rec = cls(js)
    slots = {"foo_bar": 1}      # declared properties
    names = {"foo_bar": "fooBar", "other": "x", "late": "late"}
    keys = {}                   # attribute -> key
    vals = {}
    for k in js:
        if k != "fooBar":
            keys[name_of(cls, k)] = k
            vals[name_of(cls, k)] = js[k]
    for step in range(S.p["steps"]):
        name = S.pick(NAMES, "name")
        if S.flag("delete"):
            r = S.outcome(lambda: delattr(rec, name))
            if name in names:
                S.check(r.ok == (name in slots) or r.ok,
                        "deleting a property")
                slots.pop(name, None)
                S.assume(r.ok)
            else:
                S.check(r.ok if name in vals else r.raised(AttributeError),
                        "deleting: exactly what is there")
                vals.pop(name, None)
            if r.ok:
                S.witness("deleted")
        else:
            v = S.int("v", -99, 99)
            setattr(rec, name, v)
            if name in names:
                slots[name] = v
            else:
                vals[name] = v
                if name not in keys:
                    keys[name] = key_of(cls, name)
            S.witness("set")
    for name in NAMES:
        want = slots.get(name, vals.get(name, MISSING))
        S.check(S.eq(S.get(rec, name), want), "the attribute afterwards")
        S.check(hasattr(rec, name) == (want is not MISSING), "hasattr")
    out = {}
    twice = False
    for name in slots:
        if name != "late":
            out[names[name]] = slots[name]
    for name in vals:
        twice = twice or keys[name] in out
        out[keys[name]] = vals[name]
    S.assume(not twice)
    S.check(S.eq(rec.json_data(), out), "the JSON afterwards")


@harness(witness=["end"])
def set_types(S):
    """setting a declared property still converts and checks"""
    cls = S.pick([Mine, NCMine], "class")
    rec = cls({"x": 1, "y": 2})
    v = S.pick(["12", "zz", [], 3], "v")
    r = S.outcome(lambda: setattr(rec, "other", v))
    if v == "12" or v == 3:
        S.check(r.ok and S.eq(rec.other, int(v)), "converted")
    else:
        S.check(not r.ok and rec.other == 1, "refused, nothing changed")
    S.check(S.eq(rec.y, 2), "the other one")
    S.witness("end")


@harness(klen=(4, 4), witness=["there", "missing"])
def any_name(S):
    """attributes that are not in the input"""
    cls = S.pick(AUTO, "class")
    rec = cls({"a_B": 1, "aB": 2, "B1": 3})
    have = {"a_B": 1, name_of(cls, "aB"): 2, "B1": 3}
    name = S.str("name", S.p["klen"], 1, alphabet="aBb_1")
    found = S.get(rec, name)
    for k in have:
        if name == k:
            S.check(S.eq(found, have[k]), "there")
            S.check(hasattr(rec, name), "hasattr")
            S.check(S.eq(getattr(rec, name, 0), have[k]), "not the default")
            S.witness("there")
            return
    S.check(found is MISSING, "reading raises AttributeError")
    S.check(not hasattr(rec, name), "hasattr")
    S.check(S.eq(getattr(rec, name, 0), 0), "the default")
    d = S.outcome(lambda: delattr(rec, name))
    S.check(d.raised(AttributeError), "deleting raises AttributeError")
    S.check(S.eq(rec.json_data(), {"a_B": 1, "aB": 2, "B1": 3}), "no change")
    S.witness("missing")


@harness(klen=(3, 4), witness=["end"])
def new_name(S):
    """a new attribute is written under the key of that name"""
    cls = S.pick(AUTO, "class")
    name = S.str("name", S.p["klen"], 1, alphabet="aB_1")
    v = S.int("v", -99, 99)
    rec = cls()
    setattr(rec, name, v)
    S.check(S.eq(S.get(rec, name), v), "reads back")
    S.check(S.eq(rec.json_data(), {key_of(cls, name): v}), "its key")
    delattr(rec, name)
    S.check(S.get(rec, name) is MISSING, "gone")
    S.check(S.eq(rec.json_data(), {}), "nothing written")
    S.witness("end")


@harness(witness=["end"])
def copies(S):
    """copying and pickling"""
    cls = S.pick([Mine, NCMine, AutoJsonRecord, NCAutoJsonRecord], "class")
    js = {"aB": S.int("v", -99, 99), "c_d": {"eF": [S.int("v", -99, 99)]},
          "l": [{"g_h": 1}]}
    if S.flag("fooBar"):
        js["fooBar"] = 4
    rec = cls(copy.deepcopy(js))
    how = S.choice(3, "how")
    if how == 0:
        got = copy.copy(rec)
    elif how == 1:
        got = copy.deepcopy(rec)
    else:
        got = S.pickle(rec, S.pick([0, 2, 4], "protocol"))
    S.check(S.type(got) is cls, "its type")
    S.check(got == rec and not got != rec, "equal")
    S.check(S.eq(got.json_data(), js), "the same JSON")
    if how:
        got.c_d.c_d = 1
        got.new = 2
        S.check(S.eq(rec.json_data(), js), "independent of the original")
    S.witness("end")


@harness(witness=["equal", "different"])
def equality(S):
    """two records of JSON with one other value"""
    cls = S.pick(AUTO, "class")
    deep = S.choice(3, "deep")
    if deep:
        # (differences of these are told by their repr)
        v, w = S.choice(3, "v"), S.choice(3, "w")
    else:
        v, w = S.int("v", -9, 9), S.int("w", -9, 9)
    a, b = v, w
    if deep == 1:
        a, b = {"kK": v}, {"kK": w}
    if deep == 2:
        a, b = [{"kK": v}], [{"kK": w}]
    x, y = cls({"aB": a, "c": 1}), cls({"aB": b, "c": 1})
    S.check((x == y) == (v == w), "equal exactly if the values are")
    S.check((x != y) == (v != w), "and unequal if not")
    found = len(list(x.diff_iter(y)))
    found = len(list(x.diff_iter(y)))
    S.check((found == 0) == (v == w), "different exactly if the values are")
    S.check(y != cls({"aB": b}), "a key that is not there")
    S.witness("equal" if v == w else "different")


@harness(witness=["end"])
def separate(S):
    """records do not share their keys, with each other or with the input"""
    cls = S.pick([Mine, NCMine, AutoJsonRecord, NCAutoJsonRecord, Kept],
                 "class")
    v, w = S.int("v", -99, 99), S.int("w", -99, 99)
    js = {"aB": [v], "cD": {"x": [w]}} if S.flag("keys") else {}
    before = copy.deepcopy(js)
    one, two = cls(js), cls(js)
    if S.flag("bare"):
        one, two = cls(), cls()
    one.new_name = v
    S.check(S.get(two, "new_name") is MISSING, "not the other record's")
    S.check(S.get(cls(), "new_name") is MISSING, "nor a later one's")
    S.check(S.eq(js, before), "nor in the input")
    two.later = w
    S.check(S.get(one, "later") is MISSING, "nor the first one's")
    name = name_of(cls, "aB")
    if S.get(one, name) is not MISSING:
        S.get(one, name).append(1)
        S.check(S.eq(S.get(two, name), [v]), "lists are not shared")
        S.get(S.get(one, name_of(cls, "cD")), "x").append(1)
        S.check(S.eq(js, before), "nor are they the input's")
    S.witness("end")
