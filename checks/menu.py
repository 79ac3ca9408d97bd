"""One property of any kind, next to an ordinary one: shared by the checks
that claim something of properties whatever their kind."""
from sx.api import MISSING
from normalize import Record, Property, ListProperty, DictProperty, \
    JsonRecord
from normalize.property.json import JsonListProperty, JsonDictProperty
from normalize.property.types import IntProperty, StringProperty, \
    IntegerProperty


class One(Record):
    x = Property(isa=int)


CALLS = [0]


def seven():
    CALLS[0] += 1
    return 7


def eight(self):
    CALLS[0] += 1
    return 8


def number(S, label):
    v = S.int(label)
    return v, v


ALPHABET = [None]


def text(S, label):
    v = S.str(label, 1, 0, ALPHABET[0])
    return v, v


def one(S, label):
    v = S.int(label)
    return One(x=v), {"x": v}


def numbers(S, label):
    v = S.int(label)
    return ([v, 2], [v, 2]) if S.flag("two." + label) else ([], [])


def mapping(S, label):
    v = S.int(label)
    return ({"k": v}, {"k": v}) if S.flag("two." + label) else ({}, {})


def ones(S, label):
    v = S.int(label)
    return ([One(x=v)], [{"x": v}]) if S.flag("two." + label) else ([], [])


def anything(S, label):
    k = S.choice(6, "any." + label)
    v = [None, "", (), 0, False][k] if k < 5 else S.int(label, -99, 99)
    return v, v


# kind -> (declaration, values, what an unset slot reads as,
#          whether construction sets it)
KINDS = {
    "plain": (Property, {}, anything, MISSING, False),
    "typed": (Property, dict(isa=int), number, MISSING, False),
    "maybe": (Property, dict(isa=(int, type(None), str, tuple)), anything,
              MISSING, False),
    "required": (Property, dict(required=True), text, MISSING, False),
    "reqtyped": (Property, dict(isa=str, required=True), text, MISSING,
                 False),
    "default": (Property, dict(isa=int, default=7), number, 7, True),
    "defaultfn": (Property, dict(default=seven), anything, 7, True),
    "check": (Property, dict(check=lambda v: True), anything, MISSING,
              False),
    "coerced": (Property, dict(isa=int, coerce=lambda v: 3), number, MISSING,
                False),
    "ro": (Property, dict(traits=["ro"], isa=int), number, MISSING, False),
    "rodefault": (Property, dict(traits=["ro"], isa=int, default=7), number,
                  7, True),
    "unsafe": (Property, dict(traits=["unsafe"]), anything, MISSING, False),
    "lazy": (Property, dict(lazy=True, default=seven), anything, 7, False),
    "lazyself": (Property, dict(lazy=True, isa=int, default=eight), number,
                 8, False),
    "rolazy": (Property, dict(lazy=True, isa=int, default=eight,
                              traits=["ro"]), number, 8, False),
    "v1": (Property, dict(isa=int, v1_none=None), number, None, False),
    "v1str": (Property, dict(isa=str, v1_none=""), text, "", False),
    "v1default": (Property, dict(isa=int, default=0), number, 0, False),
    "diffas": (Property, dict(compare_as=lambda v: v), anything, MISSING,
               False),
    "list": (ListProperty, dict(of=int), numbers, MISSING, False),
    "listdef": (ListProperty, dict(of=int, default=lambda: [7]), numbers,
                [7], True),
    "listlazy": (ListProperty, dict(of=int, lazy=True, default=lambda: [7]),
                 numbers, [7], False),
    "ones": (ListProperty, dict(of=One), ones, MISSING, False),
    "dict": (DictProperty, dict(of=int), mapping, MISSING, False),
    "jlist": (JsonListProperty, dict(of=One), ones, MISSING, False),
    "jdict": (JsonDictProperty, dict(of=int), mapping, MISSING, False),
    "int": (IntProperty, {}, number, MISSING, False),
    "integer": (IntegerProperty, {}, number, MISSING, False),
    "string": (StringProperty, {}, text, MISSING, False),
    "record": (Property, dict(isa=One), one, MISSING, False),
    "union": (Property, dict(isa=(One, str)), one, MISSING, False),
}
CLASSES = {}


class Field(object):
    """the property x of a class which has an ordinary property a as well"""
    def __init__(self, S, kinds=None, json=False, alphabet=None):
        ALPHABET[0] = alphabet
        self.kind = S.pick(sorted(kinds or KINDS), "kind")
        make, args, self.values, self.unset, self.eager = KINDS[self.kind]
        self.required = "required" in args
        self.extraneous = S.flag("extraneous")
        self.base = S.pick([Record, JsonRecord], "base")
        self.json_name = S.pick(["x", "X", None], "json_name") if json \
            else "x"
        self.name = "%s%s/%s/%s" % (
            self.kind, " extraneous" if self.extraneous else "",
            self.base.__name__, self.json_name)
        key = (self.kind, self.extraneous, self.base, self.json_name)
        if key not in CLASSES:
            kw = dict(args)
            if self.extraneous:
                kw["extraneous"] = True
            if self.json_name != "x":
                kw["json_name"] = self.json_name
            name = "K%d" % len(CLASSES)
            attrs = {"a": Property(isa=int), "x": make(**kw)}
            attrs["__module__"] = __name__
            CLASSES[key] = type(name, (self.base,), attrs)
            globals()[name] = CLASSES[key]
        self.cls = CLASSES[key]

    def build(self, S, label=""):
        """-> (record, model of x: MISSING when not set, otherwise what its
        JSON or visited form is)"""
        a = S.int("a" + label)
        if self.required or S.flag("set" + label):
            v, m = self.values(S, "x" + label)
            return self.cls(a=a, x=v), a, m
        r = self.cls(a=a)
        return r, a, self.unset if self.eager else MISSING
