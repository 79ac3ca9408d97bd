"""Selector paths and the algebra of selectors, over symbolic components."""
from sx.api import harness
from normalize import FieldSelector, MultiFieldSelector

OUTSIDE = ("selectors of more than three components (four in the thorough "
           "tier), keys of more than three characters (four), multi field "
           "selectors of more than three members; texts that are no path of "
           "any selector")

# every character class that the path syntax tells apart
ALPHABET = "a_Z1'\\[]().|*-\n \"\u00e9\u0301\u2620"


def comp(S, maxlen, kinds=3):
    k = S.choice(kinds, "kind")
    if k == 0:
        return S.str("key", maxlen, 0, ALPHABET)
    if k == 1:
        return S.int("idx", -120, 120)
    return None


def comps(S, n, maxlen):
    return [comp(S, maxlen) for _ in range(S.choice(n + 1, "n"))]


def same(S, a, b, what):
    S.check(len(a) == len(b), what + ": length")
    for x, y in zip(a, b):
        S.check(S.type(x) is S.type(y), what + ": component type")
        S.check(x == y, what + ": component")


@harness(n=(3, 4), witness=["end"])
def path(S):
    n = S.choice(S.p["n"] + 1, "n")
    # the more components, the shorter the keys
    cs = [comp(S, 2 if n < S.p["n"] else 1) for i in range(n)]
    fs = FieldSelector(cs)
    text = fs.path
    back = FieldSelector.from_path(text)
    same(S, back.selectors, cs, "path")
    S.check(back == fs, "the selector read from the path is not equal")
    S.check(not (back != fs), "the selector read from the path is unequal")
    S.check(back.path == text, "path of the path")
    S.check(str(fs) == "<FieldSelector: %s>" % text, "str")
    S.witness("end")


@harness(maxlen=(3, 4), witness=["end"])
def one_key(S):
    """longer keys, also between others"""
    key = S.str("key", S.p["maxlen"], 0, ALPHABET)
    cs = S.pick([[key], ["a'] b", key], [key, "x.y"], [3, key, None],
                 [key, key]], "where")
    fs = FieldSelector(cs)
    same(S, FieldSelector.from_path(fs.path).selectors, cs, "path")
    mfs = MultiFieldSelector(fs)
    back = list(MultiFieldSelector.from_path(mfs.path))
    S.check(len(back) == 1, "mfs path: number of members")
    same(S, back[0].selectors, cs, "mfs path")
    S.witness("end")


@harness(witness=["end"])
def any_char(S):
    """keys of any characters at all"""
    key = S.str("key", 1, 1)
    fs = FieldSelector([key, 0])
    same(S, FieldSelector.from_path(fs.path).selectors, [key, 0], "path")
    S.witness("end")


@harness(top=(999, 99999), witness=["end"])
def any_index(S):
    i = S.int("i", -S.p["top"], S.p["top"])
    fs = FieldSelector(["a", i, "b"])
    same(S, FieldSelector.from_path(fs.path).selectors, ["a", i, "b"], "path")
    S.witness("end")


KEYS = ["a", "b", "", "'", "|"]


def member(S, top):
    """a component list that can stand beside the others: all of the members
    start with strings"""
    cs = [S.pick(KEYS, "key") if not top else S.str("key", 1, 0, "ab'|)")]
    if S.flag("more"):
        cs.append(S.int("idx", -2, 12) if top else None)
        if S.flag("evenmore"):
            cs.append(S.pick(["k", "x y", "(|)", "']", "\\"], "tail"))
    return cs


def members(mfs):
    return [x.selectors for x in mfs]


def subset(S, a, b, what):
    for x in a:
        S.check(any(len(x) == len(y) and all(
            p == q and S.type(p) is S.type(q) for p, q in zip(x, y))
            for y in b), what)


@harness(n=(2, 3), witness=["end", "two"])
def mfs_path(S):
    ms = [member(S, not m) for m in range(S.choice(S.p["n"] + 1, "n"))]
    S.hash_k("a", "b", "'", "|", ")", "")
    o = S.outcome(lambda: MultiFieldSelector(*ms))
    if not o.ok:
        # both a wildcard and an index below one name
        S.check(o.raised(ValueError), "members refused: " + o.kind())
        S.check(any(None in m for m in ms), "members refused")
        return
    mfs = o.value
    back = MultiFieldSelector.from_path(mfs.path)
    a, b = members(mfs), members(back)
    S.check(len(a) == len(b), "mfs path: number of members")
    subset(S, a, b, "mfs path: a member is lost")
    subset(S, b, a, "mfs path: a member is invented")
    S.check(bool(back) == bool(mfs), "mfs path: emptiness")
    if len(a) > 1:
        S.witness("two")
    S.witness("end")


@harness(n=(2, 3), witness=["equal", "unequal"])
def equality(S):
    a, b = comps(S, S.p["n"], 1), comps(S, S.p["n"], 1)
    fa, fb = FieldSelector(a), FieldSelector(b)
    want = len(a) == len(b) and all(
        S.type(x) is S.type(y) and x == y for x, y in zip(a, b))
    S.check((fa == fb) == want, "==")
    S.check((fb == fa) == want, "==, the other way")
    S.check((fa != fb) == (not want), "!=")
    if want:
        S.check(S.hash(fa) == S.hash(fb), "equal selectors, unequal hashes")
        S.witness("equal")
    else:
        S.witness("unequal")


def comparable(S, a, b):
    for x, y in zip(a, b):
        if S.type(x) is not S.type(y):
            return False
        if x != y:
            return True
    return True


def before(S, a, b):
    for x, y in zip(a, b):
        if x != y:
            return bool(x < y)
    return len(a) < len(b)


@harness(n=(2, 3), witness=["lt", "gt", "refused"])
def order(S):
    a, b = comps(S, S.p["n"], 1), comps(S, S.p["n"], 1)
    fa, fb = FieldSelector(a), FieldSelector(b)
    eq = fa == fb
    o = S.outcome(lambda: fa < fb)
    p = S.outcome(lambda: fb < fa)
    if not comparable(S, a, b):
        S.check(o.raised(TypeError) and p.raised(TypeError),
                "order of what cannot be compared")
        S.witness("refused")
        return
    S.check(o.ok and p.ok, "< raises " + o.kind() + p.kind())
    lt = before(S, a, b)
    S.check(o.value == lt, "<")
    S.check(p.value == (not lt and not eq), "<, the other way")
    S.check((fa > fb) == (not lt and not eq), ">")
    S.check((fa <= fb) == (lt or eq), "<=")
    S.check((fa >= fb) == (not lt), ">=")
    S.witness("lt" if lt else "gt")


@harness(n=(2, 2), witness=["end"])
def transitive(S):
    xs = [[S.int("i") for _ in range(S.choice(S.p["n"] + 1, "n"))]
          for _ in range(3)]
    a, b, c = [FieldSelector(x) for x in xs]
    if a < b and b < c:
        S.check(a < c, "< is not transitive")
        S.witness("end")
    s = sorted([a, b, c])
    S.check(not s[1] < s[0] and not s[2] < s[1], "sorted() is not in order")


@harness(n=(2, 4), witness=["end"])
def slices(S):
    a = comps(S, S.p["n"], 1)
    fa = FieldSelector(a)
    i, j = S.int("i", -4, 4), S.int("j", -4, 4)
    how = S.choice(4, "slice")
    if how == 0:
        same(S, fa[i:j].selectors, a[i:j], "[i:j]")
        S.check(S.type(fa[i:j]) is FieldSelector, "slice type")
    elif how == 1:
        same(S, fa[i:].selectors, a[i:], "[i:]")
    elif how == 2:
        same(S, fa[:i].selectors, a[:i], "[:i]")
    else:
        o, p = S.outcome(lambda: fa[i]), S.outcome(lambda: a[i])
        S.check(o.ok == p.ok, "[i]: " + o.kind())
        if o.ok:
            same(S, [o.value], [p.value], "[i]")
        else:
            S.check(o.raised(IndexError), "[i]: " + o.kind())
    same(S, fa.selectors, a, "slicing changes the selector")
    S.witness("end")


@harness(n=(2, 3), witness=["end"])
def algebra(S):
    a, b = comps(S, S.p["n"], 1), comps(S, 2, 1)
    fa, fb = FieldSelector(a), FieldSelector(b)
    S.check(len(fa) == len(a), "len")
    same(S, (fa + fb).selectors, a + b, "+ selector")
    same(S, (fa + b).selectors, a + b, "+ list")
    same(S, (fa + tuple(b)).selectors, a + b, "+ tuple")
    if b and b[0] is not None:
        same(S, (fa + b[0]).selectors, a + b[:1], "+ component")
    S.check(S.type(fa + fb) is FieldSelector, "+ makes a selector")
    pre = len(b) <= len(a) and all(
        S.type(x) is S.type(y) and x == y for x, y in zip(a, b))
    S.check(fa.startswith(fb) == pre, "startswith selector")
    S.check(fa.startswith(b) == pre, "startswith list")
    S.check((fa + fb).startswith(fa), "a sum starts with the first term")
    if len(b) == 1 and b[0] is not None:
        S.check(fa.startswith(b[0]) == pre, "startswith component")
    # nothing has changed so far
    same(S, fa.selectors, a, "operations change the selector")
    same(S, fb.selectors, b, "operations change the argument")
    copy = FieldSelector(fa)
    S.check(copy.extend(fb) is copy, "extend returns the selector")
    same(S, copy.selectors, a + b, "extend")
    same(S, fa.selectors, a, "extending a copy changes the original")
    same(S, fb.selectors, b, "extend changes the argument")
    for c in b:
        if c is None:
            fa.add_full_collection()
        elif isinstance(c, str):
            fa.add_property(c)
        else:
            fa.add_index(c)
    S.check(fa == copy, "adding components one by one")
    S.witness("end")


@harness(witness=["end"])
def refused(S):
    good = comp(S, 1)
    bad = S.pick([1.5, 0.0, b"", b"a", (), ("a",), [], {}, object(), set(),
                  frozenset(["x"]), 1j], "bad")
    cs = S.pick([[bad], [good, bad], [bad, good], [good, bad, good]], "where")
    kind = S.choice(5, "ctor")
    if kind == 0:
        o = S.outcome(lambda: FieldSelector(cs))
    elif kind == 1:
        o = S.outcome(lambda: FieldSelector(tuple(cs)))
    elif kind == 2:
        o = S.outcome(lambda: FieldSelector([good]) + cs)
    elif kind == 3:
        o = S.outcome(lambda: MultiFieldSelector(["a"], cs))
    else:
        fs = FieldSelector([good])
        o = S.outcome(lambda: fs.add_property(bad))
        S.check(o.raised(ValueError), "add_property: " + o.kind())
        o = S.outcome(lambda: fs.add_index(bad))
        S.check(fs.selectors == [good], "a refused component is added")
    S.check(o.raised(ValueError), "refused component: " + o.kind())
    S.witness("end")


@harness(witness=["end"])
def copies(S):
    cs = comps(S, 2, 1)
    fs = FieldSelector(cs)
    how = S.choice(3, "how")
    if how == 2:
        k = S.pick([[], ["a'b", None], [0, -1, "x\n"], [None]], "literal")
        fs = FieldSelector(k)
        x = S.eval(repr(fs), {"FieldSelector": FieldSelector})
        cs = k
    elif how:
        x = S.pickle(fs, S.pick([0, 2, 4], "protocol"))
    else:
        import copy
        x = copy.deepcopy(fs)
    S.check(S.type(x) is FieldSelector, "type of the copy")
    same(S, x.selectors, cs, "copy")
    S.check(x == fs, "the copy is not equal")
    x.add_property("more")
    same(S, fs.selectors, cs, "the copy shares its components")
    S.witness("end")
