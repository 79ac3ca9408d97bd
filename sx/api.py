"""The interface harnesses are written against.  The same harness runs with
symbolic inputs on the instrumented code (SymS) and with concrete inputs on the
real code (ConcreteS), which is how counterexamples are replayed and how the
encoding is validated."""
import os
import sys


class HarnessViolation(Exception):
    pass


class Skip(Exception):
    pass


HARNESSES = []


def harness(**params):
    """declares a harness; keyword name=(quick, thorough) or name=value"""
    def deco(fn):
        HARNESSES.append((fn, params))
        return fn
    return deco


class Out(object):
    """outcome of an operation"""
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def kind(self):
        return "ok" if self.exc is None else type(self.exc).__name__


class Missing(object):
    def __repr__(self):
        return "<unset>"


MISSING = Missing()


def same_type(S, a, b):
    return S.type(a) is S.type(b)


class Base(object):
    def __init__(self, tier, params):
        self.tier = tier
        self.p = dict(
            (k, (v[1 if tier == "thorough" else 0]
                 if isinstance(v, tuple) and len(v) == 2 else v))
            for k, v in params.items())

    def pick(self, seq, label="pick"):
        seq = list(seq)
        return seq[self.choice(len(seq), label)]

    def flag(self, label="flag"):
        return bool(self.choice(2, label))

    def outcome(self, fn, *a, **k):
        try:
            return Out(value=fn(*a, **k))
        except (HarnessViolation, Skip):
            raise
        except RecursionError as e:
            return Out(exc=e)
        except Exception as e:
            self._vet(e)
            return Out(exc=e)

    def _vet(self, e):
        pass

    def get(self, obj, name):
        """attribute value, or MISSING when reading raises AttributeError"""
        try:
            return getattr(obj, name)
        except AttributeError:
            return MISSING

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, a, b):
        """deep structural equality of plain data, type-strict on leaves, by
        public protocols only"""
        ta, tb = self.type(a), self.type(b)
        if ta is not tb:
            return False
        if ta in (list, tuple):
            return len(a) == len(b) and all(
                self.eq(x, y) for x, y in zip(a, b))
        if ta is dict:
            if len(a) != len(b):
                return False
            for k in a:
                if k not in b:
                    return False
                if not self.eq(a[k], b[k]):
                    return False
            return True
        if a is b:
            return True
        return bool(a == b)

    def snap(self, x, depth=12):
        """a structural snapshot in plain data; record slots that are unset
        are left out.  Lazy properties are not read."""
        import normalize
        import normalize.coll
        from normalize.property import LazyProperty
        t = self.type(x)
        if depth == 0:
            return ("...",)
        if isinstance(x, normalize.coll.Collection):
            if isinstance(x, normalize.coll.DictCollection):
                return ("dictcoll", t.__name__, dict(
                    (k, self.snap(x[k], depth - 1)) for k in list(x)))
            return ("listcoll", t.__name__,
                    [self.snap(v, depth - 1) for v in x])
        if isinstance(x, normalize.Record):
            d = {}
            for name, prop in t.properties.items():
                if isinstance(prop, LazyProperty):
                    continue
                v = self.get(x, name)
                if v is not MISSING:
                    d[name] = self.snap(v, depth - 1)
            r = ("rec", t.__name__, d)
            uk = getattr(x, "unknown_json_keys", None)
            if uk:
                r = r + (self.snap(dict(uk), depth - 1),)
            return r
        if t is list:
            return [self.snap(v, depth - 1) for v in x]
        if t is tuple:
            return tuple(self.snap(v, depth - 1) for v in x)
        if t is dict:
            return dict((k, self.snap(v, depth - 1)) for k, v in x.items())
        if t is set or t is frozenset:
            return x
        return x

    def same(self, a, b):
        return self.eq(self.snap(a), self.snap(b))


class ConcreteS(Base):
    symbolic = False

    def __init__(self, tier, params, values):
        Base.__init__(self, tier, params)
        self.values = values
        self.names = {}
        self.notes = []
        self.observed = []

    def fresh(self, label):
        n = self.names.get(label, 0)
        self.names[label] = n + 1
        return "%s#%d" % (label, n)

    def _val(self, label, default):
        name = self.fresh(label)
        v = self.values.get(name, default)
        return v

    def choice(self, n, label="choice"):
        k = self._val(label, 0)
        if n <= 0 or k >= n:
            raise Skip("choice out of range")
        return k

    def int(self, label="int", lo=None, hi=None):
        return self._val(label, lo if lo is not None else 0)

    def str(self, label="str", maxlen=2, minlen=0, alphabet=None):
        n = self.choice(maxlen - minlen + 1, label + ".len") + minlen
        v = self._val(label, [97] * n)
        return "".join(map(chr, v))

    def type(self, x):
        return type(x)

    def assume(self, c):
        if not c:
            raise Skip("assume")

    def check(self, c, msg):
        if not c:
            raise HarnessViolation(msg)

    def note(self, *tags):
        self.notes.append(" ".join(map(str, tags)))

    def witness(self, tag):
        pass

    def observe(self, label, value):
        self.observed.append([label, plain(value)])

    def hash(self, x):
        return hash(x)

    def hash_k(self, *ks):
        pass

    def eval(self, text, ns):
        return eval(text, dict(ns))

    def exact_repr(self, ints=False):
        """from here on, repr() of symbolic strings (and integers) is the
        exact text instead of a token that stands for it"""

    def json_text(self, payload, kind="str"):
        import json
        t = json.dumps(payload)
        if kind == "str":
            return t
        b = t.encode("utf-8")
        return b if kind == "bytes" else bytearray(b)

    def pickle(self, obj, proto):
        import pickle
        return pickle.loads(pickle.dumps(obj, proto))


def plain(x, depth=8):
    """repr-able plain form used to compare symbolic and concrete outcomes"""
    t = type(x)
    if depth == 0:
        return "..."
    if t in (list, tuple):
        return [plain(y, depth - 1) for y in x]
    if t is dict:
        return sorted(([plain(k, depth - 1), plain(v, depth - 1)]
                       for k, v in x.items()), key=repr)
    if t in (set, frozenset):
        return sorted((plain(y, depth - 1) for y in x), key=repr)
    if t in (int, str, bool, float, type(None)):
        return [t.__name__, x if t is not float else repr(x)]
    if isinstance(x, type):
        return "class " + x.__name__
    return "obj " + t.__name__


class SymS(Base):
    symbolic = True

    def __init__(self, tier, params, st):
        Base.__init__(self, tier, params)
        from . import core, proxies, models
        self.core, self.px, self.mo = core, proxies, models
        self.st = st
        self.notes = []
        self.observed = []

    def _vet(self, e):
        if isinstance(e, (TypeError, ValueError, AttributeError)):
            try:
                m = " ".join(a for a in e.args if type(a) is str)
            except Exception:
                m = ""
            if any(w in m for w in ("SymInt", "SymStr", "SymBool",
                                    "StrOfInt")):
                raise self.core.Unsupported("proxy leaked into C: " + m)

    def get(self, obj, name):
        try:
            return self.mo._py_getattr(obj, name)
        except AttributeError:
            return MISSING

    def choice(self, n, label="choice"):
        return self.st.choice(n, label)

    def int(self, label="int", lo=None, hi=None):
        return self.px.SymInt(self.st.new_int(label, lo, hi))

    def str(self, label="str", maxlen=2, minlen=0, alphabet=None):
        """string of minlen..maxlen characters, each any Unicode scalar value
        or any member of `alphabet`"""
        import z3
        n = self.choice(maxlen - minlen + 1, label + ".len") + minlen
        name = self.st.fresh(label)
        cs = []
        for i in range(n):
            v = z3.Int("%s[%d]" % (name, i))
            if alphabet is None:
                self.st.add(self.px.in_ranges(v, self.px.FULL))
            else:
                cps = sorted(set(map(ord, alphabet)))
                self.st.add(self.px.in_ranges(v, to_ranges(cps)))
                self.st.names[("alpha", v.get_id())] = cps
            cs.append(v)
        self.st.vars.append((name, "str", tuple(cs)))
        if not n:
            return ""
        return self.px.SymStr(tuple(cs))

    def type(self, x):
        return self.mo.m_type(x)

    def assume(self, c):
        if type(c) is self.px.SymBool:
            c = c.e
        else:
            c = bool(c)
        self.st.assume(c)

    def check(self, c, msg):
        if type(c) is self.px.SymBool:
            c = c.e
        else:
            c = bool(c)
        self.st.prove(c, msg)

    def note(self, *tags):
        self.notes.append(" ".join(map(str, tags)))

    def witness(self, tag):
        w = self.core.STATS.witness
        w[tag] = w.get(tag, 0) + 1

    def observe(self, label, value):
        self.observed.append([label, value])

    def hash(self, x):
        was, self.st.uf_hash = self.st.uf_hash, True
        try:
            return self.mo.SymOrInt(self.mo.uf_hash(x))
        finally:
            self.st.uf_hash = was

    def hash_k(self, *ks):
        self.st.hash_k.update(ks)

    def exact_repr(self, ints=False):
        self.st.exact_repr = 2 if ints else 1

    def eval(self, text, ns):
        ns = dict(ns)
        ns.update(self.st.tokens)
        if self.px.is_symstr(text):
            text, _ = self.mo.symbolic_literals(text, ns)
        return eval(text, ns)

    def json_text(self, payload, kind="str"):
        import copy
        return self.mo.JsonText(
            copy.deepcopy(payload),
            {"str": str, "bytes": bytes, "bytearray": bytearray}[kind])

    def pickle(self, obj, proto):
        import pickle
        return pickle.loads(pickle.dumps(obj, proto))

    # value of an observation in a model
    def under_model(self, x, m, depth=8):
        px = self.px
        t = type(x)
        if depth == 0:
            return "..."
        if t is px.SymInt:
            return ["int", m.eval(x.e, model_completion=True).as_long()]
        if t is px.StrOfInt and x._c is None:
            return ["str", str(m.eval(x.of.e,
                                      model_completion=True).as_long())]
        if t in (px.SymStr, px.StrOfInt):
            return ["str", "".join(
                chr(c if isinstance(c, int) else
                    m.eval(c, model_completion=True).as_long())
                for c in x.chars)]
        if t is px.SymBool:
            import z3
            return ["bool", z3.is_true(m.eval(x.e, model_completion=True))]
        if t in (list, tuple):
            return [self.under_model(y, m, depth - 1) for y in x]
        if t is dict:
            return sorted(([self.under_model(k, m, depth - 1),
                            self.under_model(v, m, depth - 1)]
                           for k, v in x.items()), key=repr)
        if t in (set, frozenset):
            return sorted((self.under_model(y, m, depth - 1) for y in x),
                          key=repr)
        return plain(x, depth)


def to_ranges(cps):
    out = []
    for c in cps:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(x) for x in out]
