"""What a comparison of two data structures should report: a plain
specification of normalize.diff, used as the oracle of P18 to P21.

Differences are triples (kind, base path, other path)."""
from collections import Counter
from normalize import Record
from normalize.coll import Collection, DictCollection, ListCollection


class _Unset(object):
    def __repr__(self):
        return "(unset)"


UNSET = _Unset()


class Opt(object):
    """the options the oracle knows; text is how strings are cleaned up,
    paths are the paths a compare_filter selects"""
    def __init__(self, unchanged=False, extraneous=False, moved=False,
                 ignore_empty_slots=False, ignore_empty_items=False,
                 recurse=False, text=None, paths=None):
        self.unchanged = unchanged
        self.extraneous = extraneous
        self.moved = moved
        self.ignore_empty_slots = ignore_empty_slots
        self.ignore_empty_items = ignore_empty_items
        self.recurse = recurse
        self.text = text
        self.paths = paths

    def kwargs(self):
        return dict((k, v) for k, v in self.__dict__.items()
                    if k not in ("text", "paths"))

    def selected(self, at):
        """is this location at, below, or on the way to a selected one"""
        if not self.paths:
            return True
        for path in self.paths:
            for x, y in zip(path, at):
                if x is not None and x != y:
                    break
            else:
                return True
        return False


def triples(diffs):
    """DiffInfo objects as triples"""
    return [(d.diff_type.canonical_name, tuple(d.base.selectors),
             tuple(d.other.selectors)) for d in diffs]


def swapped(found):
    """the same differences, seen from the other side"""
    flip = {"added": "removed", "removed": "added"}
    return [(flip.get(k, k), b, a) for k, a, b in found]


def bag(found):
    return Counter((k, repr(a), repr(b)) for k, a, b in found)


def delta(found, expected):
    f, e = bag(found), bag(expected)
    return "unexpected %s, missing %s" % (
        sorted((f - e).elements()), sorted((e - f).elements()))


class Ref(object):
    def __init__(self, S, opt):
        self.S = S
        self.o = opt

    # --- values -----------------------------------------------------------
    def clean(self, v):
        """a value as it is compared"""
        if v is UNSET:
            return v
        if self.o.text is not None and isinstance(v, str):
            v = self.o.text(v)
        if self.o.ignore_empty_slots:
            if v is None or (isinstance(v, str) and len(v) == 0):
                return UNSET
        return v

    def slot(self, rec, name, prop=None):
        try:
            v = getattr(rec, name)
        except AttributeError:
            return UNSET
        f = getattr(prop, "compare_as", None)
        if f is not None:
            method, nargs = prop.compare_as_info
            v = f(*(([rec] if method else []) + ([v] if nargs else [])))
        return self.clean(v)

    def item(self, coll, v):
        f = getattr(coll, "compare_item_as", None)
        if f is not None:
            v = f(v)
        return self.clean(v)

    def equal(self, x, y):
        return bool(x == y)

    def comparable(self, v):
        return isinstance(v, (Record, list, tuple, dict))

    def holds_something(self, v, at):
        """is there anything in this value, when empty slots are ignored"""
        if v is UNSET:
            return False
        if isinstance(v, Record):
            for name, prop in self.S.type(v).properties.items():
                if not self.compared(prop, at):
                    continue
                if self.holds_something(self.slot(v, name, prop),
                                        at + (name,)):
                    return True
            if not isinstance(v, Collection):
                return False
            if issubclass(self.S.type(v).itemtype, Record):
                for k, x in self.items(v, at):
                    if self.holds_something(x, at + (k,)):
                        return True
                return False
        if isinstance(v, (Collection, list, tuple, dict)):
            for k, x in self.items(v, at):
                if self.item(v, x) is not UNSET:
                    return True
            return False
        return True

    # --- what is selected -------------------------------------------------
    def compared(self, prop, at):
        if prop.extraneous and not self.o.extraneous:
            return False
        return self.o.selected(at + (prop.name,))

    def items(self, v, at):
        return [(k, x) for k, x in keyed(v) if self.o.selected(at + (k,))]

    # --- identities -------------------------------------------------------
    def id_props(self, type_, at):
        pk = type_.primary_key
        if pk and all(self.o.selected(at + (p.name,)) for p in pk):
            return list(pk)
        return [type_.properties[n] for n in sorted(type_.properties)
                if not type_.properties[n].extraneous and
                self.o.selected(at + (n,))]

    def by_items(self, v, at):
        """is this value identified by its items"""
        type_ = self.S.type(v)
        return isinstance(v, Collection) and not (
            type_.primary_key and
            all(self.o.selected(at + (p.name,)) for p in type_.primary_key))

    def comp(self, rec, prop):
        v = self.slot(rec, prop.name, prop)
        return None if v is UNSET else v

    def same_value(self, x, y, ax, ay):
        """are these values the same, as parts of identities"""
        if x is None or y is None:
            return x is y
        rx, ry = isinstance(x, Record), isinstance(y, Record)
        if rx != ry:
            return False
        if rx:
            if self.by_items(x, ax):
                return self.same_items(x, y, ax, ay)
            return self.same(x, y, ax, ay)
        return self.equal(x, y)

    def same_items(self, x, y, ax, ay):
        if isinstance(x, DictCollection) != isinstance(y, DictCollection):
            return False
        xs, ys = self.items(x, ax), self.items(y, ay)
        if len(xs) != len(ys):
            return False
        if isinstance(x, DictCollection):
            found = dict(ys)
            for k, v in xs:
                if k not in found:
                    return False
                if not self.same_value(v, found[k], ax + (k,), ay + (k,)):
                    return False
            return True
        return all(self.same_value(p, q, ax + (k,), ay + (l,))
                   for (k, p), (l, q) in zip(xs, ys))

    def same(self, a, b, ax, ay):
        """do these records have the same identity"""
        if self.id_props(self.S.type(a), ax) != \
                self.id_props(self.S.type(b), ay):
            return False
        return all(
            self.same_value(self.comp(a, p), self.comp(b, p),
                            ax + (p.name,), ay + (p.name,))
            for p in self.id_props(self.S.type(a), ax))

    def falsy(self, v, at):
        """does this part of an identity not count as a match"""
        if v is None:
            return True
        if isinstance(v, Collection):
            vals = [self.falsy(x, at + (k,)) for k, x in self.items(v, at)]
            return not vals or any(vals)
        if isinstance(v, Record):
            return any(self.falsy(self.comp(v, p), at + (p.name,))
                       for p in self.id_props(self.S.type(v), at))
        if isinstance(v, tuple):
            return any(self.falsy(x, at) for x in v)
        return not v

    def score(self, a, b, ax, ay):
        """how similar two items are: (parts that match, parts that do not)"""
        match = no = 0
        for p in self.id_props(self.S.type(a), ax):
            x, y = self.comp(a, p), self.comp(b, p)
            if self.same_value(x, y, ax + (p.name,), ay + (p.name,)):
                if not self.falsy(x, ax + (p.name,)):
                    match += 1
            else:
                no += 1
        return match, no

    def empty(self, v, at):
        if v is None:
            return True
        if self.by_items(v, at):
            return all(self.empty(x, at + (k,)) for k, x in self.items(v, at))
        if isinstance(v, Record):
            return all(self.empty(self.comp(v, p), at + (p.name,))
                       for p in self.id_props(self.S.type(v), at))
        return isinstance(v, str) and len(v) == 0

    # --- comparisons ------------------------------------------------------
    def compare(self, a, b, fa=(), fb=()):
        out = []
        if isinstance(a, Record):
            out += self.record(a, b, fa, fb)
        if isinstance(a, Collection):
            if issubclass(self.S.type(a).itemtype, Record):
                out += self.records(a, b, fa, fb)
            else:
                out += self.simple(a, b, fa, fb)
        elif isinstance(a, (list, tuple, dict)):
            out += self.simple(a, b, fa, fb)
        return out

    def record(self, a, b, fa, fb):
        out = []
        type_ = self.S.type(a)
        for name in sorted(type_.properties):
            prop = type_.properties[name]
            if not self.compared(prop, fa):
                continue
            x, y = self.slot(a, name, prop), self.slot(b, name, prop)
            pa, pb = fa + (name,), fb + (name,)
            if x is UNSET and y is UNSET:
                continue
            if x is UNSET or y is UNSET:
                one = y if x is UNSET else x
                if (self.o.ignore_empty_slots and self.comparable(one) and
                        not self.holds_something(one, pa)):
                    if self.o.unchanged:
                        out.append(("none", pa, pb))
                else:
                    out.append(("added" if x is UNSET else "removed", pa, pb))
            elif self.comparable(x) and self.S.type(x) is self.S.type(y):
                out += self.compare(x, y, pa, pb)
            elif not self.equal(x, y):
                out.append(("modified", pa, pb))
            elif self.o.unchanged:
                out.append(("none", pa, pb))
        return out

    def match(self, xs, ys, same):
        """pairs up equal items in order; (pairs, rest of xs, rest of ys)"""
        ys = list(ys)
        pairs, rest = [], []
        for k, x in xs:
            for n, (l, y) in enumerate(ys):
                if same((k, x), (l, y)):
                    pairs.append((k, l))
                    del ys[n]
                    break
            else:
                rest.append((k, x))
        return pairs, rest, ys

    def matched(self, k, l, fa, fb, out):
        if self.o.moved and k != l:
            out.append(("moved", fa + (k,), fb + (l,)))
        elif self.o.unchanged:
            out.append(("none", fa + (k,), fb + (l,)))

    def simple(self, a, b, fa, fb):
        """collections of plain values"""
        xs = [(k, self.item(a, v)) for k, v in self.items(a, fa)]
        ys = [(k, self.item(b, v)) for k, v in self.items(b, fa)]
        xs = [(k, v) for k, v in xs if v is not UNSET]
        ys = [(k, v) for k, v in ys if v is not UNSET]
        pairs, removed, added = self.match(
            xs, ys, lambda x, y: self.equal(x[1], y[1]))
        out = []
        for k, l in pairs:
            self.matched(k, l, fa, fb, out)
        rk, ak = [k for k, v in removed], [k for k, v in added]
        for k in rk:
            if k in ak:
                out.append(("modified", fa + (k,), fb + (k,)))
            else:
                out.append(("removed", fa + (k,), fb))
        for k in ak:
            if k not in rk:
                out.append(("added", fa, fb + (k,)))
        return out

    def groups(self, a, b, at):
        xs, ys = self.items(a, at), self.items(b, at)
        if self.o.ignore_empty_items:
            xs = [(k, v) for k, v in xs if not self.empty(v, at + (k,))]
            ys = [(k, v) for k, v in ys if not self.empty(v, at + (k,))]
        return self.match(xs, ys, lambda x, y: self.same(
            x[1], y[1], at + (x[0],), at + (y[0],)))

    def records(self, a, b, fa, fb, paired=()):
        """collections of records; paired are the (key, key) of the items
        which are reported as modified versions of each other"""
        out = []
        va, vb = dict(keyed(a)), dict(keyed(b))
        pairs, removed, added = self.groups(a, b, fa)
        if self.o.recurse:
            xs = [k for k, v in removed] + [k for k, l in pairs]
            ys = [k for k, v in added] + [l for k, l in pairs]
            for k in xs:
                if k in ys:
                    out += self.compare(va[k], vb[k], fa + (k,), fb + (k,))
                else:
                    out.append(("removed", fa + (k,), fb))
            for k in ys:
                if k not in xs:
                    out.append(("added", fa, fb + (k,)))
            return out
        for k, l in pairs:
            out += self.compare(va[k], vb[l], fa + (k,), fb + (l,))
            self.matched(k, l, fa, fb, out)
        for k, l in paired:
            inner = self.compare(va[k], vb[l], fa + (k,), fb + (l,))
            out += inner
            if self.o.moved and k != l:
                out.append(("moved", fa + (k,), fb + (l,)))
            elif self.o.unchanged and all(d[0] == "none" for d in inner):
                out.append(("none", fa + (k,), fb + (l,)))
        for k, v in removed:
            if k not in [p[0] for p in paired]:
                out.append(("removed", fa + (k,), fb))
        for k, v in added:
            if k not in [p[1] for p in paired]:
                out.append(("added", fa, fb + (k,)))
        return out

    # --- approximate matching ---------------------------------------------
    def pairs_reported(self, a, b, found, fa=(), fb=()):
        """which items were reported as modified versions of each other;
        None when some item has two of them"""
        pairs, removed, added = self.groups(a, b, fa)
        rk, ak = [k for k, v in removed], [k for k, v in added]
        n, m = len(fa), len(fb)
        seen = []
        for kind, x, y in found:
            if len(x) > n and len(y) > m and x[:n] == fa and y[:m] == fb:
                if x[n] in rk and y[m] in ak and (x[n], y[m]) not in seen:
                    seen.append((x[n], y[m]))
        if len(set(k for k, l in seen)) < len(seen):
            return None
        if len(set(l for k, l in seen)) < len(seen):
            return None
        return seen

    def check_fuzzy(self, a, b, found, fa=(), fb=()):
        """is this the result of matching similar items"""
        S = self.S
        paired = self.pairs_reported(a, b, found, fa, fb)
        if paired is None:
            S.fail("an item is reported as modified twice: %s" % (found,))
            return
        pairs, removed, added = self.groups(a, b, fa)
        score = {}
        for k, x in removed:
            for l, y in added:
                score[k, l] = self.score(x, y, fa + (k,), fa + (l,))
        for k, l in paired:
            S.check(score[k, l][0] > 0,
                    "items that have nothing in common are not matched")
        mine = dict((k, score[k, l]) for k, l in paired)
        theirs = dict((l, score[k, l]) for k, l in paired)
        for (k, l), s in score.items():
            if (k, l) in paired or not s[0]:
                continue
            better = [s[0] - s[1] > t[0] - t[1]
                      for t in (mine.get(k), theirs.get(l)) if t is not None]
            S.check(not all(better),
                    "similar items are matched, the most similar ones first")
        expected = self.records(a, b, fa, fb, paired)
        if isinstance(a, Record):
            expected = self.record(a, b, fa, fb) + expected
        S.check(bag(found) == bag(expected),
                "the differences are those of the items matched: " +
                delta(found, expected))


def keyed(v):
    """the (key, value) of any container"""
    if isinstance(v, (dict, DictCollection)):
        return [(k, v[k]) for k in list(v.keys())]
    return list(enumerate(list(v)))
