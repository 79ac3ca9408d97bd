"""Backtracking matcher over the real parse tree of the code's own regular
expressions (re._parser), on strings with symbolic characters.  The order of
alternatives is that of sre, so captures agree with the real engine; every
character test that depends on a symbolic character forks the path."""
import re
import re._constants as C
import re._parser as P

from . import core
from .core import Unsupported
from .proxies import (chars_of, mkstr, test_char, ch_eq)

_CACHE = {}


def compiled(pat, flags=0):
    if isinstance(pat, re.Pattern):
        key = (pat.pattern, pat.flags)
        f = pat.flags
        src = pat.pattern
    else:
        key = (pat, int(flags))
        src, f = pat, int(flags)
    r = _CACHE.get(key)
    if r is None:
        rp = re.compile(src, f & ~re.UNICODE.value if isinstance(f, int)
                        else f)
        tree = P.parse(src, rp.flags & ~int(re.UNICODE))
        r = _CACHE[key] = (rp, tree)
    return r


def cat_pred(cat):
    table = {
        C.CATEGORY_DIGIT: (r"\d", False), C.CATEGORY_NOT_DIGIT: (r"\d", True),
        C.CATEGORY_SPACE: (r"\s", False), C.CATEGORY_NOT_SPACE: (r"\s", True),
        C.CATEGORY_WORD: (r"\w", False), C.CATEGORY_NOT_WORD: (r"\w", True),
    }
    src, neg = table[cat]
    rx = re.compile(src)

    def pred(ch):
        return (rx.match(ch) is not None) != neg
    return pred, ("re", src, neg)


def in_pred(items, icase=False):
    key = ("in", repr(items), icase)
    neg = False
    tests = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            tests.append(lambda ch, av=av: ord(ch) == av)
        elif op is C.RANGE:
            tests.append(lambda ch, av=av: av[0] <= ord(ch) <= av[1])
        elif op is C.CATEGORY:
            p, _ = cat_pred(av)
            tests.append(p)
        else:
            raise Unsupported("regex set item %s" % op)

    def pred(ch):
        forms = {ch, ch.lower(), ch.upper()} if icase else (ch,)
        return any(t(c) for t in tests for c in forms if len(c) == 1) != neg
    return pred, key


class Matcher(object):
    def __init__(self, rp, tree, s):
        self.rp = rp
        self.tree = tree
        self.cs = chars_of(s)
        self.flags = rp.flags
        if self.flags & (re.LOCALE | re.ASCII):
            raise Unsupported("regex flags")
        self.icase = bool(self.flags & re.IGNORECASE)

    def lit(self, i, av, neg=False):
        if self.icase and not neg and chr(av).isalpha():
            p = re.compile(re.escape(chr(av)), re.IGNORECASE)
            return test_char(self.cs[i], lambda ch: p.match(ch) is not None,
                             ("icase", av))
        e = ch_eq(self.cs[i], av)
        r = e if isinstance(e, bool) else core.ST.fork(e)
        return r != neg

    def m(self, items, idx, i, groups):
        """generator of (end, groups)"""
        if idx == len(items):
            yield i, groups
            return
        op, av = items[idx]
        n = len(self.cs)
        if op is C.LITERAL:
            if i < n and self.lit(i, av):
                yield from self.m(items, idx + 1, i + 1, groups)
        elif op is C.NOT_LITERAL:
            if i < n and self.lit(i, av, True):
                yield from self.m(items, idx + 1, i + 1, groups)
        elif op is C.ANY:
            if i < n and ((self.flags & re.DOTALL) or
                          self.lit(i, 10, True)):
                yield from self.m(items, idx + 1, i + 1, groups)
        elif op is C.IN:
            if i < n:
                pred, key = in_pred(av, self.icase)
                if test_char(self.cs[i], pred, key):
                    yield from self.m(items, idx + 1, i + 1, groups)
        elif op is C.BRANCH:
            for alt in av[1]:
                for e, g in self.m(list(alt), 0, i, groups):
                    yield from self.m(items, idx + 1, e, g)
        elif op is C.SUBPATTERN:
            gid, addf, delf, sub = av
            if addf or delf:
                raise Unsupported("inline regex flags")
            for e, g in self.m(list(sub), 0, i, groups):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, e)
                    g["last"] = gid
                yield from self.m(items, idx + 1, e, g)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT
            for e, g in self.rep(sub, lo, hi, i, groups, 0, greedy):
                yield from self.m(items, idx + 1, e, g)
        elif op is C.AT:
            ok = None
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
                if not ok and av is C.AT_BEGINNING and \
                        self.flags & re.MULTILINE:
                    ok = self.lit(i - 1, 10)
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av is C.AT_END:
                if i == n:
                    ok = True
                elif self.flags & re.MULTILINE:
                    ok = self.lit(i, 10)
                else:
                    ok = i == n - 1 and self.lit(i, 10)
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                p, key = cat_pred(C.CATEGORY_WORD)
                a = i > 0 and test_char(self.cs[i - 1], p, key)
                b = i < n and test_char(self.cs[i], p, key)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported("regex position %s" % av)
            if ok:
                yield from self.m(items, idx + 1, i, groups)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            found = None
            if direction >= 0:
                for e, g in self.m(sub, 0, i, groups):
                    found = g
                    break
            else:
                lo, hi = av[1].getwidth()
                if lo != hi:
                    raise Unsupported("lookbehind width")
                if i - lo >= 0:
                    for e, g in self.m(sub, 0, i - lo, groups):
                        if e == i:
                            found = g
                            break
            if op is C.ASSERT:
                if found is not None:
                    yield from self.m(items, idx + 1, i, found)
            elif found is None:
                yield from self.m(items, idx + 1, i, groups)
        elif op is C.GROUPREF:
            g = groups.get(av)
            if g is None:
                return
            a, b = g
            if i + b - a > n:
                return
            for k in range(b - a):
                e = ch_eq(self.cs[a + k], self.cs[i + k])
                if not (e if isinstance(e, bool) else core.ST.fork(e)):
                    return
            yield from self.m(items, idx + 1, i + b - a, groups)
        else:
            raise Unsupported("regex op %s" % op)

    def rep(self, sub, lo, hi, i, groups, count, greedy):
        can_more = hi is C.MAXREPEAT or count < hi
        if not greedy and count >= lo:
            yield i, groups
        if can_more:
            for e, g in self.m(sub, 0, i, groups):
                if e == i and count >= lo:
                    continue
                yield from self.rep(sub, lo, hi, e, g, count + 1, greedy)
        if greedy and count >= lo:
            yield i, groups

    def match_at(self, i, full=False):
        for e, g in self.m(list(self.tree), 0, i, {}):
            if full and e != len(self.cs):
                continue
            return SymMatch(self, i, e, g)
        return None


class SymMatch(object):
    def __init__(self, mt, start, end, groups):
        self._mt, self._s, self._e, self._g = mt, start, end, groups
        self.re = mt.rp
        self.string = mkstr(mt.cs)

    def __bool__(self):
        return True

    def _gid(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group")
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._gid(g)
        if g == 0:
            return self._s, self._e
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return mkstr(self._mt.cs[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default)
                     for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, self._one(v, default))
                    for k, v in self.re.groupindex.items())

    @property
    def lastindex(self):
        return self._g.get("last")

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None


def rx_match(pat, s, flags=0, pos=0):
    rp, tree = compiled(pat, flags)
    return Matcher(rp, tree, s).match_at(pos)


def rx_fullmatch(pat, s, flags=0):
    rp, tree = compiled(pat, flags)
    return Matcher(rp, tree, s).match_at(0, True)


def rx_search(pat, s, flags=0, pos=0):
    rp, tree = compiled(pat, flags)
    mt = Matcher(rp, tree, s)
    for i in range(pos, len(mt.cs) + 1):
        m = mt.match_at(i)
        if m is not None:
            return m
    return None


def rx_finditer(pat, s, flags=0):
    rp, tree = compiled(pat, flags)
    mt = Matcher(rp, tree, s)
    i = 0
    n = len(mt.cs)
    must_advance = None
    while i <= n:
        found = None
        for e, g in mt.m(list(tree), 0, i, {}):
            if e == i and must_advance == i:
                continue
            found = SymMatch(mt, i, e, g)
            break
        if found is None:
            i += 1
            must_advance = None
            continue
        yield found
        i = found._e
        must_advance = i
    return


def rx_findall(pat, s, flags=0):
    out = []
    for m in rx_finditer(pat, s, flags):
        if m.re.groups == 0:
            out.append(m.group())
        elif m.re.groups == 1:
            out.append(m.groups("")[0])
        else:
            out.append(m.groups(""))
    return out


def rx_sub(pat, repl, s, count=0, flags=0):
    cs = chars_of(s)
    out = []
    last = n = 0
    if not callable(repl):
        if isinstance(repl, str) and type(repl) is str and "\\" in repl:
            rp, _ = compiled(pat, flags)
            tpl = P.parse_template(repl, rp)

            def fn(m):
                r = ""
                for x in tpl:
                    if isinstance(x, int):
                        r = r + (m.group(x) or "")
                    elif x:
                        r = r + x
                return r
        else:
            def fn(m):
                return repl
    else:
        fn = repl
    for m in rx_finditer(pat, s, flags):
        if count and n >= count:
            break
        out.extend(cs[last:m._s])
        out.extend(chars_of(fn(m)))
        last = m._e
        n += 1
    out.extend(cs[last:])
    return mkstr(out)


def rx_split(pat, s, maxsplit=0, flags=0):
    cs = chars_of(s)
    out = []
    last = n = 0
    for m in rx_finditer(pat, s, flags):
        if maxsplit and n >= maxsplit:
            break
        out.append(mkstr(cs[last:m._s]))
        out.extend(m.groups())
        last = m._e
        n += 1
    out.append(mkstr(cs[last:]))
    return out
