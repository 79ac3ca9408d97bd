"""Path state and decision procedure of the symbolic executor.

One *path* is one execution of a harness.  Every branch whose condition
mentions a symbolic value is a decision; z3 says which outcomes are feasible
under the path condition, the infeasible ones are pruned, and the feasible ones
not taken are queued as decision prefixes to be re-executed.
"""
import time
import z3


class SxAbort(BaseException):
    """Base of the engine's own control flow; not an Exception so that the
    code under test cannot swallow it."""


class PathEnd(SxAbort):
    pass


class Unsupported(SxAbort):
    """The code did something with a symbolic value the engine cannot model."""


class Inconclusive(SxAbort):
    pass


class Violation(SxAbort):
    def __init__(self, msg):
        SxAbort.__init__(self, msg)
        self.msg = msg


class Stats(object):
    FIELDS = ("paths", "decisions", "feas_queries", "prove_queries",
              "proved_by_path", "violations", "unknown", "realised",
              "validated", "cut", "abstracted_formats")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.witness = {}
        self.functions = set()
        self.realised_at = {}

    def as_dict(self):
        d = dict((f, getattr(self, f)) for f in self.FIELDS)
        d["solver_s"] = self.solver_s
        d["witness"] = dict(self.witness)
        d["functions"] = sorted(self.functions)
        d["realised_at"] = dict(self.realised_at)
        return d


STATS = Stats()
ST = None    # current path


class PathState(object):
    def __init__(self, prefix=(), query_timeout_ms=20000):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_timeout_ms)
        self.model = None
        self.known = {}
        self.keep = []
        self.vars = []        # (name, kind, payload)
        self.names = {}
        self.uf_hash = False
        self.exact_repr = 0
        self.msg_mode = 0
        self.notes = []
        self.tokens = {}
        self.hash_k = set()
        self.queries = 0

    # -- naming
    def fresh(self, label):
        n = self.names.get(label, 0)
        self.names[label] = n + 1
        return "%s#%d" % (label, n)

    # -- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        STATS.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            STATS.unknown += 1
            raise Inconclusive("solver answered unknown: %s" %
                               self.solver.reason_unknown())
        return r == z3.sat

    def add(self, c):
        self.solver.add(c)
        self.keep.append(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise PathEnd("infeasible")
            self.model = self.solver.model()
        return self.model

    def assume(self, c):
        """Restrict the path; ends it when infeasible."""
        if isinstance(c, bool):
            if not c:
                STATS.cut += 1
                raise PathEnd("assume")
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            STATS.cut += 1
            raise PathEnd("assume")
        self.add(c)
        if len(self.trace) >= len(self.prefix):
            if self.model is None:
                STATS.feas_queries += 1
                if not self._check():
                    STATS.cut += 1
                    raise PathEnd("assume")
                self.model = self.solver.model()

    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.known:
            return self.known[k]
        i = len(self.trace)
        STATS.decisions += 1
        if i < len(self.prefix):
            side = bool(self.prefix[i])
            self.trace.append(int(side))
            self.solver.add(e if side else z3.Not(e))
            self.keep.append(e)
        else:
            m = self.get_model()
            side = z3.is_true(m.eval(e, model_completion=True))
            other = z3.Not(e) if side else e
            STATS.feas_queries += 1
            if self._check(other):
                self.pending.append(self.trace + [int(not side)])
            self.trace.append(int(side))
            self.solver.add(e if side else z3.Not(e))
            self.keep.append(e)
        self.known[k] = side
        return side

    def choice(self, n, label="choice"):
        """A symbolic selector with domain 0..n-1: all n values are feasible
        (the variable is fresh), so no query is needed to branch on it."""
        name = self.fresh(label)
        if n <= 0:
            raise PathEnd("empty choice")
        i = len(self.trace)
        if n == 1:
            k = 0
        else:
            STATS.decisions += 1
            if i < len(self.prefix):
                k = self.prefix[i]
            else:
                k = 0
                for j in range(n - 1, 0, -1):
                    self.pending.append(self.trace + [j])
            self.trace.append(k)
        self.vars.append((name, "choice", k))
        return k

    def new_int(self, label, lo=None, hi=None):
        name = self.fresh(label)
        v = z3.Int(name)
        self.vars.append((name, "int", v))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def prove(self, c, msg):
        """c is a z3 Bool or a bool"""
        if isinstance(c, bool):
            if c:
                STATS.proved_by_path += 1
                return
            raise Violation(msg)
        c = z3.simplify(c)
        if z3.is_true(c):
            STATS.proved_by_path += 1
            return
        STATS.prove_queries += 1
        neg = z3.Not(c)
        if self._check(neg):
            self.model = self.solver.model()
            self.solver.add(neg)
            self.keep.append(neg)
            raise Violation(msg)
        # implied, so it need not be added

    # -- values of a model
    def values(self):
        m = self.get_model()
        for c in self.solver.assertions():
            if not z3.is_true(m.eval(c, model_completion=True)):
                raise AssertionError("stale model: %s" % c)
        out = {}
        for name, kind, payload in self.vars:
            if kind == "choice":
                out[name] = payload
            elif kind == "int":
                out[name] = m.eval(payload, model_completion=True).as_long()
            elif kind == "bool":
                out[name] = bool(
                    z3.is_true(m.eval(payload, model_completion=True)))
            elif kind == "str":
                out[name] = [
                    c if isinstance(c, int) else
                    m.eval(c, model_completion=True).as_long()
                    for c in payload]
        return out


def cur():
    return ST


def set_path(st):
    global ST
    ST = st
