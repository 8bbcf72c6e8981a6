"""Is a call site only reachable when the module being compiled is the standard library (or another condition)?"""
from facts import *
from common import *
from p_p05 import mentions_std_const
from p_p06 import ok_edges_of


class Gate:
    """positive(rv) / negative(rv): the rvalue is the condition / its negation; field(place): the place holds it."""

    def __init__(self, F, positive, negative=lambda F, b, rv: False, place=lambda F, b, p: False):
        self.F = F
        self.positive = positive
        self.negative = negative
        self.place = place
        self._callers = None
        self.memo = {}
        self.results = {}
        self.bools = {}

    def cond(self, b, op):
        k = negations(b, op, lambda p, rv: (p is not None and self.place(self.F, b, p)) or
                      (rv is not None and (self.positive(self.F, b, rv) or self.bool_fn(b, rv) is True)))
        if k is not None:
            return k
        k = negations(b, op, lambda p, rv: rv is not None and (self.negative(self.F, b, rv) or self.bool_fn(b, rv) is False))
        return None if k is None else not k

    def bool_fn(self, b, rv):
        """The rvalue is a call of a local function that returns the condition (True) or its negation (False)."""
        f = rv.get("f") if is_call(rv) else None
        if f not in self.F.fns:
            return None
        if f in self.bools:
            return self.bools[f]
        self.bools[f] = None
        g = self.F.body(f)
        if g.tys(0) != "bool" or len(g.blocks) > 12:
            return None
        self.bools[f] = self.cond(g, ["c", [0]])
        return self.bools[f]

    def edges(self, b):
        """Edges on which the condition holds, tested here or in a helper whose success implies it."""
        e = bool_edges(b, lambda op, i: self.cond(b, op), True)
        calls = [i for i, c in b.calls() if c.get("f") in self.F.fns and self.implies(c["f"])]
        if calls:
            e |= ok_edges_of(self.F, b, calls)
        return e

    def implies(self, f):
        """f returns Ok only when the condition holds."""
        if f in self.results:
            return self.results[f]
        self.results[f] = False
        g = self.F.body(f)
        if not g.tys(0).startswith("core::result::Result<") or len(g.blocks) > 60:
            return False
        e = self.edges(g)
        if not e:
            return False
        r = reach_avoiding(g, [0], (), e)
        oks = set()
        for i, j, p, rv, l in g.assigns():
            if p[0] == 0 and len(p) == 1:
                if not (rv[0] == "agg" and rv[3] == "Err"):
                    oks.add(i)
        for i, c in g.calls():
            if c["d"] == [0] and not c.get("f", "").endswith("from_residual"):
                oks.add(i)
        self.results[f] = not (oks & r)
        return self.results[f]

    def holds_at(self, b, block, depth=3):
        e = self.edges(b)
        if e and block not in reach_avoiding(b, [0], (), e):
            return True
        if depth == 0:
            return False
        cs = self.callers(b.name)
        return bool(cs) and all(self.holds_at(cb, i, depth - 1) for cb, i in cs if i in cb.live)

    def callers(self, name):
        if self._callers is None:
            self._callers = {}
            for cb in self.F.all_bodies():
                for i, c in cb.calls():
                    if c.get("f") in self.F.fns:
                        self._callers.setdefault(c["f"], []).append((cb, i))
        return self._callers.get(name, [])


def std_gate(F):
    def eq(F, b, rv):
        if is_call(rv):
            f = rv.get("f", "")
            return f.endswith("::eq") and any(mentions_std_const(F, b, a) for a in rv["a"]) or f.endswith(("is_std", "is_std_module"))
        return rv[0] == "bin" and rv[1] == "Eq" and any(mentions_std_const(F, b, o) for o in (rv[2], rv[3]))

    def ne(F, b, rv):
        if is_call(rv):
            return rv.get("f", "").endswith("::ne") and any(mentions_std_const(F, b, a) for a in rv["a"])
        return rv[0] == "bin" and rv[1] == "Ne" and any(mentions_std_const(F, b, o) for o in (rv[2], rv[3]))
    return Gate(F, eq, ne)
