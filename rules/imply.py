"""Implications of boolean, Option and Result values.

`Imp(F, atom)` decides whether a boolean being true (or false), an Option being Some or a Result being Ok implies a goal.
`atom(fr, kind, x)` names what implies the goal directly:
  kind "call": x a call; True when its being true (Some, Ok) implies the goal, False when its being false (None) does
  kind "place": x the canonical term of a boolean place; the same
  kind "variant": x = (term, variant); True when that variant of the term implies the goal.
Local helpers, closures of Option and iterator combinators and closures passed as arguments are followed with the terms of
their arguments, so that conditions are compared as conditions on the inputs of the outermost body."""
from facts import *
from canon import Frame, last, elem, alternatives

ERR = ("from_residual",)


class Imp:
    def __init__(self, F, atom, depth=6, size=150):
        self.F = F
        self.atom = atom
        self.depth = depth
        self.size = size
        self.busy = set()
        self.memo = {}
        self.partial = {}
        self.hold = []

    # -- values ----------------------------------------------------------------------------------
    def bool(self, fr, op, want):
        if op[0] == "k":
            v = str(op[1].get("v"))
            return v == ("0" if want else "1")
        p = op_place(op)
        if len(p) > 1 or p[0] <= fr.b.args and p[0] > 0:
            return self.atom(fr, "place", fr.place(p)) is want
        return self.defs(fr, p[0], lambda rv: self.rv_bool(fr, rv, want), ("bool", want))

    def some(self, fr, op):
        p = op_place(op)
        if p is None:
            return False
        if len(p) > 1:
            # the payload of `?`
            if "as Continue" in p[1:2]:
                return any(is_call(r) and last(r.get("f", "?")) == "branch" and op_local(r["a"][0]) is not None and
                           self.some(fr, r["a"][0]) for _, _, r, q in fr.b.defs().get(p[0], []))
            return False
        return self.defs(fr, p[0], lambda rv: self.rv_some(fr, rv), ("some",))

    def success(self, fr, op):
        """An Option being Some, or a Result being Ok."""
        l = op_local(op)
        if l is not None and "option::Option<" in fr.b.tys(l).split("Result<")[0]:
            return self.some(fr, op)
        return self.ok(fr, op)

    def none(self, fr, op):
        """The Option being None implies the goal: the caller names the options for which it does."""
        p = op_place(op)
        return p is not None and bool(self.atom(fr, "variant", (fr.place(p), "None")))

    def ok(self, fr, op):
        p = op_place(op)
        if p is None or len(p) > 1:
            return False
        return self.defs(fr, p[0], lambda rv: self.rv_ok(fr, rv), ("ok",))

    def defs(self, fr, l, test, key):
        key = (id(fr), l) + key
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return False
        self.hold.append(fr)
        self.busy.add(key)
        b = fr.b
        ds = [(i, rv) for i, j, rv, p in b.defs().get(l, []) if len(p) == 1 and i in b.live]
        r = bool(ds)
        edges = None
        for i, rv in ds:
            if test(rv):
                continue
            edges = self.edges(fr) if edges is None else edges
            if not edges or self.reached(b, i, edges):
                r = False
                break
        self.busy.discard(key)
        self.memo[key] = r
        return r

    @staticmethod
    def reached(b, i, edges):
        return i in ({0} | b.reachable([0], edge_filter=lambda x, y: (x, y) not in edges))

    def rv_bool(self, fr, rv, want):
        if not is_call(rv):
            if rv[0] == "use":
                return self.bool(fr, rv[1], want)
            if rv[0] == "un" and rv[1] == "Not":
                return self.bool(fr, rv[2], not want)
            if rv[0] == "bin" and rv[1] in ("BitAnd", "BitOr"):
                rs = [self.bool(fr, o, want) for o in rv[2:4]]
                return any(rs) if (rv[1] == "BitAnd") == want else all(rs)
            if rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
                return self.atom(fr, "bin", rv) is want
            return False
        a = self.atom(fr, "call", rv)
        if a is not None and a is want:
            return True
        n = last(rv.get("f", "?"))
        local = rv.get("f") in self.F.fns
        if not local and n in ("deref", "clone", "borrow", "as_ref", "unwrap", "expect") and n not in ("unwrap", "expect"):
            return self.bool(fr, rv["a"][0], want)
        if not local and n == "not":
            return self.bool(fr, rv["a"][0], not want)
        if not local and n == "is_some_and":
            if want:
                return self.some(fr, rv["a"][0]) or self.inner(fr, rv, 1, [self.payload(fr, rv)], "bool", True)
            return self.none(fr, rv["a"][0]) and (self.some(fr, rv["a"][0]) or self.inner(fr, rv, 1, [self.payload(fr, rv)], "bool", False))
        if not local and n == "is_none_or":
            return not want and (self.some(fr, rv["a"][0]) or self.inner(fr, rv, 1, [self.payload(fr, rv)], "bool", want))
        if not local and n in ("is_some", "is_ok"):
            return want and self.success(fr, rv["a"][0])
        if not local and n in ("is_none", "is_err"):
            return not want and self.success(fr, rv["a"][0])
        if not local and n == "any":
            return want and self.inner(fr, rv, 1, [elem(fr.op(rv["a"][0]))], "bool", want)
        if not local and n == "all":
            return not want and self.inner(fr, rv, 1, [elem(fr.op(rv["a"][0]))], "bool", want)
        if not local and n in ("map_or", "unwrap_or"):
            opt = self.some(fr, rv["a"][0])
            base = self.bool(fr, rv["a"][1], want)
            if n == "unwrap_or":
                return base and opt
            return base and (opt or self.inner(fr, rv, 2, [self.payload(fr, rv)], "bool", want))
        return self.inline(fr, rv, "bool", want)

    def rv_some(self, fr, rv):
        if not is_call(rv):
            if rv[0] == "use":
                return self.some(fr, rv[1])
            if rv[0] == "agg" and rv[3] == "Ok" and rv[2].endswith("Result"):
                return self.some(fr, rv[4][0])
            return rv[0] == "agg" and rv[3] in ("None", "Err")
        a = self.atom(fr, "call", rv)
        if a is True:
            return True
        n = last(rv.get("f", "?"))
        args = rv["a"]
        if n == "from_residual":
            return True
        if rv.get("f") not in self.F.fns:
            if n == "then_some":
                return self.bool(fr, args[0], True)
            if n == "then":
                return self.bool(fr, args[0], True) or False
            if n == "filter":
                return self.some(fr, args[0]) or self.inner(fr, rv, 1, [self.payload(fr, rv)], "bool", True)
            if n in ("map", "cloned", "copied", "inspect", "as_ref", "as_deref", "as_mut", "take", "zip", "ok", "flatten"):
                return self.some(fr, args[0]) if n != "ok" else self.success(fr, args[0])
            if n == "and_then":
                return self.some(fr, args[0]) or self.inner(fr, rv, 1, [self.payload(fr, rv)], "some")
            if n == "or_else":
                return self.some(fr, args[0]) and self.inner(fr, rv, 1, [], "some")
            if n == "or":
                return self.some(fr, args[0]) and self.some(fr, args[1])
            if n in ("next", "find", "find_map", "last", "nth", "next_back", "min_by_key", "max_by_key") and args and \
                    self.filtered(fr, fr.op(args[0])):
                return True
            if n == "find":
                return self.inner(fr, rv, 1, [elem(fr.op(args[0]))], "bool", True)
            if n == "find_map":
                return self.inner(fr, rv, 1, [elem(fr.op(args[0]))], "some")
        return self.inline(fr, rv, "some")

    def rv_ok(self, fr, rv):
        if not is_call(rv):
            if rv[0] == "use":
                return self.ok(fr, rv[1])
            return rv[0] == "agg" and rv[3] == "Err"
        if self.atom(fr, "call", rv) is True:
            return True
        n = last(rv.get("f", "?"))
        args = rv["a"]
        if n == "from_residual":
            return True
        if rv.get("f") not in self.F.fns:
            if n in ("map_err", "map", "cloned", "copied", "and_then"):
                return self.ok(fr, args[0]) or n == "and_then" and self.inner(fr, rv, 1, [("f", fr.op(args[0]), "Ok.0")], "ok")
            if n in ("ok_or", "ok_or_else"):
                return self.some(fr, args[0])
        return self.inline(fr, rv, "ok")

    def filtered(self, fr, t):
        """Every element of the iterator passed a filter that implies the goal."""
        while t[0] == "call" and len(t) >= 3:
            if len(t) == 4 and t[3][0] == "clo":
                if last(t[1]) == "filter" and self.callee(fr, t[3], [elem(t[2])], "bool", True) or \
                        last(t[1]) == "filter_map" and self.callee(fr, t[3], [elem(t[2])], "some", True):
                    return True
            t = t[2]
        return False

    def payload(self, fr, c):
        return fr.field(fr.op(c["a"][0]), "Some.0")

    # -- functions -------------------------------------------------------------------------------
    def answer(self, fr, kind, want=True):
        if kind == "bool":
            return self.bool(fr, ["c", [0]], want)
        return self.some(fr, ["c", [0]]) if kind == "some" else self.ok(fr, ["c", [0]])

    def sub(self, fr, cb, args, caps, kind, want):
        if self.depth <= 0 or len(cb.blocks) > self.size:
            return False
        key = (cb.name, tuple(sorted(args.items())) if args else (), caps, kind, want)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return False
        self.busy.add(key)
        self.depth -= 1
        r = self.answer(Frame(self.F, cb, args, caps), kind, want)
        self.depth += 1
        self.busy.discard(key)
        self.memo[key] = r
        return r

    def inner(self, fr, c, n, args, kind, want=True):
        """The closure (or function) given as argument n, called on `args`."""
        if n >= len(c["a"]):
            return False
        o = c["a"][n]
        alts = alternatives(fr.op(o))
        return bool(alts) and all(self.callee(fr, t, args, kind, want) for t in alts)

    def callee(self, fr, t, args, kind, want):
        if t[0] == "clo" and t[1] in self.F.fns:
            return self.sub(fr, self.F.body(t[1]), {k + 2: a for k, a in enumerate(args)}, t[2], kind, want)
        if t[0] == "k" and t[1] in self.F.fns:
            fake = self.atom(fr, "fn", (t[1], tuple(args)))
            if fake is not None and fake is (want if kind == "bool" else True):
                return True
            return self.sub(fr, self.F.body(t[1]), {k + 1: a for k, a in enumerate(args)}, None, kind, want)
        return False

    def inline(self, fr, c, kind, want=True):
        f = c.get("f", "?")
        if f in self.F.fns:
            cb = self.F.body(f)
            return self.sub(fr, cb, {n + 1: fr.op(a) for n, a in enumerate(c["a"])}, None, kind, want)
        if last(f) in ("call", "call_mut", "call_once") and c["a"]:
            tup = fr.op(c["a"][1]) if len(c["a"]) > 1 else ("tup",)
            args = list(tup[1:]) if tup[0] == "tup" else []
            alts = alternatives(fr.op(c["a"][0]))
            return bool(alts) and all(self.callee(fr, t, args, kind, want) for t in alts)
        return False

    # -- control flow ----------------------------------------------------------------------------
    def edges(self, fr):
        """Edges on which the goal holds."""
        key = (id(fr), "edges")
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return self.partial.get(key, set())
        self.busy.add(key)
        self.hold.append(fr)
        out = set()
        while True:
            self.partial[key] = out
            new = out | self.edges_once(fr)
            if new == out:
                break
            out = new
            # what was refused without these edges
            for k in [k for k, v in self.memo.items() if k[0] == id(fr) and v is False]:
                del self.memo[k]
        self.busy.discard(key)
        self.memo[key] = out
        return out

    def edges_once(self, fr):
        b = fr.b
        out = set()
        for i in b.live:
            t = b.blocks[i]["t"]
            if t[0] != "switch":
                continue
            tg = dict(t[2])
            p = op_place(t[1])
            if p is None:
                continue
            l = p[0]
            ds = b.defs().get(l, []) if len(p) == 1 else []
            disc = [rv for _, _, rv, q in ds if not is_call(rv) and rv[0] == "disc"]
            if disc:
                out |= self.variants(fr, i, t, disc)
                continue
            if b.tys(l) == "bool" or len(p) > 1:
                if self.bool(fr, t[1], True):
                    out.add((i, tg.get("1", t[3])))
                if self.bool(fr, t[1], False):
                    out.add((i, tg.get("0", t[3])))
        return out

    def variants(self, fr, i, t, disc):
        out = set()
        b = fr.b
        own = [s[2] for s in b.blocks[i]["s"] if s[0] == "=" and s[1] == [op_local(t[1])] and s[2][0] == "disc"]
        rv = (own or disc)[-1]
        row = self.F.types[rv[2]]
        if row["k"] != "adt":
            return out
        q = rv[1]
        name = last(row["d"])
        known = {"Option": {"0": "None", "1": "Some"}, "Result": {"0": "Ok", "1": "Err"}, "ControlFlow": {"0": "Continue", "1": "Break"}}
        names = known.get(name) if row["d"] not in self.F.adts else self.F.variant_by_disc(row["d"])
        if names is None:
            return out
        term = fr.place(q)
        for v, n in names.items():
            y = dict(t[2]).get(str(v), t[3])
            shared = [w for w in names if dict(t[2]).get(str(w), t[3]) == y]
            if len(shared) > 1:
                # the edge serves several variants
                if not all(self.atom(fr, "variant", (term, names[w])) for w in shared):
                    continue
            if self.atom(fr, "variant", (term, n)):
                out.add((i, y))
            elif n == "Some" and len(q) == 1 and self.some(fr, ["c", q]):
                out.add((i, y))
            elif n == "Ok" and len(q) == 1 and self.ok(fr, ["c", q]):
                out.add((i, y))
            elif n == "Continue" and len(q) == 1:
                for _, _, r, p in b.defs().get(q[0], []):
                    if is_call(r) and last(r.get("f", "?")) == "branch" and self.success(fr, r["a"][0]):
                        out.add((i, y))
        return out

    def at(self, fr, block):
        """The goal holds whenever the block is reached."""
        e = self.edges(fr)
        return bool(e) and not self.reached(fr.b, block, e)

    def passes(self, fr, starts, stop=(), dead=frozenset()):
        """Every path from the starts to a successful return passes the goal. Returns the offending return or None."""
        b = fr.b
        e = self.edges(fr) | set(dead)
        avoid = set(stop)
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[3] == "Err" and rv[2].endswith("Result"):
                avoid.add(i)
        for i, c in b.calls():
            if last(c.get("f", "?")) == "from_residual":
                avoid.add(i)
            elif b.tys(c["d"][0]).startswith("core::result::Result<") and c["d"] == [0] and self.rv_ok(fr, c):
                avoid.add(i)
            elif not b.tys(c["d"][0]).startswith("core::result::Result<") and self.atom(fr, "pass", c):
                avoid.add(i)
        starts = [s for s in starts if s not in avoid]
        seen = set(starts) | b.reachable(starts, avoid=tuple(avoid), edge_filter=lambda x, y: (x, y) not in e) if starts else set()
        for r in b.return_blocks():
            if r in seen:
                return r
        return None
