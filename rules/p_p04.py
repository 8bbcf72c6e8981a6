"""Poisoning: a sandbox violation or a failure during cleanup ends the execution domain for good."""
from facts import *
from common import bool_edges, negations, reach_avoiding
from flow import PathFlow, TooBig

EXPLANATION = (
    "Typestate over the MIR of every function of the crate. (1) record: wherever a poisoning error "
    "is minted or reported by code holding the evaluation context, the context is marked poisoned "
    "on every path to the return; the mark is never reset. (2) gate: the admission test returns Ok "
    "only on the running state and every chain from a host-visible entry point to the dispatch of "
    "guest code passes its Ok edge. (3) stop: after a step that may have failed with a poisoning "
    "error, no guest code runs before the result is known to be a success or a plain source "
    "failure. (4) no-swallow: such a result is never dropped unexamined and its error never "
    "discarded.")

CTX = "eval::EvalCtx"
STATE = "eval::ExecutionState"
RTE = "eval::RuntimeError"
POISON_STRUCTS = ("eval::SandboxViolation", "eval::FailureDuringCleanup")
POISON_VARIANTS = ("SandboxViolation", "FailureDuringCleanup")


def is_state_place(p):
    return bool(p) and isinstance(p[-1], str) and p[-1] == ".execution_state:" + CTX


class Model:
    def __init__(self, F):
        self.F = F
        cg = F.callgraph
        self.rev = {}
        for a, bs in cg.items():
            for b in bs:
                self.rev.setdefault(b, set()).add(a)
        self._must = None
        v = F.adts[STATE]["variants"]
        self.state_discs = [x["disc"] for x in v]
        self.running_disc = [x["disc"] for x in v if x["name"] == "Running"][0]
        self.writers = set()      # functions assigning the execution state
        self.dispatch = set()     # functions dispatching to guest code
        self.minters = set()
        for b in F.all_bodies(lambda f: not f.endswith("parser.rs")):
            for i, j, p, rv, l in b.assigns():
                if is_state_place(p):
                    self.writers.add(b.name)
            for i, c in b.calls():
                if is_state_place(c["d"]):
                    self.writers.add(b.name)
                if c.get("f") == "hir::function::Callable::call" and c["res"] == "virtual":
                    self.dispatch.add(b.name)
        v = {x["name"]: x["disc"] for x in F.adts[RTE]["variants"]}
        self.source_disc = v["SourceFailure"]
        self.poisoners = self.closure_up(self.writers)
        self.guest = self.closure_up(self.dispatch | set(self.mir_loops()))

    # types -------------------------------------------------------------------------------
    def is_result(self, t):
        r = self.F.types[t]
        return r["k"] == "adt" and r["d"] == "core::result::Result" and \
            len(r["a"]) == 2 and self.F.types[r["a"][1]]["s"] == RTE

    def is_rte(self, t):
        return self.F.types[t]["s"] == RTE

    def carries(self, t):
        return RTE in self.F.types[t]["s"] and self.F.types[t]["k"] != "closure"

    def owns(self, t):
        if t is None:
            return True
        r = self.F.types[t]
        return RTE in r["s"] and r["k"] not in ("ref", "refmut", "closure") and "&" not in r["s"]

    def is_poisoned_value(self, b, rv, depth=0):
        if rv[0] == "agg":
            return rv[2] == STATE and rv[3] == "Poisoned"
        if rv[0] == "use":
            p = op_place(rv[1])
            if p is None or len(p) != 1 or depth > 6:
                return False
            ds = b.defs().get(p[0], [])
            return bool(ds) and all(not is_call(d[2]) and self.is_poisoned_value(b, d[2], depth + 1)
                                    for d in ds)
        return False

    def place_is_ctx(self, b, p):
        if p[-1] == "*" and len(p) == 2:
            row = self.F.types[b.locals[p[0]]]
            return bool(row["a"]) and self.F.types[row["a"][-1]].get("d") in CTX_TYPES
        return p[-1] == ".ctx:mir::interpreter::Interpreter"

    def write_blocks(self, b):
        """Blocks that certainly write the state: directly or through a must-writing callee."""
        out = set()
        for i, j, p, rv, l in b.assigns():
            if is_state_place(p):
                out.add(i)
        for i, c in b.calls():
            if c.get("f") in self.must_write():
                out.add(i)
        return out

    def must_write(self):
        if self._must is None:
            self._must = set()
            for _ in range(4):
                new = {f for f in self.poisoners if f not in self._must and self._mw(f)}
                if not new:
                    break
                self._must |= new
        return self._must

    def _mw(self, f):
        b = self.F.body(f)
        wb = {i for i, j, p, rv, l in b.assigns() if is_state_place(p)}
        wb |= {i for i, c in b.calls() if c.get("f") in self._must}
        return bool(wb) and not (set(b.return_blocks()) & b.reachable([0], avoid=wb)) \
            if 0 not in wb else True

    def all_paths_write_before(self, b, blk, wb):
        return blk not in b.reachable([0], avoid=wb)

    def closure_up(self, roots):
        seen = set(roots)
        work = list(roots)
        while work:
            x = work.pop()
            for y in self.rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen

    def mir_loops(self):
        """Functions that execute MIR terminators: they read a terminator kind's `Invoke` operation
        and call something with it while holding an interpreter."""
        out = []
        for b in self.F.all_bodies(lambda f: f == "src/mir/interpreter.rs"):
            for i, j, p, rv, l in b.assigns():
                if rv[0] == "disc" and self.F.types:
                    pass
            for i, bl in enumerate(b.blocks):
                t = bl["t"]
                if t[0] == "switch":
                    pass
            if any("mir::terminator::TerminatorKind::Invoke" in str(s) for bl in b.blocks
                   for s in bl["s"]):
                out.append(b.name)
        return out


BRANCH = "core::ops::try_trait::Try::branch"
BAD = ("m", "e", "p")
PANICS = ("unwrap", "expect", "unwrap_err", "expect_err")


class ErrFlow(PathFlow):
    """User state: (places: frozenset of (place tuple, origin), status: frozenset of (origin, st)).

    Origins are the calls (blocks) whose outcome may carry a poisoning error; st is m (unexamined),
    ok, e (an error of unknown kind), s (a source failure), np (not poisoning), p (poisoning)."""
    cap = 40000

    def __init__(self, body, M, use_flags):
        super().__init__(body)
        self.M = M
        self.F = body.facts
        self.use_flags = use_flags
        self.reports = {}
        self.refs = {}
        for l, ds in body.defs().items():
            if len(ds) == 1 and not is_call(ds[0][2]) and ds[0][2][0] == "ref" and ds[0][3] == [l]:
                self.refs[l] = ds[0][2][2]
        self.outcomes = sum(1 for _, c in body.calls() if M.carries(body.locals[c["d"][0]]) and
                            (c.get("f") in M.poisoners or self.may_poison_indirect(c, c.get("f", ""))))

    def tracked_keys(self):
        ks = super().tracked_keys()
        if self.use_flags:
            return ks
        # without the drop flags, unless they belong to a tracked result
        return {k for k in ks if not (k[0] == "b" and self.body.var_name(k[1]) is None)}

    def init(self):
        places = set()
        status = set()
        for i in range(1, self.body.args + 1):
            t = self.body.locals[i]
            if self.M.is_result(t):
                places.add(((i,), -i))
                status.add((-i, "m"))
            elif self.M.is_rte(t):
                places.add(((i,), -i))
                status.add((-i, "e"))
        return (frozenset(places), frozenset(status))

    # state helpers ---------------------------------------------------------------------
    def resolve(self, place):
        n = 0
        while n < 8 and len(place) > 1 and place[1] == "*" and place[0] in self.refs:
            place = self.refs[place[0]] + place[2:]
            n += 1
        return place

    def origin(self, u, place):
        """(origin, exact) of the longest tracked prefix."""
        place = tuple(self.norm(self.resolve(place)))
        d = dict(u[0])
        for k in range(len(place), 0, -1):
            if place[:k] in d:
                return d[place[:k]], k == len(place)
        return None, False

    def norm(self, place):
        return [p.split(":")[0] if isinstance(p, str) and p.startswith(".") else p for p in place]

    def inner(self, u, place):
        """Tracked places strictly inside `place`."""
        place = tuple(self.norm(self.resolve(place)))
        return [(p, o) for p, o in u[0] if len(p) > len(place) and p[:len(place)] == place]

    def setp(self, u, place, o):
        place = tuple(self.norm(self.resolve(place)))
        ps = frozenset((p, x) for p, x in u[0] if p[:len(place)] != place)
        if o is not None:
            ps = ps | {(place, o)}
        return (ps, u[1])

    def st(self, u, o):
        return dict(u[1]).get(o)

    def sets(self, u, o, s):
        return (u[0], frozenset((x, y) for x, y in u[1] if x != o) | {(o, s)})

    # transfer --------------------------------------------------------------------------
    def stmt(self, block, idx, s, u):
        if s[0] != "=" or (not u[0] and True):
            return u
        place, rv = s[1], s[2]
        if rv[0] == "use" and op_place(rv[1]) is not None:
            src = op_place(rv[1])
            o, _ = self.origin(u, src)
            if o is not None:
                return self.setp(u, place, o)
            ins = self.inner(u, src)
            u = self.setp(u, place, None)
            if ins:
                a = tuple(self.norm(self.resolve(src)))
                b = tuple(self.norm(self.resolve(place)))
                u = (u[0] | {(b + p[len(a):], o) for p, o in ins}, u[1])
            return u
        if rv[0] == "agg":
            names = rv[5] or [str(i) for i in range(len(rv[4]))]
            pre = list(place) + ([f"as {rv[3]}"] if rv[1] == "adt" and rv[3] else [])
            new = []
            for n, op in zip(names, rv[4]):
                p = op_place(op)
                if p is None:
                    continue
                o, _ = self.origin(u, p)
                if o is not None:
                    new.append((pre + [f".{n}"], o))
            u = self.setp(u, place, None)
            for p, o in new:
                u = (u[0] | {(tuple(self.norm(self.resolve(p))), o)}, u[1])
            return u
        if rv[0] == "ref":
            return u
        return self.setp(u, place, None)

    def call(self, block, c, u):
        f = c.get("f", "")
        decl = c.get("decl") or f
        short = f.rsplit("::", 1)[-1]
        M = self.M
        moved = []
        for a in c["a"]:
            p = op_place(a)
            if p is not None:
                o, _ = self.origin(u, p)
                if o is not None and o not in moved:
                    moved.append(o)
                for _, o in self.inner(u, p):
                    if o not in moved:
                        moved.append(o)
        d = tuple(c["d"])
        # guest code after an unresolved or poisoning outcome
        if self.runs_guest(c, f):
            live = [o for o, s in u[1] if s in BAD]
            local = f in self.F.fns
            if live and not (local and all(o in moved for o in live)):
                for o in live:
                    self.report("stop", block, o, f)
        carries = M.carries(self.body.locals[d[0]])
        if decl == BRANCH:
            return self.setp(u, d, moved[0] if moved else None)
        if moved and short in PANICS and f not in self.F.fns:
            for o in moved:
                if self.st(u, o) in BAD:
                    u = self.sets(u, o, "e" if short.endswith("_err") else "ok")
            return self.setp(u, d, moved[0] if carries else None)
        if f in self.F.fns and (f in M.poisoners) and carries:
            u = self.setp(u, d, None)
            u = self.setp(u, d, block)
            return self.sets(u, block, "e" if M.is_rte(self.body.locals[d[0]]) else "m")
        if self.may_poison_indirect(c, f) and carries:
            u = self.setp(u, d, None)
            u = self.setp(u, d, block)
            return self.sets(u, block, "m")
        if moved and carries:
            return self.setp(u, d, moved[0])
        u = self.setp(u, d, None)
        if moved and not carries and f not in self.F.fns and short not in PANICS:
            for a in c["a"]:
                p = op_place(a)
                if a[0] == "m" and p is not None and M.owns(self.place_ty(p)):
                    o, _ = self.origin(u, p)
                    if o is not None and self.st(u, o) in BAD:
                        self.report("swallow", block, o, f)
        return u

    def place_ty(self, p):
        return self.body.locals[p[0]] if len(p) == 1 else None

    def may_poison_indirect(self, c, f):
        if c["res"] == "virtual":
            return f == "hir::function::Callable::call" or \
                any(m in self.M.poisoners for m in self.F.impl_methods_of(f))
        if c.get("res") == "unresolved" and ("FnOnce" in f or "FnMut" in f or "::Fn::" in f):
            return True
        return any(cl in self.M.poisoners for cl in self.closures_in(c))

    def closures_in(self, c):
        for a in c["a"]:
            if a[0] == "k":
                if "fn" in a[1]:
                    yield a[1]["fn"]
                continue
            p = op_place(a)
            row = self.F.types[self.body.locals[p[0]]]
            if row["k"] == "closure":
                yield row["d"]

    OK_ONLY = ("map", "and_then", "map_err", "is_err_and", "is_ok_and", "inspect_err")

    def runs_guest(self, c, f):
        M = self.M
        if f in M.guest and f in self.F.fns:
            return True
        if c["res"] == "virtual":
            return f == "hir::function::Callable::call" or \
                any(m in M.guest for m in self.F.impl_methods_of(f))
        if c["res"] == "unresolved" and "core::ops::function::Fn" in f:
            return True
        if f not in self.F.fns and f.startswith("core::result::Result::<T, E>::") and \
                f.rsplit("::", 1)[-1] in self.OK_ONLY:
            return False
        if f not in self.F.fns:
            return any(cl in M.guest for cl in self.closures_in(c))
        # a local higher-order function: its closure runs guest code, its own body is checked
        return any(cl in M.guest for cl in self.closures_in(c))

    def drop(self, block, place, ty, u):
        o, exact = self.origin(u, place)
        if o is not None and self.st(u, o) in BAD and self.M.owns(ty) and \
                not any(x != o and y == "p" for x, y in u[1]):
            # (an outcome superseded by another poisoning error is still reported as poisoning)
            self.report("swallow", block, o, "drop")
        return u

    def edge(self, block, target, value, key, u):
        if not u[1]:
            return u
        op = self.body.blocks[block]["t"][1]
        vals = [v for v, _ in self.body.blocks[block]["t"][2]]
        r = self.test(u, op, 0)
        if r is None:
            return u
        o, kind = r
        cur = self.st(u, o)
        if cur is None:
            return u
        if kind in ("res", "isok", "iserr", "poison"):
            if value is None:
                rest = [x for x in ("0", "1") if x not in vals]
                if len(rest) != 1:
                    return u
                value = rest[0]
        if kind == "iserr":
            kind, value = "res", value
        elif kind == "isok":
            kind, value = "res", "1" if value == "0" else "0"
        if kind == "res":
            if value == "0":
                return None if cur in ("e", "p", "s") else self.sets(u, o, "ok")
            if cur == "ok":
                return None
            return self.sets(u, o, {"m": "e", "np": "s"}.get(cur, cur))
        if kind == "poison":
            if value == "0":
                return None if cur == "p" else self.sets(u, o, {"m": "np", "e": "s"}.get(cur, cur))
            return None if cur in ("ok", "s", "np") else self.sets(u, o, "p")
        if kind == "rte":
            src = self.M.source_disc
            if value == src:
                return None if cur == "p" else self.sets(u, o, "s")
            if value is None and src not in vals:
                return u
            return None if cur in ("s", "np") else self.sets(u, o, "p")
        return u

    def test(self, u, op, depth):
        """(origin, kind) of the property of a tracked outcome that the operand tests."""
        p = op_place(op)
        if p is None or len(p) != 1 or depth > 8:
            return None
        ds = [x for x in self.body.defs().get(p[0], []) if x[3] == [p[0]]]
        if len(ds) != 1 or len(self.body.defs().get(p[0], [])) != 1:
            return None
        rv = ds[0][2]
        if is_call(rv):
            f = rv.get("f", "")
            short = f.rsplit("::", 1)[-1]
            a = rv["a"]
            if f == "eval::RuntimeError::is_poisoning":
                o = self.deref_origin(u, a[0])
                return (o, "poison") if o is not None else None
            if short == "is_err_and" and len(a) == 2 and a[1][0] == "k" and \
                    a[1][1].get("fn") == "eval::RuntimeError::is_poisoning":
                o = self.deref_origin(u, a[0])
                return (o, "poison") if o is not None else None
            if f.startswith("core::result::Result::<T, E>::is_"):
                o = self.deref_origin(u, a[0])
                return (o, {"is_ok": "isok", "is_err": "iserr"}.get(short)) if o is not None else None
            return None
        if rv[0] == "use":
            return self.test(u, rv[1], depth + 1)
        if rv[0] == "disc":
            q = self.resolve(rv[1])
            o, exact = self.origin(u, q)
            if o is None:
                return None
            t = self.ty_of_place(q)
            if t is None:
                return None
            s = self.F.types[t]["s"] if isinstance(t, int) else t
            if exact and s.startswith(("core::result::Result<", "core::ops::control_flow::ControlFlow<core::result::Result<!")):
                return (o, "res")
            if s == RTE:
                return (o, "rte")
            if not exact and s.startswith("core::result::Result<"):
                return None
        return None

    def ty_of_place(self, q):
        if len(q) == 1:
            return self.body.locals[q[0]]
        # payload of an Err: the RuntimeError itself
        last = q[-1]
        if isinstance(last, str) and last.endswith("::Result::Err"):
            return RTE
        if isinstance(last, str) and last.endswith(":()"):
            row = self.F.types[self.body.locals[q[0]]]
            if len(q) == 2 and row["k"] == "tuple":
                return row["a"][int(last[1:].split(":")[0])]
        if q[1:] == ["*"]:
            row = self.F.types[self.body.locals[q[0]]]
            return row["a"][-1] if row["a"] else None
        return None

    def deref_origin(self, u, op):
        """The tracked outcome a reference operand points to (through as_ref and copies)."""
        p = op_place(op)
        for _ in range(8):
            if p is None:
                return None
            q = self.resolve(list(p) + ["*"])
            o, _x = self.origin(u, q)
            if o is not None:
                return o
            o, _x = self.origin(u, p)
            if o is not None:
                return o
            ds = self.body.defs().get(p[0], [])
            if len(ds) != 1 or len(p) != 1:
                # a reference bound by a pattern: (*(p as Err).0)
                return None
            rv = ds[0][2]
            if is_call(rv):
                if rv["a"] and rv.get("f", "").rsplit("::", 1)[-1] in ("as_ref", "as_mut", "as_deref"):
                    p = op_place(rv["a"][0])
                    continue
                return None
            if rv[0] == "use":
                p = op_place(rv[1])
                continue
            if rv[0] == "ref":
                p = rv[2]
                continue
            return None
        return None

    def report(self, rule, block, origin, what):
        key = (rule, what if rule == "stop" else self.origin_name(origin))
        if key not in self.reports:
            self.reports[key] = (block, origin, what)

    def origin_name(self, o):
        if o < 0:
            return f"argument {-o}"
        return self.body.blocks[o]["t"][1].get("f", "?")


CTX_TYPES = (CTX, "mir::interpreter::Interpreter")


def holds_ctx(F, f):
    """The function (or the closure's owner) receives an evaluation context."""
    m = F.fns[f]
    b = F.body(f)
    for i in range(1, b.args + 1):
        t = b.locals[i]
        row = F.types[t]
        if row["k"] in ("ref", "refmut") and row["a"]:
            row = F.types[row["a"][-1]]
        if row["k"] == "adt" and row["d"] in CTX_TYPES:
            return True
    if m["kind"] == "closure" and b.args >= 1:
        # captured context, not one the closure makes itself
        if any(F.types[l].get("d") in CTX_TYPES for l in b.locals):
            return False
        for l in b.locals:
            row = F.types[l]
            if row["k"] in ("ref", "refmut") and row["a"] and F.types[row["a"][-1]].get("d") in CTX_TYPES:
                return True
    return False


class Gate(PathFlow):
    """User state: (admitted, frozenset of (local, kind)) ; collects the calls made unadmitted."""

    def __init__(self, body, M):
        super().__init__(body)
        self.M = M
        self.F = body.facts
        self.unguarded = {}

    def init(self):
        return (False, frozenset())

    def stmt(self, block, idx, s, u):
        if s[0] != "=":
            return u
        d, rv = s[1], s[2]
        if rv[0] == "disc" and is_state_place(rv[1]):
            return (u[0], u[1] | {(d[0], "state")})
        if rv[0] == "disc":
            k = dict(u[1]).get(rv[1][0])
            if k in ("res",):
                return (u[0], u[1] | {(d[0], "resdisc")})
        if rv[0] == "use" and op_local(rv[1]) is not None and len(d) == 1:
            k = dict(u[1]).get(op_local(rv[1]))
            if k and len(op_place(rv[1])) == 1:
                return (u[0], u[1] | {(d[0], k)})
        return u

    def call(self, block, c, u):
        f = c.get("f", "")
        decl = c.get("decl") or f
        if not u[0]:
            if f in self.F.fns:
                self.unguarded.setdefault(f, block)
            elif c["res"] == "virtual" and f == "hir::function::Callable::call":
                self.unguarded.setdefault(f, block)
        if f in self.M.admission:
            return (u[0], u[1] | {(c["d"][0], self.M.admission[f])})
        if decl == BRANCH and c["a"] and op_local(c["a"][0]) is not None:
            if dict(u[1]).get(op_local(c["a"][0])) == "res":
                return (u[0], u[1] | {(c["d"][0], "res")})
        row = self.F.types[self.body.locals[c["d"][0]]]
        if row["k"] == "adt" and row["d"] in CTX_TYPES and len(c["d"]) == 1:
            return (True, u[1])      # a new execution domain starts out running
        return u

    def edge(self, block, target, value, key, u):
        t = self.body.blocks[block]["t"]
        l = op_local(t[1])
        k = dict(u[1]).get(l)
        if k is None:
            return u
        vals = [v for v, _ in t[2]]
        if value is None:
            rest = [x for x in ("0", "1") if x not in vals]
            value = rest[0] if len(rest) == 1 else None
        ok = {"resdisc": "0", "state": self.M.running_disc, "poisoned?": "0", "running?": "1"}.get(k)
        if ok is not None and value == ok:
            return (True, u[1])
        return u


class Admission(PathFlow):
    """Relation between the execution state and the returned value of a test of the state."""

    def __init__(self, body, M):
        super().__init__(body)
        self.M = M
        self.out = set()

    def init(self):
        return ("?", None, frozenset())

    def stmt(self, block, idx, s, u):
        if s[0] != "=":
            return u
        d, rv = s[1], s[2]
        st, ret, ls = u
        if rv[0] == "disc" and is_state_place(self.deref(rv[1])):
            return (st, ret, ls | {d[0]})
        if d == [0]:
            if rv[0] == "agg":
                return (st, rv[3], ls)
            if rv[0] == "use" and rv[1][0] == "k" and "v" in rv[1][1]:
                return (st, rv[1][1]["v"], ls)
            return (st, "?", ls)
        return u

    def deref(self, p):
        n = 0
        while len(p) > 1 and p[1] == "*" and n < 6:
            ds = self.body.defs().get(p[0], [])
            if len(ds) == 1 and not is_call(ds[0][2]) and ds[0][2][0] == "ref":
                p = ds[0][2][2] + p[2:]
                n += 1
            else:
                break
        return p

    def call(self, block, c, u):
        if c["d"] == [0]:
            return (u[0], "?", u[2])
        return u

    def edge(self, block, target, value, key, u):
        t = self.body.blocks[block]["t"]
        if op_local(t[1]) in u[2]:
            vals = [v for v, _ in t[2]]
            if value is None:
                rest = [x for x in self.M.state_discs if x not in vals]
                if not rest:
                    return None
                value = rest[0] if len(rest) == 1 else None
            if value is not None:
                s = "R" if value == self.M.running_disc else "P"
                if u[0] not in ("?", s):
                    return None
                return (s, u[1], u[2])
        return u

    def ret(self, block, u, node):
        self.out.add((u[0], u[1]))


def admissions(F, M, R):
    """Functions that test the execution state for their caller, with what their result means."""
    M.admission = {}
    for b in F.all_bodies(lambda f: not f.endswith("parser.rs")):
        if not holds_ctx(F, b.name) or b.args != 1:
            continue
        if not any(rv[0] in ("disc", "ref") and ".execution_state:" + CTX in
                   (rv[1] if rv[0] == "disc" else rv[2]) for _, _, _, rv, _ in b.assigns()):
            continue
        rt = b.locals[0]
        s = F.types[rt]["s"]
        fl = Admission(b, M).run()
        R.fn(b)
        if M.is_result(rt):
            bad = sorted(x for x in fl.out if x[0] != "R" and x[1] != "Err")
            R.ob("admission", f"{b.name}|refuses", not bad, b.where(),
                 f"returns {bad} although the state may be poisoned")
            R.ob("admission", f"{b.name}|admits", any(x == ("R", "Ok") for x in fl.out), b.where(),
                 "never admits a running executor")
            if not bad:
                M.admission[b.name] = "res"
        elif s == "bool":
            p = {x[1] for x in fl.out if x[0] != "R"}
            r = {x[1] for x in fl.out if x[0] != "P"}
            ok = p and r and not (p & r) and len(p) == 1 and len(r) == 1
            R.ob("admission", f"{b.name}|decides", bool(ok), b.where(),
                 f"poisoned gives {sorted(map(str, p))}, running gives {sorted(map(str, r))}")
            if ok:
                M.admission[b.name] = "poisoned?" if p == {"1"} else "running?"
    # one level of wrappers
    for b in F.all_bodies(lambda f: not f.endswith("parser.rs")):
        if b.name in M.admission or b.args != 1 or not holds_ctx(F, b.name):
            continue
        fs = [c for _, c in b.calls()]
        if len(fs) == 1 and fs[0].get("f") in M.admission and fs[0]["d"] == [0] and len(b.blocks) <= 6:
            M.admission[b.name] = M.admission[fs[0]["f"]]


def check_gate(F, M, R):
    admissions(F, M, R)
    R.floor("state tests", len(M.admission), 2)
    loops = set(M.mir_loops())
    targets = M.dispatch | loops
    # callers-first: which functions reach guest dispatch without an admission in between
    flows = {}
    for f in M.guest:
        if F.fns[f]["kind"] in ("fn", "closure"):
            try:
                g = Gate(F.body(f), M)
                g.run()
            except TooBig:
                R.bad("gate", f"{f}|too-big", F.body(f).where(), "state bound exceeded")
                continue
            flows[f] = g.unguarded
    dirty = {}
    for f in M.dispatch:
        ung = "hir::function::Callable::call" in flows.get(f, {})
        R.fn(f)
        b = F.body(f)
        blk = flows.get(f, {}).get("hir::function::Callable::call")
        if ung:
            dirty[f] = ("dispatches guest code", blk)
        R.ob("gate", f"{f}|dispatch", not ung, b.where(blk),
             "dispatches to function code without first passing the admission test")
    for f in loops:
        dirty[f] = ("executes MIR", None)
    work = list(dirty)
    while work:
        x = work.pop()
        for y in M.rev.get(x, ()):
            if y in flows and y not in dirty and x in flows[y]:
                dirty[y] = (x, flows[y][x])
                work.append(y)
    # entry points: visible outside the interpreter, or called by code without a context
    n = 0
    for f in sorted(M.guest):
        m = F.fns[f]
        if m["kind"] != "fn" or not holds_ctx(F, f) or m.get("impl_of"):
            continue
        outside = [c for c in M.rev.get(f, ()) if c in F.fns and not holds_ctx(F, F.root_fn(c))
                   and not holds_ctx(F, c)]
        if m.get("trait"):
            continue
        if m["vis"] == "pub" or outside:
            n += 1
            R.fn(f)
            b = F.body(f)
            if f in dirty:
                ch = [f]
                while ch[-1] in dirty and dirty[ch[-1]][0] in F.fns and len(ch) < 12:
                    ch.append(dirty[ch[-1]][0])
                R.bad("gate", f"{f}|entry", b.where(dirty[f][1]),
                      "an entry point reaches guest code without an admission test: " + " -> ".join(ch))
            else:
                R.ob("gate", f"{f}|entry", True, b.where())
    R.floor("entry points", n, 4)


def check_record(F, M, R):
    # writes of the state
    nw = 0
    for b in F.all_bodies(lambda f: not f.endswith("parser.rs")):
        for i, j, p, rv, l in b.assigns():
            if is_state_place(p):
                nw += 1
                R.fn(b)
                ok = M.is_poisoned_value(b, rv)
                R.ob("monotone", f"{b.name}|write", ok, f"{b.meta['file']}:{l}",
                     "writes an execution state that is not a poisoned one")
            if rv[0] in ("ref", "rawptr") and is_state_place(rv[2] if rv[0] == "ref" else rv[1]) and                     (rv[0] == "rawptr" or rv[1] == "mut"):
                R.bad("monotone", f"{b.name}|borrow", f"{b.meta['file']}:{l}",
                      "takes a mutable borrow of the execution state")
            if "*" in p and M.place_is_ctx(b, p):
                R.bad("monotone", f"{b.name}|replace", f"{b.meta['file']}:{l}",
                      "replaces a live evaluation context")
        for i, c in b.calls():
            if is_state_place(c["d"]):
                R.bad("monotone", f"{b.name}|call-write", b.where(i),
                      "writes an execution state of unknown value")
            if c.get("f") in ("core::mem::replace", "core::mem::swap", "core::mem::take"):
                for a in c["a"][:2]:
                    p = op_place(a)
                    if p is not None and len(p) == 1:
                        row = F.types[b.locals[p[0]]]
                        if row["k"] in ("ref", "refmut") and F.types[row["a"][-1]].get("d") in                                 CTX_TYPES + (STATE,):
                            R.bad("monotone", f"{b.name}|replace", b.where(i),
                                  "replaces a live evaluation context or its state")
    R.floor("writes of the poisoned state", nw, 2)
    # mints
    minters = {}
    for b in F.all_bodies(lambda f: not f.endswith("parser.rs")):
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] in POISON_STRUCTS:
                if not any(any(x in F.types[b.locals[k]]["s"] for x in POISON_STRUCTS + (RTE,))
                           for k in range(1, b.args + 1)):
                    minters.setdefault(b.name, []).append((i, None))
    work = list(minters)
    checked = 0
    while work:
        f = work.pop()
        b = F.body(f)
        R.fn(b)
        if holds_ctx(F, f):
            for blk, callee in minters[f]:
                checked += 1
                wb = M.write_blocks(b)
                ok = blk in wb or not (set(b.return_blocks()) & b.reachable(
                    [blk] if callee is None else b.succ[blk], avoid=wb))
                if not ok and M.all_paths_write_before(b, blk, wb):
                    ok = True
                R.ob("record", f"{f}|{callee or 'construction'}", ok, b.where(blk),
                     "a new poisoning error can be returned without poisoning the context")
            continue
        rt = F.types[b.locals[0]]["s"]
        if rt not in POISON_STRUCTS + (RTE,) and "Snapshot" not in rt:
            R.bad("record", f"{f}|no-context", b.where(),
                  "mints a poisoning error without the context it must poison")
            continue
        for g in M.rev.get(f, ()):
            if g not in F.fns or F.fns[g]["kind"] not in ("fn", "closure"):
                continue
            gb = F.body(g)
            for i, c in gb.calls():
                if c.get("f") == f:
                    if g not in minters:
                        minters[g] = []
                        work.append(g)
                    elif holds_ctx(F, g) and g not in work:
                        work.append(g)
                    minters[g].append((i, f))
    R.floor("poisoning errors minted", checked, 2)


def run(F, R, tier):
    M = Model(F)
    check_record(F, M, R)
    check_gate(F, M, R)
    n = 0
    outcomes = 0
    for f in sorted(M.poisoners):
        m = F.fns[f]
        if m["kind"] not in ("fn", "closure") or not holds_ctx(F, f):
            continue
        b = F.body(f)
        try:
            fl = ErrFlow(b, M, True)
            fl.run()
        except TooBig:
            try:
                fl = ErrFlow(b, M, False)
                fl.run()
            except TooBig:
                R.bad("stop", f"{f}|too-big", b.where(), "state bound exceeded")
                continue
        n += 1
        R.fn(b)
        outcomes += fl.outcomes
        for rule in ("stop", "swallow"):
            mine = {k: v for k, v in fl.reports.items() if k[0] == rule}
            if not mine:
                R.ob(rule, f, True, b.where())
            for (_, what), (blk, o, w) in mine.items():
                if rule == "stop":
                    msg = (f"may run guest code ({w}) although the outcome of {fl.origin_name(o)} "
                           "can be a poisoning error")
                else:
                    msg = f"discards an outcome of {what} that can be a poisoning error ({w})"
                R.bad(rule, f"{f}|{what}", b.where(blk), msg)
    audits(F, R)
    R.floor("functions holding the context that can see a poisoning error", n, 60)
    R.floor("tracked outcomes", outcomes, 150)


def audits(F, R):
    """Audits of the storage panic when cleanup left something behind. A poisoning error skips
    cleanup, so on a path that carries an error they must follow a test that it does not poison:
    otherwise the panic replaces the violation the host is owed."""
    audit = {p for p in F.fns if "assert_no_owned" in p.rsplit("::", 1)[-1]}
    n = 0
    for b in F.all_bodies(lambda f: f.startswith("src/")):
        sites = [i for i, c in b.calls() if c.get("f") in audit]
        if not sites:
            continue
        R.fn(b)
        tests = {c["d"][0] for i, c in b.calls() if c.get("f") == "eval::RuntimeError::is_poisoning"}
        ok_edges = bool_edges(b, lambda o, i: negations(
            b, o, lambda p, rv: p is not None and len(p) == 1 and p[0] in tests), False)
        errs = set()
        for i, bl in enumerate(b.blocks):
            if bl["c"] or bl["t"][0] != "switch":
                continue
            l = op_local(bl["t"][1])
            for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
                if not is_call(rv) and rv[0] == "disc":
                    t = F.types[rv[2]]["s"]
                    if t.startswith("core::result::Result<") and t.endswith("eval::RuntimeError>"):
                        tg = dict(bl["t"][2])
                        e = tg.get("1", bl["t"][3])
                        if binds_err(b, i, e, {x for x in list(tg.values()) + [bl["t"][3]] if x != e}, rv[1][0]):
                            errs.add(e)
        r = reach_avoiding(b, errs, (), ok_edges)
        for i in sites:
            n += 1
            R.ob("audit", f"{b.name}|{'error path' if i in r else 'normal path'}", i not in r, b.where(i),
                 "a storage audit can panic in place of a sandbox violation: it runs on an error path without a test that the error does not poison")
    R.floor("storage audits", n, 4)


def binds_err(b, block, arm, others, base):
    """The arm takes the error out (a test repeated for dropping the rest of the value does not)."""
    redef = {d[0] for d in b.defs().get(base, [])}
    mine = b.reachable([arm], avoid=redef | {block}) - b.reachable(list(others), avoid=(block, arm))
    for i in mine:
        for s in b.blocks[i]["s"]:
            if s[0] == "=":
                for q in rv_places(s[2]):
                    if q[0] == base and "as Err" in q:
                        return True
    return False
