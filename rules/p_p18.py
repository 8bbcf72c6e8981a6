"""P18: optimizer passes account for the writes, effects and obligations of every kind of operation."""
from facts import *
from canon import last, elem, alternatives
from kinds import Kinds, KFrame, OPK, subs
from imply import Imp

EXPLANATION = """The optimizer's models of single operations, decided on MIR for every kind of operation separately (the kind is
fixed, branches on other kinds cannot be taken, and helpers, closures and loops are followed). `writes`: each operand an
operation kind writes is dealt with on every path by each pass that tracks the contents of places (available calls, loop
writes, copy forwarding, constant folding, relations), either by the pass's transfer function or by the escape scan it starts
from; operands that name nothing tracked are exempt. `keep`: what an invalidation keeps cannot depend on the written root.
`class`: which kinds of operations a classification may accept (side-effect free, returning, frame-neutral, reading, re-usable).
`gate`: what must hold of a call before it is re-used, hoisted, deleted or evaluated early."""

P = "mir::pass::"
# the operands an operation of each kind writes
WRITES = [("Store", 1), ("Memcpy", 1), ("Move", 0), ("Move", 1), ("Clone", 1), ("Clear", 0), ("Drop", 0), ("DropClosureEnv", 0),
          ("BuildArray", "last"), ("Call", "result"), ("Call", "args")]
SCOPED = [("Project", "all"), ("EndProject", "all")]
HOLDS = [("BuildSubscript", "all"), ("BuildClosure", "all")]


def known_call(K, fr, kind, x):
    """A call that is looked up only reads its arguments (its result is dealt with separately)."""
    if kind == "variant" and x[1] == "Some" and K.want in ("args", "all") and x[0][0] == "call" and last(x[0][1]) == "call_expression":
        return True


def modelled(K, fr, kind, x):
    """Constant folding declares no mutation modelled."""
    if kind == "call" and last(x.get("f", "?")) == "call" and x.get("f") not in K.F.fns:
        return True


def failed_operands(K, fr, kind, x):
    if kind == "variant" and x[1] == "Some" and x[0][0] == "call" and last(x[0][1]) == "call_operands":
        return True
    return modelled(K, fr, kind, x)


def unknown_call(K, fr, kind, x):
    if kind == "variant" and x[1] == "Some" and x[0][0] == "call" and last(x[0][1]) == "call_operands":
        return True


SCAN = P + "dataflow::escaping_roots"
MODELS = [
    ("available calls", P + "cse::transfer", dict(sinks=("forget_write", "forget_root", "clear"), result=("output",), atoms=known_call),
     WRITES + SCOPED + [("StackRestore", "all")], None),
    ("loop writes", P + "licm::record_writes", dict(sinks=("push",), none=("root_of",)),
     WRITES + SCOPED + HOLDS + [("Call", "owned")], None),
    ("copy forwarding", P + "copy_forward::note_operation", dict(sinks=("write", "unsafe_use"), none=("get_mut",)),
     WRITES + SCOPED + HOLDS + [("CloneClosureEnv", "all")], None),
    ("constant folding", P + "dataflow::transfer",
     dict(sinks=("set_place", "forget_within"), none=("place_of", "call_operands"), true=("contains",)),
     WRITES + SCOPED + HOLDS + [("CloneClosureEnv", "all")], modelled),
    ("relations", P + "relations::transfer",
     dict(sinks=("define",), none=("tracked_place", "call_operands"), variants=("ArrayIndex", "ArrayOffsetUnchecked")),
     WRITES + SCOPED + HOLDS + [("CloneClosureEnv", "all")], lambda *a: None),
]
LOCAL_SINKS = {"forget_write", "forget_root", "write", "unsafe_use", "set_place", "forget_within", "define"}


def run(F, R, tier):
    writes(F, R)
    induction(F, R)
    keep(F, R)
    classes(F, R)
    gates(F, R)


def scan_body(F):
    """The part of the escape scan that matches on the kind of one operation."""
    best = None
    for f in [SCAN] + [g for g in F.fns if g.startswith(SCAN + "::{closure")]:
        b = F.body(f)
        if b is None:
            continue
        n = sum(1 for i in b.live if b.blocks[i]["t"][0] == "switch" and len(b.blocks[i]["t"][2]) >= 10)
        if n and (best is None or len(b.blocks) > len(best.blocks)):
            best = b
    return best


def writes(F, R):
    names = {last(f) for f in F.fns}
    scan = scan_body(F)
    models = 0
    for what, f, cfg, kinds, extra in MODELS:
        b = F.body(f)
        if b is None or not (cfg["sinks"][0] in names or cfg["sinks"][0] not in LOCAL_SINKS):
            R.note(f"{what}: no model named {f}")
            continue
        models += 1
        R.fn(b)
        for kind, want in kinds:
            K = Kinds(F, kind, want, **cfg)
            r = K.done(K.frame(b))
            ok, where = r is None, b.where(r if r is not None else 0)
            if not ok and extra is not None and scan is not None:
                R.fn(scan)
                S = Kinds(F, kind, want, sinks=("insert",), none=("root_of",), atoms=extra)
                q = S.done(S.frame(scan))
                ok = q is None
            R.ob("writes", f"{what}|{kind}|{want}", ok, where, f"{what}: a path ignores that {kind} writes its {text(want)}")
        # calls whose operands cannot be told apart
        if extra is not None and scan is not None:
            S = Kinds(F, "Call", "all", sinks=("insert",), none=("root_of",),
                      atoms=lambda K, fr, k, x, e=extra: unknown_call(K, fr, k, x) or e(K, fr, k, x))
            q = S.done(S.frame(scan))
            R.ob("writes", f"{what}|Call|unknown", q is None, scan.where(q or 0), f"{what}: a call whose operands are unknown does not escape them")
    R.floor("models of operations", models, 3)
    # the claim under which folding uses the scan
    n = 0
    for f in F.fns:
        if not f.startswith(P + "dataflow::") and not f.startswith(P + "fold::"):
            continue
        b = F.body(f)
        for i, c in b.calls():
            if i in b.live and c.get("f") == SCAN and len(c["a"]) == 2:
                fr = KFrame(F, b)
                for t in alternatives(fr.op(c["a"][1])):
                    if t[0] != "clo":
                        continue
                    n += 1
                    cb = F.body(t[1])
                    never = Imp(F, lambda *a: None).bool(KFrame(F, cb, {}, t[2]), ["c", [0]], True)
                    R.ob("writes", f"folding claim|{f}", never, b.where(i), "constant folding claims to model mutations that its transfer does not")


def text(w):
    return {"last": "last operand", "result": "result", "args": "mutable arguments", "owned": "owned arguments", "all": "operands"}.get(w, f"operand {w}")


def induction(F, R):
    """A loop's induction variable is trusted only when nothing else writes it."""
    b = F.body(P + "relations::writes_into")
    if b is not None:
        R.fn(b)
        for kind, want in WRITES + SCOPED + HOLDS:
            if (kind, want) == ("Move", 0):
                continue        # a place moved from is written before it is read again
            K = Kinds(F, kind, want, false=("eq",))
            ok = K.bool(K.frame(b), ["c", [0]], False)
            R.ob("writes", f"writes_into|{kind}|{want}", ok, b.where(0), f"{kind} is said not to write a root although its {text(want)} may be inside it")
    b = F.body(P + "provenance::derive_repeatable")
    if b is not None:
        R.fn(b)


def keep(F, R):
    """What an invalidation keeps is independent of the written root."""
    n = 0
    for name in ("forget_write", "forget_root"):
        b = F.body(P + "cse::" + name)
        if b is None:
            continue
        R.fn(b)
        fr = KFrame(F, b)
        for i, c in b.calls():
            if i not in b.live or last(c.get("f", "?")) != "retain" or len(c["a"]) < 2:
                continue
            for goal in ("output_root", "dependencies", "root"):
                if goal == "root" and name == "forget_write":
                    continue
                for t in alternatives(fr.op(c["a"][1])):
                    if t[0] != "clo":
                        continue
                    cb = F.body(t[1])

                    def atom(g, kind, x, goal=goal):
                        if kind == "variant" and x[1] in ("Addressor", "Value"):
                            return (x[1] == "Value") == (goal == "root")
                        if kind == "call" and last(x.get("f", "?")) in ("eq", "ne", "contains"):
                            ts = [g.op(a) for a in x["a"]]
                            parts = {y[2].split(".")[-1] for u in ts for y in subs(u) if y[0] == "f" and y[2].startswith(("Value.", "Addressor."))}
                            if parts == {goal}:
                                return last(x["f"]) == "ne"
                        return None
                    n += 1
                    ok = Imp(F, atom).bool(KFrame(F, cb, {}, t[2]), ["c", [0]], True)
                    R.ob("keep", f"{name}|{goal}|{n}", ok, b.where(i), f"an available call is kept although its {goal} may be the root that was written")
    R.floor("kept entries", n, 4)


def all_kinds(F):
    return sorted(set(F.variant_by_disc(OPK).values()))


ACCEPT = [
    # function, answer, the kinds that may give it
    (P + "cse::Computation::of", "some", {"Subfield", "DictEntry"}, "is re-used like a computation without effect"),
    (P + "dead_store::whole_place_write_index", "some", {"Store", "Memcpy", "Call"}, "is taken for a complete write of a place"),
    (P + "dead_store::is_exact_place_read", True, {"Load", "Memcpy", "Move"}, "is taken for a complete read of a place"),
    (P + "dce::is_exact_clone_lifetime_role", True, {"Clone", "Drop", "Clear", "Store", "Memcpy", "Move", "BuildArray", "Call"},
     "is taken for a part of a clone's lifetime"),
    (P + "dce::may_leave_frame_storage", False,
     {"CompareEqual", "Load", "Subfield", "BuildSubscript", "Variant", "BuildArray", "ExtractTag", "Store", "Clear", "Memcpy", "Move", "StackSave",
      "StackRestore", "CheckCallDepth", "CheckFuel", "Clone", "BuildClosure", "CloneClosureEnv", "DropClosureEnv", "Call"},
     "is said to leave no storage in the frame"),
    (P + "will_return::operation_returns", True,
     {"Call", "Clone", "Drop", "Alloca", "AllocaPlace", "CompareEqual", "Load", "Subfield", "DictEntry", "SubscriptMember", "BuildSubscript", "Variant",
      "BuildArray", "ExtractTag", "Store", "Clear", "Memcpy", "Move", "StackSave", "StackRestore", "CheckCallDepth", "CheckFuel", "BuildClosure"},
     "is said to return although it may run guest code"),
    ("mir::operation::Operation::result_requires_consuming_use", False, None, "may be deleted although its result owns a value"),
]


def classes(F, R):
    n = 0
    for f, answer, allowed, msg in ACCEPT:
        b = F.body(f)
        if b is None:
            R.note(f"no classification named {f}")
            continue
        R.fn(b)
        n += 1
        for kind in all_kinds(F):
            if (kind in allowed) if allowed is not None else (kind not in ("Variant", "CloneClosureEnv")):
                continue
            K = Kinds(F, kind)
            fr = K.frame(b)
            ok = K.some(fr, ["c", [0]]) if answer == "some" else K.bool(fr, ["c", [0]], answer)
            R.ob("class", f"{last(f)}|{kind}", ok, b.where(0), f"{kind} {msg}")
    R.floor("classifications", n, 3)
    b = F.body(P + "will_return::operation_returns")
    if b is not None:
        for kind, k in (("Call", 0), ("Clone", 2), ("Drop", 1)):
            K = Kinds(F, kind, k, true=("call",))
            ok = K.bool(K.frame(b), ["c", [0]], True)
            R.ob("class", f"operation_returns|callee of {kind}", ok, b.where(0), f"{kind} is said to return although its callee was not shown to")
    b = F.body(P + "dce::may_leave_frame_storage")
    if b is not None:
        K = Kinds(F, "Call", "all", values=("Subscript",))
        R.ob("class", "may_leave_frame_storage|Call", K.bool(K.frame(b), ["c", [0]], False), b.where(0),
             "a call with a symbolic subscript is said to leave no storage in the frame")
    b = F.body(P + "dead_store::is_exact_place_read")
    if b is not None:
        def first(fr, kind, x):
            if kind == "bin" and ("k", "0") in (fr.op(x[2]), fr.op(x[3])):
                return x[1] == "Eq"
        R.ob("class", "is_exact_place_read|position", Imp(F, first).bool(KFrame(F, b), ["c", [0]], True), b.where(0),
             "an operand other than the source is taken for a read")
    b = F.body("mir::operation::Operation::source_fallibility")
    if b is not None:
        R.fn(b)
        for kind, goal in (("EndProject", None), ("Call", "Fallible"), ("Call", "variables"), ("Project", "Fallible"), ("Project", "variables")):
            def atoms(K, fr, k, x, goal=goal):
                if k == "call":
                    return effect_atom(fr, x, goal)
            K = Kinds(F, kind, atoms=atoms)
            fr = K.frame(b)
            sites = [i for i, j, p, rv, l in b.assigns() if i in b.live and p == [0] and rv[0] == "agg" and rv[3] == "Infallible"]
            for i in sites:
                R.ob("class", f"source_fallibility|{kind}|{goal}", K.at(fr, i), b.where(i), f"{kind} may be called infallible although it can fail")


class Effects(Imp):
    """Follows a test of each effect of a list."""

    def __init__(self, F, goal):
        super().__init__(F, lambda fr, k, x: effect_atom(fr, x, goal) if k == "call" else None)
        self.goal = goal

    def rv_bool(self, fr, rv, want):
        if is_call(rv) and rv.get("f") not in self.F.fns and last(rv.get("f", "?")) == ("all" if want else "any"):
            t = fr.op(rv["a"][0])
            if any(y[0] == "agg" and y[2] == self.goal for y in subs(t)):
                return self.inner(fr, rv, 1, [elem(t)], "bool", want)
        return super().rv_bool(fr, rv, want)


def effect_atom(fr, x, goal):
    """True or False when the call being so rules the effect out."""
    n = last(x.get("f", "?"))
    if goal == "variables" and n == "has_variables":
        return False
    if n == "contains" and any(y[0] == "agg" and y[2] == goal for a in x["a"] for y in subs(fr.op(a))):
        return False
    if n == "is_empty" and any(y[0] == "call" and last(y[1]) == "effects" for a in x["a"] for y in subs(fr.op(a))):
        return True
    return None


# -- conditions on calls -------------------------------------------------------------------------------
def condition(F, goal, also=()):
    def atom(K, fr, kind, x):
        for g in (goal,) + tuple(also):
            r = one(K, fr, kind, x, g)
            if r is not None:
                return r
    return atom


def one(K, fr, kind, x, goal):
    if kind == "call":
        n = last(x.get("f", "?"))
        if goal == "effects" and n == "is_empty":
            return True if any(y[0] == "call" and last(y[1]) == "effects" or y[0] == "f" and y[2].endswith("effects")
                               for a in x["a"] for y in subs(fr.op(a))) else None
        if goal == "value" and n in ("eq", "ne"):
            ts = [fr.op(a) for a in x["a"]]
            if any(t[0] == "f" and t[2].endswith("result_convention") for t in ts) and any(t[0] == "agg" and t[2] == "Value" for t in ts):
                return n == "eq"
        if goal == "trivial" and n in ("concrete_type_is_trivial_copy",):
            return True
        if goal == "owned" and n == "is_empty" and any(y[0] == "f" and y[2].endswith("owned_arguments") for a in x["a"] for y in subs(fr.op(a))):
            return True
        if goal == "extras" and n == "is_empty" and any(y[0] == "f" and y[2].endswith("extras") for a in x["a"] for y in subs(fr.op(a))):
            return True
        if goal == "pure" and n == "effects_allow_const_eval":
            return True
        if goal == "returns" and n in ("call", "call_mut", "call_once") and x.get("f") not in K.F.fns and fr.op(x["a"][0])[0] == "arg" \
                and fr.b.tys(x["d"][0]) == "bool":
            return True
        if goal == "total" and n == "is_total_and_speculatable":
            return True
        if goal == "apart" and n == "contains":
            return False
    if kind == "place" and goal == "repeatable" and x[0] == "f" and x[2] == "repeatable":
        return True
    if kind == "place" and x[0] == "call" and last(x[1]) in ("or_insert_with", "get_or_insert_with") and x[-1][0] == "clo":
        return True if K.callee(fr, x[-1], [], "bool", True) else None      # a memoized answer
    if kind == "variant":
        t, name = x
        if goal == "owned" and name == "None" and all(y[0] == "f" and y[2].endswith("metadata") for y in alternatives(t)):
            return True
        if goal == "value" and name == "Value" and all(y[0] == "f" and y[2].endswith("result_convention") for y in alternatives(t)):
            return True
        if goal == "direct" and name == "Function" and any(y[0] == "f" and y[2] == "callee" for y in subs(t)):
            return True
    return None


GATES = [
    (P + "licm::eligible_call", "some", [("effects",), ("value",), ("trivial",), ("owned",), ("let",), ("direct",), ("returns",)], "hoisted out of a loop"),
    (P + "cse::call_expression", "some", [("pure",), ("owned",), ("direct",), ("repeatable", "trivial"), ("repeatable", "let"), ("repeatable", "apart")],
     "replaced by the result of an earlier one"),
    (P + "dce::remove_dead_proven_calls", "insert", [("effects",), ("value",), ("direct",), ("total", "owned"), ("total", "extras"), ("total", "let"),
                                                     ("total", "trivial"), ("total", "returns")], "deleted when its result is unused"),
]
WORDS = {"effects": "having no effects", "value": "returning a value", "trivial": "a trivially copied result", "owned": "owning no argument",
         "let": "borrowing every argument", "direct": "a known callee", "returns": "a callee that returns", "pure": "only admissible effects",
         "repeatable": "being a repeatable address", "apart": "a result apart from its inputs", "total": "a total callee", "extras": "no hidden evidence"}


def gates(F, R):
    n = 0
    for f, answer, goals, what in GATES:
        b = F.body(f)
        if b is None:
            R.note(f"no gate named {f}")
            continue
        R.fn(b)
        for goal in goals:
            K = Kinds(F, "Call", "args" if "let" in goal else None, atoms=condition(F, goal[0], goal[1:]))
            fr = K.frame(b)
            words = " or ".join(WORDS[g] for g in goal)
            if answer == "some":
                n += 1
                R.ob("gate", f"{last(f)}|{'|'.join(goal)}", K.some(fr, ["c", [0]]), b.where(0), f"a call may be {what} without {words}")
                continue
            for i, c in b.calls():
                if i in b.live and last(c.get("f", "?")) == "insert" and "HashMap" in c["f"]:
                    n += 1
                    R.ob("gate", f"{last(f)}|{'|'.join(goal)}", K.at(fr, i), b.where(i), f"a call may be {what} without {words}")
    R.floor("conditions on calls", n, 6)
    b = F.body("mir::const_eval::effects_allow_const_eval")
    if b is not None:
        R.fn(b)
        for goal in ("Read", "Write", "variables"):
            ok = Effects(F, goal).bool(KFrame(F, b), ["c", [0]], True)
            R.ob("gate", f"effects_allow_const_eval|{goal}", ok, b.where(0), f"calls with the effect {goal} may be evaluated early or re-used")
