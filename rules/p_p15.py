"""Effect accounting: what an expression can do is in its inferred effects."""
import os
import re
from facts import *
from common import *
import arms
import terms
import gates
from effslice import EffSlice
from p_p06 import ok_edges_of

EXPLANATION = (
    "Every place where inference or a generated body builds a HIR node, a (node, effects) result or a pending function "
    "is enumerated. A backward slice over the MIR lists the evaluations the node contains (calls that turned an AST "
    "expression into a node) and the evaluations its effect operand was computed from; the first must be among the "
    "second, across function boundaries through parameters. For call nodes, the effect field of the called callable's "
    "type must be among them too. Effects are dropped only under the standard-library gate. Natives whose Rust output "
    "type is fallible, or whose callback constructs a source failure, must be registered with the fallible effect, or sit "
    "at a trait method the prelude declares fallible. The effects of each method of an implementation are constrained "
    "to the trait's in every iteration and the error is propagated. In the effect solver, every path that accepts an "
    "inclusion lower <= upper passes a test or records a constraint for lower's primitives and for its variables.")

STD = "STD_MODULE_ID"
SCOPE = ("types::type_inference::", "hir::r#match::", "hir::emit_functions::", "hir::emit_expr::", "hir::emit_hir::",
         "hir::emit_subscripts::", "hir::emit_associated_consts::")
CALLS = {"FunctionApply", "SubscriptApply", "StaticApply", "TraitMethodApply", "CallDictionaryFunction"}
NEW = "hir::Node::<P>::new"


def run(F, R, tier):
    stop = {a for a in F.adts if a.rsplit("::", 1)[-1] in ("TypingEnv", "TypeInference", "UnifiedTypeInference", "ModuleEnv", "Module",
                                                           "TraitSolver", "NodeArena", "Trait")}
    E = EffSlice(F, stop)
    need = []
    bodies = [b for b in F.all_bodies() if F.root_fn(b.name).startswith(SCOPE) or "TypeInference>::" in b.name]
    n = m = 0
    for b in bodies:
        for i, node, eff, what, line in sites(F, E, b):
            n += 1
            R.fn(b)
            X = Account(E, b, [eff], i)
            items = {s for s in E.sources(b, node) if s[0] != "callee"}
            for v, fb, op, ln in call_kinds(F, E, b, node):
                m += 1
                if op_place(op):
                    items |= {("callee",) + x for x in E.births(b, op_place(op))}
            key = F.root_fn(b.name).rsplit("::", 1)[-1] + "|" + what
            discharge(F, R, b, key, f"{b.meta['file']}:{line}", items, X, need)
    R.floor("nodes, results and functions built", n, 80)
    R.floor("call nodes", m, 10)
    callers(F, R, E, need)
    impl_natives(F, R, natives(F, R), os.environ.get("VERIF_REPO", "/repo"))
    trait_impls(F, R)
    inclusions(F, R)
    mutable_arguments(F, R)
    combination(F, R)


class Account:
    """What an effect operand accounts for: an evaluation made in this body must be in it on every branch taken after
    the evaluation; anything else must be in it on some branch."""

    def __init__(self, E, b, ops, use):
        self.E, self.b, self.ops, self.use = E, b, ops, use
        self.may = set().union(*[E.sources(b, o) for o in ops]) if ops else set()

    def __contains__(self, s):
        if s not in self.may:
            return False
        k = s[1:] if s[0] == "callee" else s
        if s[0] == "callee":
            at = k[2] if k[0] in ("made", "fresh") and k[1] == self.b.name else 0
            return any(("callee",) in self.E.certain(self.b, o, at, self.use) for o in self.ops)
        if k[0] == "eval" and k[1] == self.b.name:
            return any(s in self.E.certain(self.b, o, k[2], self.use) for o in self.ops)
        return True


def discharge(F, R, b, key, where, items, X, need):
    """Everything the node contains is among what its effects were computed from."""
    miss = {s for s in items if s not in X}
    bad = False
    params = frozenset(x[2] for x in X.may if x[0] == "param" and x[1] == b.name)
    for s in sorted(miss, key=str):
        par = s if s[0] == "param" else s[1:] if s[:2] == ("callee", "param") else None
        if par and par[1] == b.name:
            need.append((b.name, s[0], par[2], par[3] if len(par) > 3 else "", params, key, where))
            continue
        bad = True
        if s[0] == "eval":
            R.bad("children", f"{key}|{callee_name(F, s)}", where,
                  f"the effects of the expression evaluated by {callee_name(F, s)} at {F.body(s[1]).where(s[2])} are not "
                  f"among the effects of the {key.split('|')[1]} that contains it")
        elif s[0] == "callee":
            R.bad("callee", key, where, "the effects of the called function's type are not among the effects of the call")
        else:
            R.bad("children", f"{key}|{s[0]}", where, f"the effects of {s} are not among the effects of the node that contains it")
    if not bad:
        R.ob("children", key, True, where, "")


def callers(F, R, E, need):
    """Nodes built from a parameter whose effects arrive in another parameter: the callers pass matching ones."""
    std = gates.std_gate(F)
    done = set()
    n = 0
    while need:
        f, kind, par, fld, effs, key, where = need.pop()
        if (f, kind, par, fld, effs) in done:
            continue
        done.add((f, kind, par, fld, effs))
        sites = std.callers(f)
        if not sites or "::{closure#" in f:
            R.bad("children", f"{key}|param", where, f"effects of parameter {par} of {f} are not accounted for")
            continue
        for cb, i in sites:
            if i not in cb.live:
                continue
            n += 1
            c = cb.blocks[i]["t"][1]
            ck = F.root_fn(cb.name).rsplit("::", 1)[-1] + "|" + f.rsplit("::", 1)[-1]
            cw = cb.where(i)
            if not effs:
                R.ob("unsafe", ck, std.holds_at(cb, i, 0), cw,
                     f"{f.rsplit('::', 1)[-1]} drops the effects of an expression outside the standard library")
                continue
            op = c["a"][par - 1]
            q = op_place(op)
            if kind == "callee":
                items = {("callee",) + x for x in E.births(cb, q)} if q else set()
            else:
                items = {s for s in E.sources(cb, op) if s[0] != "callee"}
            X = Account(E, cb, [c["a"][e - 1] for e in effs], i)
            discharge(F, R, cb, ck, cw, items, X, need)
    R.floor("hand-over sites", n, 8)


def callee_name(F, s):
    c = F.body(s[1]).blocks[s[2]]["t"][1]
    return c.get("f", "?").rsplit("::", 1)[-1]


def call_kinds(F, E, b, op):
    """Call nodes built in this body that the operand contains: (kind, block, callable type operand, line)."""
    out = []
    seen = set()
    work = [op_place(op)] if op_place(op) else []
    while work:
        p = work.pop()
        l = p[0]
        if l in seen or "node" not in E.carries(b, l):
            continue
        seen.add(l)
        for i, j, rv, q in b.defs().get(l, []):
            if is_call(rv):
                for a in rv["a"]:
                    if op_place(a):
                        work.append(op_place(a))
            else:
                if rv[0] == "agg" and rv[1] == "adt" and rv[2] in CALL_STRUCTS:
                    names = rv[5] or []
                    if "ty" in names:
                        out.append((rv[2].rsplit("::", 1)[-1], i, rv[4][names.index("ty")], b.line(i)))
                for x in rv_places(rv):
                    work.append(x)
    return out


CALL_STRUCTS = {"hir::FunctionApplication", "hir::StaticApplication", "hir::SubscriptApplication", "hir::TraitMethodApplication"}


def sites(F, E, b):
    """(block, node operand, effects operand, what, line)"""
    live = b.live
    for i, c in b.calls():
        if i not in live:
            continue
        f = c.get("f", "")
        if f == NEW:
            yield i, c["a"][0], c["a"][2], "Node", b.line(i)
        elif f.endswith("PendingModuleFunction::from_body") or f.endswith("PendingModuleFunction::from_body_with_name"):
            k = 0 if f.endswith("from_body") else 1
            yield i, c["a"][k + 1], c["a"][k], "function", b.line(i)
    for i, j, p, rv, ln in b.assigns():
        if i not in live or rv[0] != "agg" or rv[1] not in ("tuple", "adt"):
            continue
        if rv[1] == "adt" and (rv[2] not in F.adts or rv[3] in ("Ok", "Err", "Some")):
            continue
        nodes, effs = [], []
        for o in rv[4]:
            q = op_place(o)
            if not q:
                continue
            k = E.C.of(place_ty(F, b, q))
            if "node" in k and "eff" not in k:
                nodes.append(o)
            elif F.types[place_ty(F, b, q)]["s"] == "types::effects::EffType":
                effs.append(o)
        if nodes and effs:
            for o in nodes:
                yield i, o, effs[0], "result", ln


def place_ty(F, b, q):
    if len(q) == 1:
        return b.locals[q[0]]
    return b.locals[q[0]]


# ---- natives -------------------------------------------------------------------------------------------------

PRIM = "types::effects::PrimitiveEffect"


def prims_of(F, b, op, depth=0, seen=None):
    """PrimitiveEffect variants that flow into an operand, through constructor calls and local helpers."""
    out = set()
    seen = set() if seen is None else seen
    if op[0] == "k":
        v = str(op[1].get("str") or op[1].get("v") or "")
        t = op[1].get("t")
        if isinstance(t, int) and F.types[t]["s"].endswith("PrimitiveEffect"):
            out.add(v)
        if op[1].get("prom") is not None and depth < 4:
            pb = promoted(F, b, op[1])
            if pb is not None:
                out |= prims_of(F, pb, ["c", [0]], depth + 1, seen)
        return out
    work = [op[1][0]]
    while work:
        l = work.pop()
        if (b.name, l) in seen:
            continue
        seen.add((b.name, l))
        for i, j, rv, q in b.defs().get(l, []):
            if is_call(rv):
                for a in rv["a"]:
                    out |= prims_of(F, b, a, depth, seen)
                f = rv.get("f")
                if f in F.fns and depth < 4 and F.body(f).args <= 1 and not is_generic_ctor(f):
                    out |= prims_of(F, F.body(f), ["c", [0]], depth + 1, seen)
            else:
                if rv[0] == "agg" and rv[1] == "adt" and rv[2] == PRIM:
                    out.add(rv[3])
                for o in rv_operands(rv):
                    out |= prims_of(F, b, o, depth, seen)
                for x in rv_places(rv):
                    work.append(x[0])
    return out


def is_generic_ctor(f):
    return f.rsplit("::", 1)[-1] in ("new", "deref", "clone")


def promoted(F, b, k):
    n = f"{b.name}::{{promoted#{k['prom']}}}"
    return F.body(n) if n in F.fns else None


def natives(F, R):
    """A native whose Rust implementation can return an error is declared fallible where it is registered."""
    n = 0
    arrays = []
    for b in F.all_bodies():
        if b.name.startswith("hir::function::"):
            continue
        for i, c in b.calls():
            if i not in b.live:
                continue
            f = c.get("f", "")
            if "NativeFn" not in f:
                continue
            ta = [F.types[t]["s"] for t in c.get("ta") or [] if isinstance(t, int)]
            short = f.rsplit("::", 1)[-1]
            fall = any("Fallible<" in t for t in ta)
            if fall and short != "new":
                n += 1
                R.fn(b)
                ok = "Fallible" in set().union(*[prims_of(F, b, a) for a in c["a"][1:]])
                R.ob("native", f"{F.root_fn(b.name)}|{native_name(b, c)}", ok, b.where(i),
                     f"{native_name(b, c)} can fail but is registered without the fallible effect")
            elif fall:
                arrays.append((b, i, c))
            elif "ContextNativeFn" in f and short == "new" and can_fail(F, b, c["a"][-1]):
                n += 1
                R.fn(b)
                ok = any("Fallible" in prims_of(F, b, a) for _, d in b.calls() for a in d["a"]
                         if op_place(a) and F.types[b.locals[op_place(a)[0]]]["s"].endswith("EffType"))
                R.ob("native", f"{F.root_fn(b.name)}|context native", ok, b.where(i),
                     "a native that reports errors is registered without the fallible effect")
    R.floor("natives that can fail and are registered with a declared type", n, 9)
    return arrays


def native_name(b, c):
    a = c["a"][0]
    p = op_place(a)
    if p:
        for i, j, rv, q in b.defs().get(p[0], []):
            if not is_call(rv) and rv[0] == "cast" and rv[2][0] == "k":
                return str(rv[2][1].get("fn") or rv[2][1].get("def") or "closure").rsplit("::", 1)[-1]
            if not is_call(rv) and rv[0] == "agg":
                return str(rv[2]).rsplit("::", 1)[-1]
    return c["f"].rsplit("::", 2)[-2]


def fn_values(F, b, op):
    """Functions and closures an operand may be."""
    out = set()
    work = [op]
    seen = set()
    while work:
        o = work.pop()
        if o[0] == "k":
            f = o[1].get("fn") or o[1].get("def")
            if f:
                out.add(f)
            t = o[1].get("t")
            if isinstance(t, int) and F.types[t].get("d") in F.fns:
                out.add(F.types[t]["d"])
            continue
        l = o[1][0]
        if l in seen:
            continue
        seen.add(l)
        row = F.types[b.locals[l]]
        if row.get("d") in F.fns:
            out.add(row["d"])
        for i, j, rv, q in b.defs().get(l, []):
            if not is_call(rv):
                if rv[0] == "agg" and rv[1] == "closure":
                    out.add(rv[2])
                work.extend(rv_operands(rv))
    return {f for f in out if f in F.fns}


def can_fail(F, b, op):
    """The callback constructs a source failure (other than for an argument of the wrong shape)."""
    work = list(fn_values(F, b, op))
    seen = set()
    while work:
        f = work.pop()
        if f in seen:
            continue
        seen.add(f)
        g = F.body(f)
        shape = g.args == 1 and g.tys(1).endswith("ValOrMut")
        for i, j, p, rv, l in g.assigns():
            if i in g.live and rv[0] == "agg" and rv[1] == "adt" and rv[2].endswith("SourceFailureKind") and not shape:
                return True
        for i, c in g.calls():
            h = c.get("f")
            if i in g.live and h in F.fns and h.startswith("std::"):
                work.append(h)
        work.extend(F.closures_of(f))
    return False


FER = re.compile(r"^\s*(?:pub\s+)?trait\s+(\w+)", re.M)


def trait_methods(repo):
    """Trait -> [(method, declared fallible)] from the prelude sources."""
    import glob, os
    out = {}
    for path in sorted(glob.glob(os.path.join(repo, "src/std/**/*.fer"), recursive=True)):
        src = re.sub(r"//[^\n]*", "", open(path).read())
        for m in FER.finditer(src):
            k = src.find("{", m.end())
            depth, e = 0, k
            while e < len(src):
                if src[e] == "{":
                    depth += 1
                elif src[e] == "}":
                    depth -= 1
                    if depth == 0:
                        break
                e += 1
            body = src[k + 1:e]
            ms = []
            for x in re.finditer(r"\bfn\s+(\w+)", body):
                j, d = x.end(), 0
                while j < len(body) and not (body[j] in ";{" and d == 0):
                    d += body[j] in "([" 
                    d -= body[j] in ")]"
                    j += 1
                sig = body[x.end():j]
                # effects after the last closing parenthesis of the argument list
                d, q = 0, 0
                for q, ch in enumerate(sig):
                    d += ch == "("
                    d -= ch == ")"
                    if ch == ")" and d == 0:
                        break
                tail = sig[q + 1:]
                tail = re.sub(r"\([^()]*\)", "", tail)
                ms.append((x.group(1), bool(re.search(r"!.*\bfallible\b", tail, re.S))))
            out[m.group(1)] = ms
    return out


def impl_natives(F, R, arrays, repo):
    """Native trait implementations that can fail sit at a method the trait declares fallible."""
    traits = trait_methods(repo)
    R.floor("traits declared in the prelude", len(traits), 12)
    n = 0
    for b, i, c in arrays:
        slots = array_slots(F, b, c["d"][0])
        for arr, k in slots:
            for ci, cc in b.calls():
                if not any(op_place(a) and holds(b, op_place(a)[0], arr) for a in cc["a"]):
                    continue
                name = trait_name(F, b, cc)
                if name is None:
                    continue
                n += 1
                R.fn(b)
                ms = traits.get(name)
                ok = ms is not None and k < len(ms) and ms[k][1]
                m = ms[k][0] if ms and k < len(ms) else f"#{k}"
                R.ob("native", f"{name}::{m}", ok, b.where(i),
                     f"the native implementation of {name}::{m} can fail but the trait does not declare it fallible")
    R.ob("native", "implementations that can fail are matched to their trait method", n >= len(arrays), "src/std",
         f"{n} of {len(arrays)} fallible native implementations could be matched to a trait method")
    R.floor("native trait methods that can fail", n, 8)


def holds(b, l, arr, depth=0):
    if l == arr:
        return True
    if depth > 6:
        return False
    for i, j, rv, q in b.defs().get(l, []):
        if is_call(rv):
            if rv.get("f", "").rsplit("::", 1)[-1] in ("into_vec", "box_new", "into", "new", "collect", "into_iter", "from", "to_vec", "box_assume_init_into_vec_unsafe", "write_box_via_move"):
                if any(op_place(a) and holds(b, op_place(a)[0], arr, depth + 1) for a in rv["a"]):
                    return True
        elif any(holds(b, x[0], arr, depth + 1) for x in rv_places(rv)):
            return True
    return False


def array_slots(F, b, l):
    """(array local, index) pairs the value of a local is placed at."""
    out = []
    work = [l]
    seen = set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for i, j, p, rv, ln in b.assigns():
            if i not in b.live:
                continue
            if rv[0] == "agg" and rv[1] == "array":
                for k, o in enumerate(rv[4]):
                    if op_local(o) == x:
                        out.append((p[0], k))
            elif any(op_local(o) == x for o in rv_operands(rv)) or any(q[0] == x for q in rv_places(rv)):
                work.append(p[0])
        for i, c in b.calls():
            if i in b.live and any(op_local(a) == x for a in c["a"]):
                work.append(c["d"][0])
    return out


def trait_name(F, b, c):
    """The std trait whose id is looked up by constant name for this registration."""
    for a in c["a"]:
        p = op_place(a)
        if not p or not F.types[b.locals[p[0]]]["s"].endswith("TraitId"):
            continue
        work, seen = [p[0]], set()
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            for i, j, rv, q in b.defs().get(l, []):
                if is_call(rv):
                    for o in rv["a"]:
                        if o[0] == "k":
                            s = const_str(F, o[1])
                            if s:
                                return s
                        else:
                            work.append(o[1][0])
                else:
                    for o in rv_operands(rv):
                        if o[0] == "k":
                            s = const_str(F, o[1])
                            if s:
                                return s
                    work.extend(x[0] for x in rv_places(rv))
    return None


def const_str(F, k):
    if k.get("str"):
        return k["str"]
    d = k.get("def")
    if d and d.endswith("_TRAIT_NAME"):
        base = d.rsplit("::", 1)[-1][:-len("_TRAIT_NAME")]
        return "".join(w.capitalize() for w in base.split("_"))
    v = k.get("v")
    return v if isinstance(v, str) and v.isidentifier() else None


# ---- trait implementations -----------------------------------------------------------------------------------

ORIGIN = "types::type_inference::effect_solver::EffectConstraintOrigin"


def trait_impls(F, R):
    """The effects of every method of an implementation are bounded by the trait's before they are replaced."""
    found = 0
    for b in F.all_bodies():
        for i, j, p, rv, ln in b.assigns():
            if i in b.live and rv[0] == "agg" and rv[1] == "adt" and rv[2] == ORIGIN and rv[3] == "TraitMethodImpl":
                use = [(k, c) for k, c in b.calls() if k in b.live and any(op_local(a) == p[0] for a in c["a"])]
                if "clone" in b.name.rsplit("::", 1)[-1] or not use:
                    continue
                found += 1
                R.fn(b)
                for k, c in use:
                    effs = [a for a in c["a"] if op_place(a) and "EffType" in b.tys(op_place(a)[0])]
                    ok = len(effs) >= 2 and ("fn" in owners(F, b, effs[0])) and ("trait" in owners(F, b, effs[1])) \
                        and "trait" not in owners(F, b, effs[0])
                    R.ob("impl", f"{F.root_fn(b.name).rsplit('::', 1)[-1]}|direction", ok, b.where(k),
                         "the constraint does not bound the implementation's effects by the trait method's")
                    oks = ok_edges_of(F, b, [k])
                    R.ob("impl", f"{F.root_fn(b.name).rsplit('::', 1)[-1]}|reported", bool(oks) or propagated(b, c), b.where(k),
                         "a rejected effect constraint is not reported")
                    scc = next((s for s in b.sccs() if k in s), None)
                    if scc is None:
                        R.bad("impl", f"{F.root_fn(b.name).rsplit('::', 1)[-1]}|loop", b.where(k), "the constraint is not made for every method")
                        continue
                    nexts = [x for x, d in b.calls() if x in scc and d.get("f", "").endswith("::next")]
                    skip = any(x in b.reachable([s for s in b.succ[x] if s in scc], avoid=tuple({k} | (set(range(len(b.blocks))) - set(scc)))) for x in nexts)
                    R.ob("impl", f"{F.root_fn(b.name).rsplit('::', 1)[-1]}|every method", bool(nexts) and not skip, b.where(k),
                         "some methods of an implementation are not checked against the trait's effects")
    R.floor("implementation effect checks", found, 1)


def propagated(b, c):
    return c["d"][0] == 0


def owners(F, b, op):
    """Does the effect operand come from a trait method definition or from a module function?"""
    out = set()
    work, seen = [op_place(op)], set()
    while work:
        p = work.pop()
        if any(isinstance(e, str) and ":types::r#trait::" in e for e in p[1:]):
            out.add("trait")
        s = b.tys(p[0])
        if "types::r#trait::TraitMethod" in s or "TraitMethodDefinition" in s:
            out.add("trait")
        if any(isinstance(e, str) and e.endswith(":module::function::ModuleFunction") for e in p[1:]) or "module::function::ModuleFunction" in s:
            out.add("fn")
        if p[0] in seen:
            continue
        seen.add(p[0])
        for i, j, rv, q in b.defs().get(p[0], []):
            if is_call(rv):
                f = rv.get("f", "")
                if ("::Trait" in f or "r#trait" in f) and f.rsplit("::", 1)[-1].startswith("method"):
                    out.add("trait")
                elif rv["a"] and op_place(rv["a"][0]):
                    work.append(op_place(rv["a"][0]))
            else:
                work.extend(rv_places(rv))
    return out


# ---- inclusions ----------------------------------------------------------------------------------------------

INCL = "types::type_inference::effect_solver::EffectInclusion"
PEND = "types::type_inference::effect_solver::PendingEffectDependency"


def inclusions(F, R):
    n = 0
    for b in F.all_bodies():
        if "{closure#" in b.name or not any(b.tys(a) == INCL for a in range(1, b.args + 1)):
            continue
        if not b.tys(0).startswith("core::result::Result<"):
            continue
        n += 1
        R.fn(b)
        Inclusion(F, R, b).check()
    R.floor("functions that decide an effect inclusion", n, 2)


LOSSY = {"@take", "@skip", "@filter", "@filter_map", "@step_by", "@take_while", "@skip_while", "@nth", "@first", "@last", "@truncate", "@map_while"}


class Inclusion:
    """lower <= upper is accepted only when lower's primitives are known to be in upper and its variables are bounded
    by upper, or when the whole inclusion is recorded for later."""

    def __init__(self, F, R, b):
        self.F, self.R, self.b = F, R, b
        self.memo = {}

    def src(self, op, stop=()):
        """Tags of an operand: lower, upper, and the names of the calls on the way."""
        p = op_place(op)
        return self.src_place(p) if p else frozenset()

    def src_place(self, p):
        key = tuple(p)
        if key in self.memo:
            return self.memo[key]
        b = self.b
        self.memo[key] = frozenset()
        out = set()
        for e in p[1:]:
            if isinstance(e, str) and e.startswith(".lower:"):
                out.add("lower")
            if isinstance(e, str) and e.startswith(".upper:"):
                out.add("upper")
        idx = [e for e in p[1:] if isinstance(e, str) and re.match(r"^\.\d+(:|$)", e)]
        for i, j, rv, q in b.defs().get(p[0], []):
            if is_call(rv):
                for a in rv["a"]:
                    out |= self.src(a)
                out.add("@" + rv.get("f", "").rsplit("::", 1)[-1])
            elif rv[0] == "agg" and rv[1] == "tuple" and idx:
                k = int(re.match(r"^\.(\d+)", idx[0]).group(1))
                if k < len(rv[4]):
                    out |= self.src(rv[4][k])
            else:
                for x in rv_places(rv):
                    out |= self.src_place(x)
        self.memo[key] = frozenset(out)
        return self.memo[key]

    def cond_call(self, op, depth=0):
        """(call, polarity) deciding a switch operand, through copies, negations and tuple fields."""
        b, pol = self.b, True
        for _ in range(12):
            p = op_place(op)
            if p is None:
                return None
            ds = b.defs().get(p[0], [])
            idx = [e for e in p[1:] if isinstance(e, str) and re.match(r"^\.\d+(:|$)", e)]
            ds = [d for d in ds if d[0] in b.live]
            if len(ds) != 1:
                return None
            rv = ds[0][2]
            if is_call(rv):
                return rv, pol
            if rv[0] == "use":
                op = rv[1]
            elif rv[0] == "un" and rv[1] == "Not":
                pol = not pol
                op = rv[2]
            elif rv[0] == "agg" and rv[1] == "tuple" and idx:
                op = rv[4][int(re.match(r"^\.(\d+)", idx[0]).group(1))]
            elif rv[0] == "disc":
                op = ["c", rv[1]]
                if len(rv[1]) == 1:
                    d2 = [d for d in b.defs().get(rv[1][0], []) if d[0] in b.live]
                    if len(d2) == 1 and is_call(d2[0][2]):
                        return d2[0][2], "disc"
                return None
            else:
                return None
        return None

    def edge_events(self):
        """(block, target) -> events."""
        b, ev = self.b, {}

        def add(e, x):
            ev.setdefault(e, set()).update(x)
        for i, bl in enumerate(b.blocks):
            t = bl["t"]
            if bl["c"] or t[0] != "switch" or i not in b.live:
                continue
            r = self.cond_call(t[1])
            if r is None:
                continue
            c, pol = r
            f = c.get("f", "").rsplit("::", 1)[-1]
            ss = [self.src(a) for a in c["a"]]
            low = [k for k, s in enumerate(ss) if "lower" in s and "upper" not in s]
            up = [k for k, s in enumerate(ss) if "upper" in s and "lower" not in s]
            if pol == "disc":
                if f == "to_single_variable" and low:
                    for v, tgt in t[2]:
                        if v == "1":
                            add((i, tgt), {"P"})
                    if not any(v == "1" for v, _ in t[2]):
                        add((i, t[3]), {"P"})
                if f == "to_single_variable" and up:
                    for v, tgt in t[2] + [["x", t[3]]]:
                        if v == "1" or v == "x" and not any(w == "1" for w, _ in t[2]):
                            add((i, tgt), {"UV"})
                continue
            zero = next((tgt for v, tgt in t[2] if v == "0"), t[3])
            one = next((tgt for v, tgt in t[2] if v == "1"), t[3])
            yes, no = (one, zero) if pol else (zero, one)
            if f == "is_empty" and low:
                s = ss[low[0]]
                if "@inner_vars" in s:
                    add((i, yes), {"V"})
                elif "@inner_non_vars" in s:
                    add((i, yes), {"P"})
                else:
                    add((i, yes), {"P", "V"})
            elif f == "is_empty" and up and "@inner_vars" in ss[up[0]]:
                add((i, no), {"UV"})
            elif f == "is_empty" and up:
                add((i, yes), {"UE"})
            elif f in ("has_variables",) and low:
                add((i, no), {"V"})
            elif f in ("is_only_vars",) and low:
                add((i, yes), {"P"})
            elif low and up:
                s = ss[low[0]]
                if f == "ne":
                    add((i, no), {"P", "V"})
                elif "@inner_non_vars" in s:
                    add((i, yes), {"P"})
                elif f in ("eq", "is_subset_of"):
                    add((i, yes), {"P", "V"})
                elif c.get("f") in self.F.fns:
                    add((i, yes), {"P", "V"})
        return ev

    def block_events(self):
        b, ev = self.b, {}
        raw = []
        aggs = {}
        for i, j, p, rv, ln in b.assigns():
            if i in b.live and rv[0] == "agg" and rv[1] == "adt" and rv[2] in (INCL, PEND):
                names = rv[5] or []
                src = rv[4][names.index("source" if rv[2] == PEND else "lower")]
                tgt = rv[4][names.index("target" if rv[2] == PEND else "upper")]
                aggs[p[0]] = (self.src(src), self.src(tgt), i, rv[2])
        for i, c in b.calls():
            if i not in b.live:
                continue
            f = c.get("f", "").rsplit("::", 1)[-1]
            if f == "push" and len(c["a"]) == 2:
                r = self.follow(c["a"][1], aggs)
                if r:
                    s, t, _, kind = r
                    if "lower" in s and "upper" in t:
                        e = {"P"} if "@inner_non_vars" in s else {"V"} if "@inner_vars" in s else {"P", "V"}
                        ev.setdefault(i, set()).update(e | ({"needUV"} if kind == PEND else set()))
                elif "EffectInclusion" in b.tys(op_local(c["a"][1]) or 0):
                    ev.setdefault(i, set()).update({"P", "V"})
            elif f == "union_value" and len(c["a"]) == 3:
                k, v = self.src(c["a"][1]), self.src(c["a"][2])
                if "lower" in k and "upper" in v and not k & LOSSY:
                    ev.setdefault(i, set()).add("V")
                    if "@normalize_effect" not in k:
                        raw.append(i)
            elif f == "for_each" and c["a"]:
                k = self.src(c["a"][0])
                for g in fn_values(self.F, b, c["a"][-1]):
                    gb = self.F.body(g)
                    hit = {x for x, d in gb.calls() if d.get("f", "").endswith("::union_value")}
                    if hit and "lower" in k and not k & LOSSY and not set(gb.return_blocks()) & gb.reachable([0], avoid=tuple(hit)):
                        ev.setdefault(i, set()).add("V")
                        if "@normalize_effect" not in k:
                            raw.append(i)
            elif c.get("f") in self.F.fns and not b.tys(c["d"][0]) == "bool" and f not in ("normalize_effect", "union", "extend"):
                ss = [self.src(a) for a in c["a"]]
                if any("lower" in s and "upper" not in s for s in ss) and any("upper" in s and "lower" not in s for s in ss):
                    if not f.startswith("invalid"):
                        ev.setdefault(i, set()).update({"P", "V"})
        # an event inside a loop over the variables stands for the loop
        for scc in b.sccs():
            inner = set().union(*[ev.get(i, set()) for i in scc]) if scc else set()
            if not inner:
                continue
            nexts = [i for i, c in b.calls() if i in scc and c.get("f", "").endswith("::next")]
            evs = {i for i in scc if ev.get(i)}
            outside = set(range(len(b.blocks))) - set(scc)
            if nexts and all(x not in b.reachable([s for s in b.succ[x] if s in scc], avoid=tuple(evs | outside)) for x in nexts):
                for x in nexts:
                    ev.setdefault(x, set()).update(inner)
            for i in evs:
                if i not in nexts:
                    ev.pop(i, None)
        return ev, raw

    def follow(self, op, aggs):
        p = op_place(op)
        for _ in range(6):
            if p is None:
                return None
            if p[0] in aggs:
                return aggs[p[0]]
            ds = self.b.defs().get(p[0], [])
            if len(ds) != 1 or is_call(ds[0][2]) or ds[0][2][0] != "use":
                return None
            p = op_place(ds[0][2][1])
        return None

    def check(self):
        b, R = self.b, self.R
        ee = self.edge_events()
        be, raw = self.block_events()
        name = b.name.rsplit("::", 1)[-1]
        for i in raw:
            R.bad("inclusion", f"raw-lower|{name}", b.where(i),
                  "a variable of the lower effect is bounded by the upper effect although what it already stands for is not")
        oks = set()
        for i, j, p, rv, l in b.assigns():
            if i in b.live and p == [0] and rv[0] == "agg" and rv[3] == "Ok":
                o = rv[4][0]
                if o[0] == "k" and str(o[1].get("v")) in ("false", "0"):
                    continue
                oks.add(i)
        R.floor(f"accepting returns of {name}", len(oks), 1)
        # must-analysis: events on every path to a block
        TOP = None
        state = {0: frozenset()}
        work = [0]
        bad = {}
        while work:
            i = work.pop()
            s = state[i] | frozenset(be.get(i, ()))
            for t in b.succ[i]:
                ns = s | frozenset(ee.get((i, t), ()))
                old = state.get(t, TOP)
                new = ns if old is None else old & ns
                if old is None or new != old:
                    state[t] = new
                    work.append(t)
        for i in sorted(oks):
            # states are merged at joins; decide per path by splitting on the incoming states
            ok = self.accepts(i, ee, be)
            R.ob("inclusion", f"accept|{name}", ok, b.where(i),
                 "an effect inclusion is accepted although the lower effect's primitives or variables were not bounded by the upper effect")

    def accepts(self, target, ee, be):
        """Every path from the entry to the accepting block has both events (path-sensitive over event sets)."""
        b = self.b
        seen = {(0, frozenset())}
        work = [(0, frozenset())]
        while work:
            i, s = work.pop()
            e = set(be.get(i, ()))
            if "needUV" in e and "UV" not in s and "V" in s and False:
                pass
            if "needUV" in e:
                e.discard("needUV")
                if "UV" not in s and not self.single_upper(i):
                    e = set()
            s2 = s | e
            if i == target:
                if not ("P" in s2 and "V" in s2 or "UE" in s2 and "P" in s2):
                    return False
                continue
            for t in b.succ[i]:
                n = (t, s2 | frozenset(ee.get((i, t), ())))
                if n not in seen:
                    if len(seen) > 60000:
                        return False
                    seen.add(n)
                    work.append(n)
        return True

    def single_upper(self, i):
        return False


# ---- mutable arguments ---------------------------------------------------------------------------------------

def mutable_arguments(F, R):
    """What is lent mutably has the parameter's type exactly: a callee may store into it anything of that type."""
    n = 0
    sites = []
    for b in F.all_bodies():
        subs, muts, same = [], [], []
        for i, c in b.calls():
            f = c.get("f", "").rsplit("::", 1)[-1]
            if i not in b.live or "TypeInference" not in c.get("f", ""):
                continue
            if f == "add_sub_type_constraint":
                subs.append((i, c))
            elif f == "add_mut_be_at_least_constraint":
                muts.append((i, c))
            elif f == "add_same_type_constraint":
                same.append((i, c))
        if not muts or not subs:
            continue
        for i, c in subs:
            x = arg_base(b, c["a"][3])
            if x is None or not any(arg_base(b, d["a"][3]) == x for _, d in muts):
                continue
            n += 1
            R.fn(b)
            rev = any(arg_base(b, d["a"][1]) == x for _, d in subs) or \
                any(x in (arg_base(b, d["a"][1]), arg_base(b, d["a"][3])) for _, d in same)
            sites.append((F.root_fn(b.name).rsplit("::", 1)[-1], rev, b.where(i)))
    msg = ("an argument lent mutably is only required to have a subtype of the parameter's type, so the callee can "
           "store a function with more effects in it")
    if sites and not any(rev for _, rev, _ in sites):
        R.bad("mutable-argument", "no argument position", sites[0][2], msg + " (all argument positions)")
    else:
        for key, rev, where in sites:
            R.ob("mutable-argument", key, rev, where, msg)
    R.floor("argument positions with a mutability", n, 4)


def arg_base(b, op):
    """The argument type (or the pair of parameters) an expected type or mutability is taken from."""
    p = op_place(op)
    for _ in range(8):
        if p is None:
            return None
        if any(isinstance(e, str) and e.endswith((":types::r#type::FnArgType",)) for e in p[1:]):
            l = p[0]
            ds = [d for d in b.defs().get(l, []) if d[0] in b.live]
            return ("arg", l)
        l = p[0]
        if 1 <= l <= b.args and len(p) == 1:
            return ("param", "expected") if b.tys(l) in ("types::r#type::Type", "types::mutability::MutType") else None
        ds = [d for d in b.defs().get(l, []) if d[0] in b.live]
        if len(ds) != 1 or is_call(ds[0][2]):
            return None
        rv = ds[0][2]
        if rv[0] not in ("use", "ref"):
            return None
        p = op_place(rv[1]) if rv[0] == "use" else rv[2]
    return None


# ---- combining effects ---------------------------------------------------------------------------------------

MERGE = ("EffType::extend", "EffType::union", "EffType::insert")


def combination(F, R):
    """A function that combines a list of effects returns them all."""
    n = 0
    for b in F.all_bodies():
        if "{closure#" in b.name or b.tys(0) != "types::effects::EffType" or "EffectSolver" not in b.name:
            continue
        lists = [a for a in range(1, b.args + 1) if "AsRef<[" in b.tys(a) or re.match(r"^&(mut )?\[", b.tys(a))]
        if not lists:
            continue
        n += 1
        R.fn(b)
        name = b.name.rsplit("::", 1)[-1]
        L = forward(b, lists)
        merges = {i for i, c in b.calls() if i in b.live and c.get("f", "").endswith(MERGE) and
                  any(op_local(a) in L for a in c["a"][1:])}
        # every iteration merges its element
        loops = 0
        for scc in b.sccs():
            nexts = [i for i, c in b.calls() if i in scc and c.get("f", "").endswith("::next")]
            out = tuple((set(range(len(b.blocks))) - set(scc)) | merges)
            for x in nexts:
                loops += 1
                R.ob("combine", f"{name}|every element", x not in b.reachable([s for s in b.succ[x] if s in scc], avoid=out), b.where(x),
                     "an effect of the list is not added to the combination")
        R.ob("combine", f"{name}|loop", loops >= 1, b.where(0), "the effects of the list are not added one by one")
        # the elements left out of the loop
        start = 0
        for i, j, p, rv, l in b.assigns():
            if i in b.live and rv[0] == "agg" and rv[1] == "adt" and "ops::range::Range" in rv[2]:
                o = rv[4][0]
                R.ob("combine", f"{name}|range", rv[2].endswith("RangeFrom") and o[0] == "k" and str(o[1].get("v")) in ("0", "1"),
                     b.where(i), "only a part of the list is combined")
                start = max(start, int(o[1].get("v"))) if o[0] == "k" and str(o[1].get("v", "")).isdigit() else start
        for i, c in b.calls():
            if i in b.live and c.get("f", "").rsplit("::", 1)[-1] in {x[1:] for x in LOSSY} and any(op_local(a) in L for a in c["a"]):
                R.bad("combine", f"{name}|part", b.where(i), "only a part of the list is combined")
        # results: the accumulated set, the empty set for an empty list, the only element of a list of one
        empty = bool_edges(b, lambda op, i: negations(b, op, lambda p, rv: rv is not None and is_call(rv) and
                           rv.get("f", "").endswith("::is_empty") and any(op_local(a) in L for a in rv["a"])), True)
        one = bool_edges(b, lambda op, i: negations(b, op, lambda p, rv: rv is not None and not is_call(rv) and rv[0] == "bin" and
                         rv[1] == "Eq" and any(o[0] == "k" and str(o[1].get("v")) == "1" for o in (rv[2], rv[3]))), True)
        acc = set()
        for i in merges:
            l = op_local(b.blocks[i]["t"][1]["a"][0])
            acc |= roots(b, l)
        A = forward(b, acc)
        looped = {x for scc in b.sccs() for x in scc}
        for i, rv in results(b):
            srcs = {op_local(o) for o in (rv["a"] if is_call(rv) else rv_operands(rv))}
            srcs = {x for x in srcs if x is not None}
            if i not in reach_avoiding(b, [0], (), empty):
                ok = True
            elif i not in reach_avoiding(b, [0], (), one):
                ok = bool(srcs & L)
            else:
                ok = bool(srcs & A) and i not in reach_avoiding(b, [0], looped, ())
            R.ob("combine", f"{name}|result", ok, b.where(i), "the combination returned does not contain every effect of the list")
    R.floor("functions that combine a list of effects", n, 1)


def results(b):
    for i, j, p, rv, l in b.assigns():
        if i in b.live and p == [0]:
            yield i, rv
    for i, c in b.calls():
        if i in b.live and c["d"] == [0]:
            yield i, c


def roots(b, l):
    out, work = set(), [l]
    while work:
        x = work.pop()
        if x in out or x is None:
            continue
        out.add(x)
        for i, j, rv, q in b.defs().get(x, []):
            if not is_call(rv) and rv[0] in ("ref", "use"):
                q = rv[2] if rv[0] == "ref" else op_place(rv[1])
                if q:
                    work.append(q[0])
    return out
