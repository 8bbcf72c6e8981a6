"""Loops spend fuel; recursion through named functions checks the call depth; limits are honoured."""
from facts import *
from common import *
import arms
from absint import AbsInt, Stop

EXPLANATION = (
    "Every construction of a HIR loop is shown to pass through the construction of a fuel check placed "
    "first in its body (or the switch that only standard-library functions may flip); every function and "
    "lambda body emitted from source passes the recursion test and gets a depth check when it refers to a "
    "member of its cycle; each representation between source and the interpreters maps the two checks to "
    "themselves; the two checks are decided by abstract interpretation over {none, zero, positive} fuel "
    "and {below, at, above} depth; limits are only written where an executor is built and every function "
    "taking limits passes them on.")

LOOP, FUEL, DEPTH = "Loop", "CheckFuel", "CheckCallDepth"


def builds(body, adt, variant):
    return [(i, p, rv, l) for i, j, p, rv, l in body.assigns()
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] == adt and rv[3] == variant]


def derived(F, b):
    return b.name.endswith("::clone") and "core::clone::Clone" in b.name or "::_::" in b.name or "serde_core::" in b.name


def enum_family(F):
    """Enums with both check variants: the representations of the checks."""
    out = {}
    for p, a in F.adts.items():
        names = {v["name"] for v in a["variants"]}
        if FUEL in names and DEPTH in names and "serde" not in p and "__Field" not in p:
            out[p] = names
    return out


def run(F, R, tier):
    fam = enum_family(F)
    hir = next((p for p in fam if "TraitMethodApply" in fam[p]), None)
    if not hir or len(fam) < 3:
        R.bad("anchor", "node kinds", "", "the HIR node kind enum with its runtime checks was not found")
        return
    loops(F, R, fam, hir)
    flag(F, R)
    recursion(F, R, fam, hir)
    copies(F, R, fam, hir)
    semantics(F, R)
    limits(F, R)
    passes(F, R, fam)


# -- loops -------------------------------------------------------------------------------------
def copy_regions(F, body, fam, variant):
    """Blocks in arms that matched this very variant of some representation."""
    out = set()
    for m in arms.matches(F, body):
        if m.adt in fam and variant in m.targets:
            out |= arms.region(body, m, variant)
    return out


def flag_edges(F, body, field, truth):
    def want(p, rv):
        return p is not None and field_of(p, field)

    def is_cond(op, i):
        return negations(body, op, want)
    return bool_edges(body, is_cond, truth)


def covered(F, name, good_of, edges_of, memo, depth=0):
    """Every normal return of the function passes a good block."""
    if name in memo:
        return memo[name]
    memo[name] = False
    b = F.body(name)
    good = set(good_of(b))
    if depth < 3:
        for i, c in b.calls():
            f = local_callee(F, c)
            if f and f != name and covered_quick(F, f, good_of) and covered(F, f, good_of, edges_of, memo, depth + 1):
                good.add(i)
    r = reach_avoiding(b, [0], good, edges_of(b)) if 0 not in good else set()
    memo[name] = bool(good) and not any(x in r for x in b.return_blocks())
    return memo[name]


def covered_quick(F, f, good_of):
    return bool(good_of(F.body(f))) or any(
        good_of(F.body(g)) for g in F.callgraph.get(f, ()) if g in F.fns)


def loops(F, R, fam, hir):
    memo = {}
    good_of = lambda b: [i for i, p, rv, l in builds(b, hir, FUEL)]
    edges_of = lambda b: flag_edges(F, b, "fuel_checks_enabled", False)
    n = 0
    for b in F.all_bodies():
        bl = builds(b, hir, LOOP)
        if not bl or derived(F, b):
            continue
        copy = copy_regions(F, b, {k: v for k, v in fam.items() if LOOP in v}, LOOP)
        # arms of matches over the source syntax also called Loop are not copies: only the family is
        for i, p, rv, l in bl:
            if i in copy:
                continue
            n += 1
            R.fn(b)
            good = set(good_of(b))
            for k, c in b.calls():
                f = local_callee(F, c)
                if f and covered_quick(F, f, good_of) and covered(F, f, good_of, edges_of, memo):
                    good.add(k)
            edges = edges_of(b)
            r = reach_avoiding(b, [0], good, edges)
            R.ob("loop-fuel", F.root_fn(b.name), i not in r, f"{b.meta['file']}:{l}",
                 "a loop can be emitted without a fuel check in its body")
            # the check stands first in the loop's body
            seeds = {x for k, x0, rv0, l0 in builds(b, hir, FUEL) for x in [x0[0]]}
            back = b.back_reachable([i])
            for k, c in b.calls():
                if k in good and k not in good_of(b):
                    seeds.add(c["d"][0])
            fuel_blocks = {k for k in good if k in back}
            near = b.reachable(fuel_blocks) & back if fuel_blocks else set()
            t = forward(b, seeds, blocks=near | fuel_blocks)
            ok = any(op_local(o) in t for o in rv[4])
            R.ob("loop-fuel", F.root_fn(b.name) + "|used", ok, f"{b.meta['file']}:{l}",
                 "the fuel check is built but is not part of the loop's body")
            for k, j, p2, rv2, l2 in b.assigns():
                if k in near and rv2[0] == "agg" and rv2[1] == "array" and len(rv2[4]) >= 2 and \
                        "Idx<hir::Node" in elem(F, b, p2, rv2):
                    ts = [op_local(o) in t for o in rv2[4]]
                    if any(ts):
                        R.ob("loop-fuel", F.root_fn(b.name) + "|first", ts[0], f"{b.meta['file']}:{l2}",
                             "the fuel check is not the first statement of the loop's body")
    R.floor("loop emissions", n, 1)


def elem(F, b, p, rv):
    return " ".join(b.tys(op_local(o)) for o in rv[4] if op_local(o) is not None)


# -- the opt-out flag ----------------------------------------------------------------------------
def flag(F, R):
    n = 0
    for b in F.all_bodies():
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1] == "adt" and rv[5]:
                for fld in ("fuel_checks_enabled", "no_fuel_check"):
                    if fld in rv[5] and not b.name.endswith("::clone") and "::deserialize" not in b.name:
                        n += 1
                        check_flag(F, R, b, i, rv[4][rv[5].index(fld)], fld, 0)
            if len(p) > 1 and (field_of(p[-1:] and [0] + p[-1:], "fuel_checks_enabled") or
                               field_of([0] + p[-1:], "no_fuel_check")):
                R.bad("flag", f"{F.root_fn(b.name)}|write", f"{b.meta['file']}:{l}",
                      "the fuel-check switch is overwritten after it was set")
    R.floor("fuel-check switches set", n, 2)


def check_flag(F, R, b, block, op, fld, depth):
    """Values of the switch: enabled everywhere except under a standard-library test."""
    key = f"{F.root_fn(b.name)}|{fld}"
    where = b.where(block)
    if depth > 4:
        R.bad("flag", key, where, "the origin of the fuel-check switch is too deep to follow")
        return
    for o in origins(b, op):
        if o[0] == "const":
            off = "0" if fld == "fuel_checks_enabled" else "1"
            ok = o[1] != off
            if not ok:
                ok = const_under_std(F, b, op, off)
            R.ob("flag", key, ok, where, "fuel checks are switched off outside the standard library")
        elif o[0] == "place":
            ok = field_of(list(o[1]), "fuel_checks_enabled") or field_of(list(o[1]), "no_fuel_check")
            # polarity: copying enabled, or negating no_fuel_check
            if ok:
                src = "fuel_checks_enabled" if field_of(list(o[1]), "fuel_checks_enabled") else "no_fuel_check"
                pol = negations(b, op, lambda p, rv: p is not None and field_of(p, src))
                ok = pol == (src == fld)
            R.ob("flag", key, ok, where, "the fuel-check switch comes from something else than the "
                                         "enclosing function's switch or its attribute")
        elif o[0] == "call" and o[1] == "<bool as core::default::Default>::default":
            R.ob("flag", key, fld == "no_fuel_check", where, "fuel checks default to off")
        elif o[0] == "arg":
            pol = negations(b, op, lambda p, rv: p == [o[1]])
            callers = 0
            for cb in F.all_bodies():
                for i, c in cb.calls():
                    if c.get("f") == b.name and len(c["a"]) >= o[1]:
                        callers += 1
                        f2 = fld if pol in (True, None) else \
                            ("no_fuel_check" if fld == "fuel_checks_enabled" else "fuel_checks_enabled")
                        check_flag(F, R, cb, i, c["a"][o[1] - 1], f2, depth + 1)
            R.ob("flag", key + "|callers", callers > 0, where, "")
        else:
            R.bad("flag", key, where, f"the fuel-check switch comes from {o[0]} {o[1]}")


def const_under_std(F, b, op, off):
    """Every assignment of the switching-off constant happens only after a test that the module being
    compiled is the standard library."""
    locs = set()
    work = [op_local(op)]
    while work:
        l = work.pop()
        if l in locs or l is None:
            continue
        locs.add(l)
        for _, _, rv, p in b.defs().get(l, []):
            if not is_call(rv) and rv[0] == "use" and op_local(rv[1]) is not None:
                work.append(op_local(rv[1]))
    bad = set()
    for l in locs:
        for blk, j, rv, p in b.defs().get(l, []):
            if not is_call(rv) and rv[0] == "use" and rv[1][0] == "k" and str(rv[1][1].get("v")) == off:
                bad.add(blk)
    if not bad:
        return False

    def want(p, rv):
        if p is not None and len(p) == 1 and 1 <= p[0] <= b.args and b.tys(p[0]) == "bool":
            return all(std_test(F, cb, c["a"][p[0] - 1]) for cb, c in callers_of(F, b.name)) and \
                bool(callers_of(F, b.name))
        if rv is not None:
            return std_rv(F, b, rv)
        return False
    edges = bool_edges(b, lambda o, i: negations(b, o, want), True)
    if not edges:
        return False
    r = reach_avoiding(b, [0], (), edges)
    return not (bad & r)


def callers_of(F, name):
    out = []
    for cb in F.all_bodies():
        for i, c in cb.calls():
            if c.get("f") == name:
                out.append((cb, c))
    return out


def mentions_std_const(F, b, op):
    for o in origins(b, op):
        if o[0] == "const" and "STD_MODULE_ID" in str(o[1]):
            return True
    p = op_place(op)
    if op[0] == "k":
        return "STD_MODULE_ID" in str(op[1])
    return promoted_std(F, b, op)


def promoted_std(F, b, op):
    l = op_local(op)
    for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
        if not is_call(rv):
            for o in rv_operands(rv):
                if o[0] == "k":
                    c = o[1]
                    if "STD_MODULE_ID" in str(c):
                        return True
                    if "prom" in c:
                        pn = f"{c['def']}::{{promoted#{c['prom']}}}"
                        if pn in F.fns and "STD_MODULE_ID" in str(F.body(pn).blocks):
                            return True
            if rv[0] == "ref" and promoted_std(F, b, ["c", [rv[2][0]]]):
                return True
    return False


def std_rv(F, b, rv):
    if is_call(rv):
        f = rv.get("f", "")
        if f.endswith("::eq") and any(mentions_std_const(F, b, a) for a in rv["a"]):
            return True
        return f.endswith(("is_std", "is_std_module"))
    if rv[0] == "bin" and rv[1] == "Eq":
        return any(mentions_std_const(F, b, o) for o in (rv[2], rv[3]))
    return False


def std_test(F, b, op):
    return negations(b, op, lambda p, rv: rv is not None and std_rv(F, b, rv)) is True


# -- recursion -----------------------------------------------------------------------------------
def recursion(F, R, fam, hir):
    # the mention test: functions that look into HIR node kinds for membership in a set of functions
    testers = {}
    for b in F.all_bodies():
        for i, c in b.calls():
            if c.get("f", "").startswith("std::collections::hash::set::HashSet::") and \
                    c["f"].endswith("::contains") and F.fns.get(b.name):
                tys = " ".join(F.types[b.locals[op_local(a)]]["s"] for a in c["a"] if op_local(a) is not None)
                if "module::function::FunctionId" in tys:
                    for m in arms.matches(F, b, hir):
                        for v in m.targets:
                            if i in arms.reach_arm(b, m, v) and i in arms.region(b, m, v) | {m.targets[v]}:
                                testers.setdefault(F.root_fn(b.name), set()).add(v)
    # keep those that a depth-check builder consults
    builders = {}
    for b in F.all_bodies():
        if derived(F, b):
            continue
        copy = copy_regions(F, b, fam, DEPTH)
        bs = [(i, l) for i, p, rv, l in builds(b, hir, DEPTH) if i not in copy]
        if bs:
            builders[b.name] = bs
    R.floor("call-depth check emissions", len(builders), 1)
    for name, bs in builders.items():
        b = F.body(name)
        R.fn(b)
        tests = [(i, c) for i, c in b.calls() if c.get("f") in testers]
        R.ob("depth-emit", name + "|test", bool(tests), b.where(),
             "the builder of depth checks does not ask whether the body refers to its cycle")
        dests = {c["d"][0] for i, c in tests}
        neg = bool_edges(b, lambda o, i: negations(b, o, lambda p, rv: p is not None and len(p) == 1 and p[0] in dests), False)
        r = reach_avoiding(b, [0], {i for i, l in bs}, neg)
        R.ob("depth-emit", name + "|always", not any(x in r for x in b.return_blocks()), b.where(),
             "a body that refers to its own cycle can be returned without a depth check")
        # result carries the check on those paths, first
        seeds = {p[0] for i, p, rv, l in builds(b, hir, DEPTH)}
        t = forward(b, seeds)
        R.ob("depth-emit", name + "|used", 0 in t, b.where(), "the depth check is built but not returned")
        for k, j, p2, rv2, l2 in b.assigns():
            if rv2[0] == "agg" and rv2[1] == "array" and len(rv2[4]) >= 2 and "Idx<hir::Node" in elem(F, b, p2, rv2):
                ts = [op_local(o) in t for o in rv2[4]]
                if any(ts):
                    R.ob("depth-emit", name + "|first", ts[0], f"{b.meta['file']}:{l2}",
                         "the depth check does not run first")
        for i, c in tests:
            tn = c["f"]
            tb = F.body(tn)
            R.fn(tb)
            for v, ok in (("StaticApply", "StaticApply" in testers[tn]), ("GetFunction", "GetFunction" in testers[tn]),
                          ("TraitMethodApply", "TraitMethodApply" in testers[tn]),
                          ("GetTraitMethod", "GetTraitMethod" in testers[tn])):
                R.ob("mentions", v, ok, tb.where(),
                     f"a recursive cycle closed by a {v} node is not recognised, so its calls are not depth-checked")
            # recursion over the children
            kids = [k for k, cc in tb.calls() if cc.get("f", "").endswith("child_node_ids")]
            rec = tn in F.reach([tn]) and any(tn in F.callgraph.get(x, ()) for x in [tn] + F.closures_of(tn))
            R.ob("mentions", tn + "|children", bool(kids) and rec, tb.where(),
                 "the mention test does not look into child nodes")
            # a false answer requires having looked at the children
            ret_false = []
            bad = reach_avoiding(tb, [0], set(kids), empty_set_edges(F, tb))
            trues = {k for k, j, p, rv, l in tb.assigns() if p == [0] and rv[0] == "use" and
                     rv[1][0] == "k" and str(rv[1][1].get("v")) == "1"}
            bad2 = reach_avoiding(tb, [0], set(kids) | trues, empty_set_edges(F, tb))
            R.ob("mentions", tn + "|no-early-false", not any(x in bad2 for x in tb.return_blocks()), tb.where(),
                 "the mention test can answer no without looking at the children")
    # every body emitted from source passes through the builder
    n = 0
    ef = [p for p in F.fns if F.fns[p]["kind"] == "fn" and
          any(F.body(q).name and any(c.get("f") in builders for _, c in F.body(q).calls())
              for q in [p] + all_closures(F, p))]
    R.floor("emitters using the depth check", len(ef), 1)
    for p in ef:
        b = F.body(p)
        R.fn(b)
        wrapped = forward(b, {c["d"][0] for i, c in b.calls() if c.get("f") in builders})
        wb = {i for i, c in b.calls() if c.get("f") in builders}
        for i, c in b.calls():
            if c.get("f", "").endswith("PendingFunctionBody::new"):
                n += 1
                loc = root_local(b, op_local(c["a"][1]))
                ds = b.defs().get(loc, [])
                others = {d[0] for d in ds} - wb
                # the value comes from the test on every path: nothing defines it after the test
                ok = any(d[0] in wb or any(q[0] in wrapped for q in rv_places(d[2])) for d in ds if True
                         if d[0] in wb or not is_call(d[2]))
                ok = ok and i not in reach_avoiding(b, [0], wb)
                late = {d[0] for d in ds if d[0] not in wb and not (
                    not is_call(d[2]) and any(q[0] in wrapped for q in rv_places(d[2])))}
                ok = ok and not any(i in reach_avoiding(b, [x], wb - {x}) for x in late)
                R.ob("depth-emit", p + "|bodies", ok, b.where(i),
                     "a function body is emitted without passing the recursion test")
        # functions added from other bodies (lambdas) in the emitter and its closures
        for q in [p] + all_closures(F, p):
            qb = F.body(q)
            for i, c in qb.calls():
                if c.get("f", "").endswith("add_pending_function_anonymous"):
                    n += 1
                    wb2 = {k for k, cc in qb.calls() if cc.get("f") in builders}
                    ok = bool(wb2) and i not in reach_avoiding(qb, [0], wb2)
                    stored = {pp[0] for k, j, pp, rv, l in qb.assigns()
                              if len(pp) > 1 and any(x[0] in forward(qb, {cc["d"][0] for k2, cc in qb.calls() if cc.get("f") in builders})
                                                     for x in rv_places(rv))} | \
                             {cc["d"][0] for k2, cc in qb.calls() if cc.get("f") in builders and len(cc["d"]) > 1}
                    ok = ok and (op_local(c["a"][-1]) in forward(qb, stored))
                    R.ob("depth-emit", p + "|lambdas", ok, qb.where(i),
                         "a lambda body is emitted without passing the recursion test")
    R.floor("bodies emitted from source", n, 2)
    # the cycles come from the dependency graph: more than one member, or a self edge
    k = 0
    for b in F.all_bodies():
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1] == "adt" and rv[5] and "recursive" in rv[5] and not b.name.endswith("::clone"):
                k += 1
                R.fn(b)
                scc_flag(F, R, b, rv[4][rv[5].index("recursive")])
    R.floor("recursion flags of implementation groups", k, 2)
    children(F, R, hir)


def root_local(b, l):
    """Follows the copies that lead to a local holding the value."""
    for _ in range(8):
        ds = b.defs().get(l, [])
        if len(ds) == 1 and not is_call(ds[0][2]) and ds[0][2][0] == "use":
            q = op_place(ds[0][2][1])
            if q is not None and len(q) == 1:
                l = q[0]
                continue
        return l
    return l


def all_closures(F, p):
    out = []
    work = [p]
    while work:
        x = work.pop()
        for c in F.closures_of(x):
            out.append(c)
            work.append(c)
    return out


def empty_set_edges(F, b):
    def want(p, rv):
        return rv is not None and is_call(rv) and rv.get("f", "").endswith("::is_empty")
    return bool_edges(b, lambda o, i: negations(b, o, want), True)


class SccFlag(AbsInt):
    """Decides the flag for groups of one, with and without a self edge, and of two."""

    def __init__(self, F, body, size, selfedge, target):
        super().__init__(F, body)
        self.size, self.selfedge, self.target = size, selfedge, target
        self.out = set()

    def compare(self, op, a, b):
        return None

    def on_call(self, c, args, mem, trace):
        f = c.get("f", "")
        if f.endswith("::len"):
            return ("k", self.size)
        if f.endswith(("::is_some_and", "::any", "::contains", "::is_recursive_singleton")):
            return ("k", int(self.selfedge))
        return None

    def on_write(self, key, leafs, mem, trace):
        for s, v in leafs.items():
            if s and s[-1] == ".recursive":
                self.out.add(v)


def scc_flag(F, R, b, op):
    for size, selfedge, want in ((2, False, 1), (2, True, 1), (1, True, 1)):
        a = SccFlag(F, b, size, selfedge, op_local(op))
        try:
            a.run({})
        except Stop:
            pass
        ok = a.out == {("k", want)}
        if not ok and not a.out:
            # the value came through something not modelled: require at least that both the size and
            # the self edge feed it
            ok = False
        R.ob("recursion-flag", f"{F.root_fn(b.name)}|size {size} self {selfedge}", ok, b.where(),
             "a cycle of functions is not flagged recursive, so its calls are not depth-checked")


def children(F, R, hir):
    """child_node_ids reads every node id of every variant's payload."""
    b = None
    for p in F.find("child_node_ids"):
        bb = F.body(p)
        if any(m.adt == hir for m in arms.matches(F, bb)):
            b = bb
    if b is None:
        R.bad("children", "child_node_ids", "", "not found")
        return
    R.fn(b)
    m = [x for x in arms.matches(F, b, hir)][0]
    a = F.adts[hir]
    n = 0
    for v in a["variants"]:
        need = set()
        for f in v["fields"]:
            need |= id_fields(F, f[1], (v["name"],))
        if not need:
            continue
        blocks = arms.reach_arm(b, m, v["name"])
        got = mentioned(F, b, blocks)
        for path in need:
            n += 1
            R.ob("children", f"{v['name']}.{path}", path in got or path == "" and bool(got_any(F, b, blocks)), b.where(),
                 f"the children of a {v['name']} node leave out {path or 'its node'}: what it refers to is invisible to the analyses")
    R.floor("node-id fields of HIR nodes", n, 25)


SKIP = {"cleanup"}


def id_fields(F, t, ctx, depth=0):
    """Field names holding node ids inside a payload (innermost local-struct field name)."""
    r = F.types[t]
    s = r["s"]
    if s.startswith("la_arena::Idx<hir::Node"):
        return {""}
    if r["k"] == "adt" and depth < 4:
        if r["d"] in F.adts and r["d"].startswith("hir::") and F.adts[r["d"]]["kind"] == "struct":
            out = set()
            for f in F.adts[r["d"]]["variants"][0]["fields"]:
                if f[0] in SKIP:
                    continue
                sub = id_fields(F, f[1], ctx, depth + 1)
                out |= {f[0] if x == "" or True else x for x in sub}
            return out
        out = set()
        for x in r["a"]:
            out |= id_fields(F, x, ctx, depth + 1)
        return out
    if r["k"] in ("tuple", "array", "slice"):
        out = set()
        for x in r["a"]:
            out |= id_fields(F, x, ctx, depth + 1)
        return out
    return set()


def mentioned(F, b, blocks):
    out = set()

    def pl(p):
        for e in p[1:]:
            if e.startswith("."):
                out.add(e[1:].split(":")[0])
    for i in blocks:
        bl = b.blocks[i]
        for s in bl["s"]:
            if s[0] == "=":
                for p in rv_places(s[2]):
                    pl(p)
        for o in term_operands(bl["t"]):
            if op_place(o):
                pl(op_place(o))
    return out


def got_any(F, b, blocks):
    return mentioned(F, b, blocks)


# -- the checks survive every representation -------------------------------------------------------
def copies(F, R, fam, hir):
    n = 0
    opk = next((p for p in fam if "StackSave" in fam[p]), None)
    for b in F.all_bodies():
        if derived(F, b):
            continue
        for m in arms.matches(F, b):
            if m.adt not in fam:
                continue
            outs = {rv[2] for i, p, rv, l in all_family(b, fam)}
            for v in (FUEL, DEPTH):
                if v not in m.targets:
                    continue
                reg = arms.region(b, m, v)
                made = [(rv[2], rv[3], l) for i, p, rv, l in all_family(b, fam) if i in reg]
                if not made:
                    continue
                n += 1
                R.fn(b)
                R.ob("copies", f"{F.root_fn(b.name)}|{v}", all(x == v for _, x, _ in made), b.where(m.block),
                     f"{v} is turned into {sorted({x for _, x, _ in made})}")
    # functions that rebuild nodes: those constructing a family enum's check outside a copy arm were handled
    R.floor("representations copying the checks", n, 6)
    # lowering to MIR
    k = 0
    for b in F.all_bodies(lambda f: not f.endswith("snapshot/hir.rs")):
        for m in arms.matches(F, b):
            if m.adt != hir or FUEL not in m.targets or DEPTH not in m.targets:
                continue
            if m.targets[FUEL] == m.targets[DEPTH] or derived(F, b):
                continue
            lower = {}
            for v in (FUEL, DEPTH):
                reg = arms.region(b, m, v)
                ks = set()
                for i, c in b.calls():
                    f = local_callee(F, c)
                    if i in reg and f:
                        ks |= {(i, x) for x in emitted(F, f, consts(c), opk)}
                lower[v] = ks
            if not any(lower.values()):
                continue
            for v, ks in lower.items():
                k += 1
                R.fn(b)
                R.ob("lowering", f"{F.root_fn(b.name)}|{v}", bool(ks) and {x for _, x in ks} == {v}, b.where(m.targets[v]),
                     f"{v} is lowered to {sorted({x for _, x in ks}) or 'nothing'}")
                # on every path of the arm
                blocks = {i for i, _ in ks}
                reg = arms.region(b, m, v)
                r = b.reachable([m.targets[v]], avoid=blocks)
                R.ob("lowering", f"{F.root_fn(b.name)}|{v}|always",
                     not any(x in b.return_blocks() for x in r) or m.targets[v] in blocks, b.where(m.targets[v]),
                     f"the lowering of {v} can be skipped")
    R.floor("MIR lowerings of the checks", k, 2)
    # execution: arms of both interpreters
    fuel_fns = {b.name for b in F.all_bodies() if writes_field(b, "fuel_remaining")}
    depth_fns = {b.name for b in F.all_bodies() if builds(b, "compiler::error::runtime::SandboxViolationKind", "CallDepthLimitExceeded")
                 and not b.name.endswith("::clone")}
    x = 0
    for b in F.all_bodies(lambda f: not f.startswith("src/compiler/snapshot")):
        for m in arms.matches(F, b):
            if m.adt not in (hir, opk) or FUEL not in m.targets or DEPTH not in m.targets:
                continue
            if m.targets[FUEL] == m.targets[DEPTH]:
                continue
            for v, want, other in ((FUEL, fuel_fns, depth_fns), (DEPTH, depth_fns, fuel_fns)):
                reg = arms.region(b, m, v) | {m.targets[v]}
                hits, wrong = set(), set()
                for i, c in b.calls():
                    if i not in reg:
                        continue
                    tg = {c.get("f")} | closure_args(F, b, c)
                    for g in tg:
                        if g in want or g in F.fns and any(y in want for y in F.callgraph.get(g, ())) and F.fns[g]["kind"] == "closure":
                            hits.add(i)
                        if g in other or g in F.fns and F.fns[g]["kind"] == "closure" and any(y in other for y in F.callgraph.get(g, ())):
                            wrong.add(i)
                if not hits and not wrong:
                    continue
                x += 1
                R.fn(b)
                r = b.reachable([m.targets[v]], avoid=hits)
                ok = not wrong and (m.targets[v] in hits or not any(y in r for y in b.return_blocks()))
                R.ob("execution", f"{F.root_fn(b.name)}|{v}", ok, b.where(m.targets[v]),
                     f"executing {v} does not always perform its check")
                for i in hits:
                    c = b.blocks[i]["t"][1]
                    f = c.get("f")
                    if f in F.fns and f not in want:
                        R.ob("execution", f"{f}|calls its check", runs_closure(F, f), F.body(f).where(),
                             "the check handed over is not run")
    R.floor("interpreter arms of the checks", x, 4)


def closure_args(F, b, c):
    out = set()
    for a in c["a"]:
        l = op_local(a)
        if l is None:
            continue
        r = b.ty(l)
        if r["k"] == "closure":
            for _, _, rv, _ in b.defs().get(l, []):
                if not is_call(rv) and rv[0] == "agg" and rv[1] == "closure":
                    out.add(rv[2])
    for a in c["a"]:
        if a[0] == "k" and "fn" in a[1]:
            out.add(a[1]["fn"])
        elif a[0] == "k":
            t = a[1].get("ty")
            if t is not None and F.types[t]["k"] == "closure":
                out.add(F.types[t]["d"])
    return out


def runs_closure(F, f):
    b = F.body(f)
    hits = {i for i, c in b.calls() if "ops::function::Fn" in c.get("f", "") and c["f"].endswith(("::call_once", "::call", "::call_mut"))}
    r = b.reachable([0], avoid=hits)
    return bool(hits) and not any(x in r for x in b.return_blocks())


def writes_field(b, name):
    for i, j, p, rv, l in b.assigns():
        if len(p) > 1 and (field_of(p, name) or "*" in p[1:2] and from_ref_of(b, p[0], name)):
            return True
        if rv[0] == "ref" and rv[1] == "mut" and field_of(rv[2], name):
            return True
    return False


def from_ref_of(b, l, name, depth=0):
    if depth > 6:
        return False
    for _, _, rv, p in b.defs().get(l, []):
        if is_call(rv):
            continue
        if rv[0] == "ref" and (field_of(rv[2], name) or from_ref_of(b, rv[2][0], name, depth + 1)):
            return True
        if rv[0] == "use" and op_local(rv[1]) is not None and from_ref_of(b, op_local(rv[1]), name, depth + 1):
            return True
    return False


def all_family(b, fam):
    return [(i, p, rv, l) for i, j, p, rv, l in b.assigns()
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] in fam]


def consts(c):
    return tuple((k + 1, a[1].get("v")) for k, a in enumerate(c["a"]) if a[0] == "k" and "v" in a[1])


def emitted(F, f, cs, opk, depth=0, seen=None):
    """Runtime checks the call constructs, following constant arguments."""
    seen = set() if seen is None else seen
    if (f, cs) in seen or depth > 3:
        return set()
    seen.add((f, cs))
    b = F.body(f)
    cm = dict(cs)

    def feas(i, tgt):
        t = b.blocks[i]["t"]
        if t[0] != "switch":
            return True
        for o in origins(b, t[1]):
            if o[0] == "arg" and o[1] in cm:
                v = str(cm[o[1]])
                v = {"True": "1", "False": "0"}.get(v, v)
                want = next((x for d, x in t[2] if d == v), t[3])
                return tgt == want
        return True
    blocks = b.reachable([0], edge_filter=feas)
    out = {rv[3] for i, j, p, rv, l in b.assigns() if i in blocks and rv[0] == "agg" and rv[1] == "adt" and
           rv[2] == opk and rv[3] in (FUEL, DEPTH)}
    for i, c in b.calls():
        g = local_callee(F, c)
        if i in blocks and g and (g.startswith("mir::operation::Operation::") or g.startswith("emit_mir::") and depth < 2):
            out |= emitted(F, g, consts(c), opk, depth + 1, seen)
    return out if len(out) <= 1 or depth == 0 else out


# -- what the checks do ----------------------------------------------------------------------------
class CheckFn(AbsInt):
    def __init__(self, F, body, ctx):
        super().__init__(F, body)
        self.ctx = ctx
        self.rets = []
        self.viol = "sandbox_violation"

    def compare(self, op, a, b):
        c = self.ctx
        flip = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        if a[0] == "k" and b[0] == "sym":
            return self.compare(flip[op], b, a)
        if a[0] == "sym" and b[0] == "k" and a[1] == "fuel":
            # fuel >= 1
            k = b[1] - a[2]
            if k <= 0:
                return {"Eq": False, "Ne": True, "Lt": False, "Le": False, "Gt": True, "Ge": True}[op]
            if k == 1:
                return {"Eq": None, "Ne": None, "Lt": False, "Le": None, "Gt": None, "Ge": True}[op]
            return None
        if a[0] == "sym" and b[0] == "sym" and {a[1], b[1]} == {"depth", "limit"}:
            if a[1] == "limit":
                return self.compare(flip[op], b, a)
            d = a[2] - b[2]
            if d != 0:
                return None
            rel = c["rel"]
            return {"Eq": rel == 0, "Ne": rel != 0, "Lt": rel < 0, "Le": rel <= 0, "Gt": rel > 0, "Ge": rel >= 0}[op]
        return None

    def on_call(self, c, args, mem, trace):
        f = c.get("f", "")
        b = self.F
        if f in b.fns:
            t = b.types[self.body.locals[c["d"][0]]]["s"] if len(c["d"]) == 1 else ""
            if "RuntimeError" in t and not t.startswith("core::result::Result"):
                kind = next((a[()][1] for a in args if a.get((), (None,))[0] == "enum" and
                             a[()][1] in ("FuelExhausted", "CallDepthLimitExceeded", "EnvironmentCellLimitExceeded")), None)
                kind = kind or inner_kind(b, f)
                return {(): ("app", "violation", kind)}
            if t.startswith("core::result::Result<eval::ControlFlow"):
                return {(): ("enum", "Ok")}
        return None

    def on_ret(self, mem, trace):
        r = mem.get((0,))
        res = r[1] if r and r[0] == "enum" else None
        err = mem.get((0, "as Err", ".0"))
        fuel = mem.get((1, "*", ".fuel_remaining"))
        val = mem.get((1, "*", ".fuel_remaining", "as Some", ".0"))
        self.rets.append((res, err, fuel, val, self.body.line(trace[-1])))


def inner_kind(F, f):
    ks = {rv[3] for i, j, p, rv, l in F.body(f).assigns() if rv[0] == "agg" and rv[1] == "adt" and
          rv[2].endswith("SandboxViolationKind")}
    return ks.pop() if len(ks) == 1 else None


def semantics(F, R):
    fuel_fns = [b for b in F.all_bodies() if writes_field(b, "fuel_remaining")]
    R.floor("functions spending fuel", len(fuel_fns), 1)
    base = (1, "*")
    for b in fuel_fns:
        R.fn(b)
        if not (b.args >= 1 and "EvalCtx" in b.tys(1)):
            R.bad("fuel", b.name + "|receiver", b.where(), "fuel is spent outside the execution context")
            continue
        for case in ("none", "zero", "positive"):
            mem = {}
            fk = base + (".fuel_remaining",)
            if case == "none":
                mem[fk] = ("enum", "None")
            else:
                mem[fk] = ("enum", "Some")
                mem[fk + ("as Some", ".0")] = ("k", 0) if case == "zero" else ("sym", "fuel", 0)
            a = CheckFn(F, b, {})
            a.run(mem)
            ok = bool(a.rets)
            why = ""
            for res, err, fu, val, line in a.rets:
                if case == "none":
                    good = res == "Ok" and fu == ("enum", "None")
                elif case == "zero":
                    good = res == "Err" and err == ("app", "violation", "FuelExhausted")
                else:
                    good = res == "Ok" and fu == ("enum", "Some") and val == ("sym", "fuel", -1)
                if not good:
                    ok = False
                    why = f"result {res}, fuel {val or fu} (line {line})"
            R.ob("fuel", f"{b.name}|{case}", ok, b.where(),
                 f"with {case} fuel the check must " +
                 {"none": "pass and leave it unlimited", "zero": "report exhaustion",
                  "positive": "pass and spend exactly one unit"}[case] + f": {why}")
    depth_fns = [b for b in F.all_bodies() if builds(b, "compiler::error::runtime::SandboxViolationKind", "CallDepthLimitExceeded")
                 and not b.name.endswith("::clone") and "EvalCtx" in (b.tys(1) if b.args else "")]
    R.floor("functions checking call depth", len(depth_fns), 1)
    for b in depth_fns:
        R.fn(b)
        for rel, case in ((-1, "below"), (0, "at"), (1, "above")):
            mem = {base + (".call_depth",): ("sym", "depth", 0), base + (".call_depth_limit",): ("sym", "limit", 0)}
            a = CheckFn(F, b, {"rel": rel})
            a.run(mem)
            ok = bool(a.rets) and all(
                (res == "Ok") if rel < 0 else (res == "Err" and err == ("app", "violation", "CallDepthLimitExceeded"))
                for res, err, fu, val, line in a.rets)
            R.ob("depth", f"{b.name}|{case}", ok, b.where(),
                 f"with the call depth {case} the limit the check must " + ("pass" if rel < 0 else "report a violation"))


# -- limits ----------------------------------------------------------------------------------------
LIMITS = ("fuel_remaining", "call_depth_limit", "environment_cell_limit")


def limits(F, R):
    n = 0
    fuel_fns = {b.name for b in F.all_bodies() if writes_field(b, "fuel_remaining")}
    for b in F.all_bodies():
        for i, j, p, rv, l in b.assigns():
            for f in LIMITS:
                last = [e for e in p[1:] if e != "*"]
                if last and last[-1].startswith(f".{f}:") and last[-1].split(":", 1)[1].startswith("eval::EvalCtx") and b.name not in fuel_fns:
                    R.bad("limits", f"{F.root_fn(b.name)}|write {f}", f"{b.meta['file']}:{l}", "an execution limit is changed after the executor was built")
                if rv[0] == "ref" and rv[1] == "mut" and field_of(rv[2], f, "eval::EvalCtx") and b.name not in fuel_fns:
                    R.bad("limits", f"{F.root_fn(b.name)}|borrow {f}", f"{b.meta['file']}:{l}", "an execution limit is changed after the executor was built")
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] == "eval::EvalCtx":
                src = {"fuel_remaining": "fuel_limit"}
                for f in LIMITS:
                    n += 1
                    op = rv[4][rv[5].index(f)]
                    og = origins(b, op)
                    ok = all(o[0] == "place" and field_of(list(o[1]), src.get(f, f)) and
                             "Limits" in b.tys(o[1][0]) for o in og) and bool(og)
                    R.ob("limits", f"{b.name}|{f}", ok, f"{b.meta['file']}:{l}",
                         f"the executor's {f} is not the limit it was given")
    R.floor("limit fields initialised", n, 3)
    # builders store what they are given, functions with limits pass them on
    k = 0
    for b in F.all_bodies():
        m = b.meta
        if m["kind"] not in ("fn",):
            continue
        short = b.name.rsplit("::", 1)[-1]
        lim_args = [i for i in range(1, b.args + 1) if is_limits(F, b.locals[i])]
        fuel_args = [i for i in range(1, b.args + 1) if b.tys(i) == "core::option::Option<usize>" and
                     "fuel" in (b.var_name(i) or "")]
        if fuel_args and lim_args:
            for fa in fuel_args:
                k += 1
                R.fn(b)
                ok = any(len(p) > 1 and field_of(p, "fuel_limit") and ("arg", fa) in
                         set().union(*[origins(b, o) for o in rv_operands(rv)] or [set()])
                         for i, j, p, rv, l in b.assigns())
                fw = forward(b, {fa})
                ok = ok or any(local_callee(F, c) and any(op_local(a) in fw for a in c["a"]) for i, c in b.calls())
                R.ob("limits", f"{b.name}|stores", ok, b.where(), "the fuel limit given is not stored")
            continue
        sources = set(lim_args) | set(fuel_args)
        own = forward(b, sources) if sources else set()
        fields = {p[0] for i, j, p, rv, l in b.assigns() for q in rv_places(rv) if field_of(q, "execution_fuel_limit")}
        selff = forward(b, fields) if fields else set()
        for i, c in b.calls():
            f = local_callee(F, c)
            if not f:
                continue
            dt = F.types[b.locals[c["d"][0]]] if len(c["d"]) == 1 else None
            if dt and dt["k"] == "adt" and dt["d"] in ("eval::EvalCtx", "mir::interpreter::Interpreter") and \
                    (sources or has_fuel_field(F, b)):
                k += 1
                ok = any(faithful(F, b, a, sources, selff, bool(lim_args)) for a in c["a"])
                R.ob("limits", f"{F.root_fn(b.name)}|executor", ok, b.where(i),
                     "an executor is built without the limits this function was given")
            cb = F.body(f) if F.fns[f]["kind"] == "fn" else None
            if cb is None:
                continue
            for ai, a in enumerate(c["a"]):
                if ai + 1 > cb.args:
                    continue
                t = cb.locals[ai + 1]
                isl = is_limits(F, t)
                isf = F.types[t]["s"] == "core::option::Option<usize>" and "fuel" in (cb.var_name(ai + 1) or "")
                if not (isl or isf):
                    continue
                if "Limits" in f and not isf:
                    continue
                k += 1
                R.fn(b)
                if sources or has_fuel_field(F, b):
                    ok = faithful(F, b, a, sources, selff, bool(lim_args))
                else:
                    ok = True
                R.ob("limits", f"{F.root_fn(b.name)}|passes on to {f.rsplit('::', 1)[-1]}", ok, b.where(i),
                     "the limits this function was given are replaced by others")
    R.floor("limits handed on", k, 10)


def faithful(F, b, op, sources, selff, whole, depth=0):
    """The operand is the limits this function was given, or built from all of them."""
    if depth > 6 or op_place(op) is None:
        return False
    og = origins(b, op)
    if not og:
        return False
    for o in og:
        if o[0] == "arg":
            if o[1] not in sources:
                return False
        elif o[0] == "place":
            if o[1][0] not in sources and not field_of(list(o[1]), "execution_fuel_limit") and \
                    not (faithful(F, b, ["c", [o[1][0]]], sources, selff, whole, depth + 1)):
                return False
        elif o[0] == "call":
            c = b.blocks[o[2]]["t"][1]
            if not o[1].startswith("execution::"):
                return False
            args = [x for x in c["a"] if op_place(x) is not None]
            if whole:
                if not (args and faithful(F, b, args[0], sources, selff, whole, depth + 1)):
                    return False
            elif not any(faithful(F, b, x, sources, selff, whole, depth + 1) for x in args):
                return False
        elif o[0] == "agg":
            for i, j, p, rv, l in b.assigns():
                if i == o[2] and rv[0] == "agg" and f"{rv[2]}::{rv[3]}" == o[1]:
                    if not all(faithful(F, b, x, sources, selff, whole, depth + 1) for x in rv[4]):
                        return False
        else:
            return False
    return True


def is_limits(F, t):
    r = F.types[t]
    while r["k"] in ("ref", "refmut"):
        r = F.types[r["a"][-1]]
    return r["k"] == "adt" and r["d"] in ("execution::ReferenceInterpreterLimits", "execution::ExecutionLimits")


def has_fuel_field(F, b):
    if not b.args:
        return False
    r = b.ty(1)
    while r["k"] in ("ref", "refmut"):
        r = F.types[r["a"][-1]]
    a = F.adts.get(r["d"]) if r["k"] == "adt" else None
    return bool(a) and any(f[0] == "execution_fuel_limit" for v in a["variants"] for f in v["fields"])


# -- MIR passes --------------------------------------------------------------------------------------
ALONE = ("mir::pass::inline::check_inlinable",)


def passes(F, R, fam):
    """No pass singles the checks out: it can neither drop, merge nor move them on purpose. The inliner
    may look for depth checks, to refuse recursive callees."""
    opk = next((p for p in fam if "StackSave" in fam[p]), None)
    n = 0
    for b in F.all_bodies(lambda f: f.startswith("src/mir/pass"), kinds=("fn", "closure", "promoted")):
        root = F.root_fn(b.name)
        for m in arms.matches(F, b, opk):
            n += 1
            for v in (FUEL, DEPTH):
                t = m.targets.get(v)
                if t is None:
                    continue
                R.fn(b)
                shared = {x for x, y in m.targets.items() if y == t}
                ok = not shared <= {FUEL, DEPTH} or root in ALONE
                R.ob("passes", f"{root}|{v}", ok, b.where(m.block), f"a pass treats {v} specially")
        for i, p, rv, l in all_family(b, {opk: 1}):
            if rv[3] in (FUEL, DEPTH):
                R.bad("passes", f"{root}|names {rv[3]}", f"{b.meta['file']}:{l}", f"a pass creates or looks for {rv[3]}")
    R.floor("operation matches in passes", n, 80)
    for f in ALONE:
        if f not in F.fns:
            continue
        # the inliner refuses callees that carry a depth check
        for q in [f] + all_closures(F, f):
            b = F.body(q)
            for m in arms.matches(F, b, opk):
                if DEPTH in m.targets and b.tys(0) == "bool":
                    vals = {str(rv[1][1].get("v")) for i, j, p, rv, l in b.assigns()
                            if p == [0] and i in arms.region(b, m, DEPTH) | {m.targets[DEPTH]} and rv[0] == "use" and rv[1][0] == "k"}
                    R.ob("passes", f"{f}|refuses recursion", vals == {"1"}, b.where(m.block),
                         "the inliner no longer recognises recursive callees")
