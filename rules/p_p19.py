"""P19: overlapping mutable borrows are rejected before code is published."""
from facts import *
import arms
from canon import Frame, last, alternatives, elem
from common import bool_edges, negations, reach_avoiding
from must import Must
from walks import Leaves, extend
from p_p06 import ok_edges_of

EXPLANATION = ("The borrow checker is followed from publication down: every elaborated function is built only after the borrow check of "
               "its root succeeded; the check visits every child of every node, hands the arguments of every kind of call to the pair "
               "test, and reports what that returns; the pair test compares every pair of mutably lent arguments and reports an "
               "overlap; two places count as disjoint only after a comparison found their variables or corresponding parts of them "
               "different. A static index part comes only from a non-negative immediate. Snapshot planning looks at every construct "
               "that writes a place. Place returns and yields are accepted only through the root tests.")

KIND = "hir::NodeKind"
PAIR_SKIPS = {"step_by", "take", "take_while", "skip_while", "map_while", "windows", "chunks", "first", "last", "find_map", "dedup",
              "nth", "truncate", "pop", "tuple_windows", "dedup_by_key", "retain", "split_first", "split_last", "last_mut", "first_mut"}


def is_node_kind(adt):
    return adt == KIND


def fns_building(F, variant):
    """Functions (outermost) that build the given variant of an error."""
    out = {}
    for b in F.all_bodies():
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[3] == variant and i in b.live:
                out.setdefault(b.name, []).append(i)
    return out


def run(F, R, tier):
    overlap = find_overlap(F, R)
    if not overlap:
        return
    disjoint(F, R, overlap)
    pair = pair_test(F, R, overlap)
    check = node_check(F, R, pair)
    recursion(F, R)
    publication(F, R, check)
    index_parts(F, R)
    roots(F, R)
    writes(F, R, overlap)
    aliases(F, R)
    snapshots(F, R)
    queries(F, R, overlap)


def path_type(F):
    for a, d in F.adts.items():
        if a.startswith("hir::borrow_checker::") and d["kind"] == "struct" and d["variants"]:
            tys = [F.types[f[1]]["s"] for f in d["variants"][0]["fields"]]
            if any(t.startswith(("alloc::vec::Vec<hir::borrow", "smallvec::SmallVec<[hir::borrow")) for t in tys):
                return a
    return None


def find_overlap(F, R):
    path = path_type(F)
    if path is None:
        R.bad("anchor", "path", "src/hir/borrow_checker.rs", "no type of place paths (a variable and a list of parts) was found")
        return set()
    out = set()
    for b in F.all_bodies():
        if b.args == 2 and b.tys(0) == "bool" and all(b.tys(k).replace("&", "").replace("'_ ", "").strip() == path for k in (1, 2)) \
                and not last(b.name) in ("eq", "ne"):
            out.add(b.name)
    if not out:
        R.bad("anchor", "overlap", "src/hir/borrow_checker.rs", "no test for the overlap of two place paths was found")
    return out


# ---- disjointness

def swap(t, a, b):
    """The term with the roots of the two paths made equal."""
    if t == ("arg", a) or t == ("arg", b):
        return ("side",)
    if isinstance(t, tuple):
        return tuple(swap(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def rooted(t, n):
    if t == ("arg", n):
        return True
    return isinstance(t, tuple) and any(rooted(x, n) for x in t if isinstance(x, tuple))


def aligned(t):
    """Only fields and elements on the way to the root: no reversal, no selection."""
    if t[0] == "arg":
        return True
    if t[0] in ("f", "e"):
        return aligned(t[1])
    if t[0] == "phi":
        return all(aligned(x) for x in t[1])
    return False


def same_part(x, y, a, b):
    """The terms are one and the same component of the two paths."""
    for p, q in ((x, y), (y, x)):
        if rooted(p, a) and not rooted(p, b) and rooted(q, b) and not rooted(q, a) and swap(p, a, b) == swap(q, a, b) \
                and aligned(p) and aligned(q):
            s = str(p)
            return ".0'" in s or "'variable'" in s or p[0] == "f" and p[1] == ("arg", a)
    return False


def differs(F, fr, roots, depth=0):
    """cond(op) -> True when the operand being true implies a difference, False when its being false does."""
    b = fr.b
    a1, a2 = roots

    def neq(p, rv):
        if rv is None:
            return False
        if is_call(rv):
            f = rv.get("f", "?")
            if last(f) == "ne" and len(rv["a"]) == 2:
                return same_part(fr.op(rv["a"][0]), fr.op(rv["a"][1]), a1, a2)
            if last(f) == "any" and f not in F.fns:
                return closure_implies(F, fr, rv, roots, "1", depth)
            if f in F.fns and depth < 3 and b.tys(rv["d"][0]) == "bool":
                return helper_implies(F, fr, rv, roots, "1", depth)
            return False
        return rv[0] == "bin" and rv[1] == "Ne" and same_part(fr.op(rv[2]), fr.op(rv[3]), a1, a2)

    def eq(p, rv):
        if rv is None:
            return False
        if is_call(rv):
            f = rv.get("f", "?")
            if last(f) == "eq" and len(rv["a"]) == 2:
                return same_part(fr.op(rv["a"][0]), fr.op(rv["a"][1]), a1, a2)
            if last(f) == "all" and f not in F.fns:
                return closure_implies(F, fr, rv, roots, "0", depth)
            if f in F.fns and depth < 3 and b.tys(rv["d"][0]) == "bool":
                return helper_implies(F, fr, rv, roots, "0", depth)
            return False
        return rv[0] == "bin" and rv[1] == "Eq" and same_part(fr.op(rv[2]), fr.op(rv[3]), a1, a2)

    def cond(op, blk):
        k = negations(b, op, neq)
        if k is not None:
            return k
        k = negations(b, op, eq)
        return None if k is None else not k
    return cond


def closure_implies(F, fr, c, roots, answer, depth):
    for o in c["a"][1:]:
        for y in alternatives(fr.op(o)):
            if y[0] == "clo" and y[1] in F.fns and depth < 3:
                cb = F.body(y[1])
                item = elem(fr.op(c["a"][0]))
                sub = Frame(F, cb, {k: item for k in range(2, cb.args + 1)}, y[2])
                return implies(F, sub, roots, answer, depth + 1) is None
    return False


def helper_implies(F, fr, c, roots, answer, depth):
    cb = F.body(c["f"])
    sub = Frame(F, cb, {n + 1: fr.op(o) for n, o in enumerate(c["a"])})
    return implies(F, sub, roots, answer, depth + 1) is None


def implies(F, fr, roots, answer, depth=0):
    """None if the body's returning `answer` implies a difference, else a block where it does not."""
    b = fr.b
    cond = differs(F, fr, roots, depth)
    e = bool_edges(b, cond, True)
    free = {0} | reach_avoiding(b, [0], (), e)
    # locals that become the result
    res = {0}
    ch = True
    while ch:
        ch = False
        for i, j, p, rv, l in b.assigns():
            if len(p) == 1 and p[0] in res and rv[0] == "use" and op_place(rv[1]) and len(op_place(rv[1])) == 1 and op_local(rv[1]) not in res:
                res.add(op_local(rv[1]))
                ch = True
    for l in res:
        for i, j, rv, p in b.defs().get(l, []):
            if i not in b.live or len(p) != 1 or i not in free:
                continue
            if not is_call(rv) and rv[0] == "use":
                if rv[1][0] == "k":
                    if rv[1][1].get("v") == answer:
                        return i
                continue
            want = cond(["c", [l]], i) if len(b.defs().get(l, [])) == 1 else single(b, rv, cond, l)
            if want is None or want != (answer == "1"):
                return i
    return None


def single(b, rv, cond, l):
    """The condition of one of several definitions of a local."""
    saved = b.defs()[l]
    b.defs()[l] = [d for d in saved if d[2] is rv]
    try:
        return cond(["c", [l]], 0)
    finally:
        b.defs()[l] = saved


def disjoint(F, R, overlap):
    for f in sorted(overlap):
        b = F.body(f)
        R.fn(b)
        bad = implies(F, Frame(F, b), (1, 2), "0")
        R.ob("disjoint", f, bad is None, b.where(bad or 0),
             f"{last(f)} answers that two places are disjoint without having found their variables or corresponding parts different")
    R.floor("overlap tests", len(overlap), 1)


# ---- the pair test

def pair_test(F, R, overlap):
    builders = {F.root_fn(n) for n in fns_building(F, "MutablePathsOverlap")}
    pair = set()
    for f in sorted(builders):
        b = F.body(f)
        row = b.tys(1) if b.args else ""
        args = [k for k in range(1, b.args + 1) if "CallArgument" in b.tys(k) and b.tys(k).startswith("&")]
        if not args or not b.tys(0).startswith("core::result::Result<()"):
            continue
        pair.add(f)
        R.fn(b)
        one_pair_test(F, R, b, args[0], overlap)
    if not pair:
        R.bad("anchor", "pair", "src/hir/borrow_checker.rs", "no function tests pairs of mutably lent arguments for overlap")
    return pair


def family(F, b):
    """The body, its closures and the private helpers it calls."""
    out = [b]
    todo = [b]
    while todo:
        x = todo.pop()
        subs = [F.body(c) for c in F.closures_of(x.name)] if hasattr(F, "closures_of") else []
        for i, c in x.calls():
            f = c.get("f", "?")
            if f in F.fns and f.startswith("hir::borrow_checker::") and F.body(f) is not None and "::Path>::" not in f and "from_" not in last(f):
                subs.append(F.body(f))
        for s in subs:
            if s is not None and all(s.name != o.name for o in out):
                out.append(s)
                todo.append(s)
    return out


def mutable_only(F, fr, c):
    """The filter keeps exactly the arguments whose passing is MutableRef."""
    for o in c["a"][1:]:
        for y in alternatives(fr.op(o)):
            if y[0] == "clo" and y[1] in F.fns:
                return keeps_mutable(F, F.body(y[1]))
    return False


def keeps_mutable(F, b):
    """The closure answers true (or Some) exactly for MutableRef: a test of `passing` decides."""
    tests = passing_tests(F, b)
    if not tests:
        return False
    no = passing_edges(F, b, False)
    free = {0} | reach_avoiding(b, [0], (), no)
    for i, rv in alldefs(b, 0):
        if i not in free:
            continue            # known not to be lent mutably
        if is_call(rv):
            n = last(rv.get("f", "?"))
            if b.tys(0) == "bool":
                if i not in tests:
                    return False
            elif n in ("then", "then_some"):
                if negations(b, rv["a"][0], lambda p, r: r is not None and is_call(r) and last(r.get("f", "?")) == "eq" and
                             any(mentions_mutable(F, b, o) for o in r["a"])) is not True:
                    return False
            continue
        if rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == "1" or rv[0] == "agg" and rv[3] == "Some":
            continue
        if rv[0] == "un" and rv[1] == "Not" and negations(b, rv[2], lambda p, r: r is not None and is_call(r) and last(r.get("f", "?")) == "ne") is True:
            continue
        return False
    return True


def passing_tests(F, b):
    out = set()
    for i, c in b.calls():
        if last(c.get("f", "?")) in ("eq", "ne") and any("ArgConvention" in b.tys(op_local(o)) for o in c["a"] if op_local(o) is not None):
            out.add(i)
    for m in arms.matches(F, b):
        if m.adt.endswith("::ArgConvention"):
            out.add(m.block)
    return out


def mentions_mutable(F, b, op, depth=0):
    if op[0] == "k":
        s = str(op[1])
        if "MutableRef" in s:
            return True
        if "prom" in op[1]:
            pb = F.body(f"{op[1]['def']}::{{promoted#{op[1]['prom']}}}")
            return pb is not None and any(rv[0] == "agg" and rv[3] == "MutableRef" for i, j, p, rv, l in pb.assigns())
        return False
    l = op_local(op)
    if depth > 4 or l is None:
        return False
    for i, j, rv, p in b.defs().get(l, []):
        if is_call(rv):
            continue
        if rv[0] == "agg" and rv[3] == "MutableRef":
            return True
        if rv[0] == "use" and mentions_mutable(F, b, rv[1], depth + 1):
            return True
        if rv[0] == "ref" and mentions_mutable(F, b, ["c", [rv[2][0]]], depth + 1):
            return True
    return False


def passing_edges(F, b, mutable):
    """Edges on which an argument is known (not) to be lent mutably."""
    def yes(p, rv):
        return rv is not None and is_call(rv) and last(rv.get("f", "?")) == "eq" and any(mentions_mutable(F, b, o) for o in rv["a"])

    def no(p, rv):
        return rv is not None and is_call(rv) and last(rv.get("f", "?")) == "ne" and any(mentions_mutable(F, b, o) for o in rv["a"])

    def cond(op, blk):
        k = negations(b, op, yes)
        if k is None:
            k = negations(b, op, no)
            k = None if k is None else not k
        return k
    out = bool_edges(b, cond, mutable)
    for m in arms.matches(F, b):
        if m.adt.endswith("::ArgConvention"):
            t = arms.target_of(m, "MutableRef")
            for v in ("Let",):
                u = arms.target_of(m, v)
                if t != u:
                    out.add((m.block, t if mutable else u))
    return out


def one_pair_test(F, R, b, arg, overlap):
    fr = Frame(F, b)
    key = b.name
    bodies = family(F, b)
    for x in bodies:
        R.fn(x)
        xf = Frame(F, x)
        for i, c in x.calls():
            f = c.get("f", "?")
            n = last(f)
            if f in F.fns or i not in x.live:
                continue
            if n in PAIR_SKIPS:
                R.bad("pairs", f"{key}|{n}", x.where(i), f"the test of pairs leaves elements out through {n}")
            if n in ("filter", "filter_map"):
                R.ob("pairs", f"{key}|{n}", mutable_only(F, xf, c), x.where(i),
                     "the filter before the pair test does not keep exactly the mutably lent arguments")
            if n == "skip" or n == "index" and any(y[0] == "agg" and "RangeFrom" in str(y[1]) for y in alternatives(xf.op(c["a"][-1]))):
                k = xf.op(c["a"][-1])
                if k[0] == "agg":
                    k = k[3] if len(k) > 3 else k
                R.ob("pairs", f"{key}|{n}", next_index(k), x.where(i),
                     "the inner list of pairs does not start right after the outer element")
    # an overlap is an error, no overlap goes on to the next pair
    hits = 0
    for x in bodies:
        for i, c in x.calls():
            if c.get("f") not in overlap or i not in x.live:
                continue
            hits += 1
            reported(F, R, key, x, i, fr)
    R.ob("pairs", f"{key}|test", hits > 0, b.where(0), "the test of pairs compares no pair of places")
    # each iteration tests
    for x in bodies:
        loops_test(F, R, key, x, overlap)
    # no return without the loops, except for fewer than two arguments
    early(F, R, key, b, arg, overlap)


def next_index(t):
    """The outer index plus one."""
    s = t
    while isinstance(s, tuple) and s[0] == "f":
        s = s[1]
    if not isinstance(s, tuple) or s[0] != "bin" or not s[1].startswith("Add"):
        return False
    return ("k", "1") in s[2:] and any(x != ("k", "1") for x in s[2:])


def result_edges(b, i):
    M = Must.__new__(Must)
    return Must.true_edges(M, b, i, True), Must.true_edges(M, b, i, False)


def reported(F, R, key, b, i, fr):
    yes, no = result_edges(b, i)
    d = b.blocks[i]["t"][1]["d"]
    if not yes:
        # the answer of a closure: an adaptor's business (any, find, filter)
        if b.tys(0) == "bool" and (d == [0] or Must.returned(Must.__new__(Must), b, i)):
            return
        R.bad("report", f"{key}|{b.name}", b.where(i), "the answer of the overlap test is not looked at")
        return
    errs = {j for j, k, p, rv, l in b.assigns() if rv[0] == "agg" and rv[3] in ("Err", "MutablePathsOverlap")} | \
           {j for j, k, p, rv, l in b.assigns() if b.tys(0) == "bool" and p == [0] and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == "1"} | \
           {j for j, k, p, rv, l in b.assigns() if rv[0] == "agg" and rv[3] == "Some" and p == [0]}
    for x, y in yes:
        seen = ({y} if y not in errs else set()) | b.reachable([y], avoid=tuple(errs)) if y not in errs else set()
        bad = any(r in seen for r in b.return_blocks()) or i in seen
        R.ob("report", f"{key}|{b.name}", not bad, b.where(i), "an overlap of two mutably lent places is found but not reported")


def loops_test(F, R, key, b, overlap):
    sites = [i for i, c in b.calls() if c.get("f") in overlap and i in b.live]
    calls = set(sites)
    for i, c in b.calls():
        for o in c["a"][1:]:
            for y in alternatives(Frame(F, b).op(o)):
                if y[0] == "clo" and y[1] in F.fns and any(c2.get("f") in overlap for _, c2 in F.body(y[1]).calls()):
                    calls.add(i)
    if not calls:
        return
    fail = {i for i, j, p, rv, l in b.assigns() if rv[0] == "agg" and rv[3] == "Err"}
    skip = passing_edges(F, b, False)
    M = Must.__new__(Must)
    heads = [i for i, c in b.calls() if last(c.get("f", "?")) in ("next", "next_back") and i in b.live and
             b.blocks[i]["t"][2] is not None and any(s in b.reachable([b.blocks[i]["t"][2]]) for s in calls)]
    heads = [h for h in heads if h in b.reachable([b.blocks[h]["t"][2]])]
    inner = set()
    for h in heads:
        some, none = Must.some_none(M, b, h)
        body = b.reachable([y for x, y in some], avoid=(h,)) | {y for x, y in some}
        sub = [g for g in heads if g != h and g in body and h in b.reachable([g])]
        goals = calls | set(sub)
        if not any(g in body for g in goals):
            continue
        for x, y in some:
            seen = set() if y in goals | fail else {y} | b.reachable([y], avoid=tuple(goals | fail), edge_filter=lambda p, q: (p, q) not in skip)
            bad = h in seen or any(r in seen for r in b.return_blocks())
            R.ob("pairs", f"{key}|every", not bad, b.where(h), "an iteration of the pair test goes on without testing its pair")
            # leaving the loop without an error ends the test early
            rest = {y} | b.reachable([y], avoid=tuple(fail | {h}))
            R.ob("pairs", f"{key}|all", not any(r in rest for r in b.return_blocks()) or b.tys(0) == "bool", b.where(h),
                 "the pair test stops before all pairs were tested")


def early(F, R, key, b, arg, overlap):
    """From the entry a successful return is reached only through the loops, or with fewer than two candidates."""
    M = Must.__new__(Must)
    goals = set()
    for i, c in b.calls():
        n = last(c.get("f", "?"))
        if n in ("next", "next_back") and i in b.reachable([b.blocks[i]["t"][2]]):
            goals.add(i)
        if n in ("any", "find", "find_map", "position", "try_for_each", "all", "for_each", "try_fold") or c.get("f") in overlap:
            goals.add(i)
        if c.get("f") in F.fns and c["f"].startswith("hir::borrow_checker::") and any(
                c2.get("f") in overlap for x in family(F, F.body(c["f"])) for _, c2 in x.calls()):
            goals.add(i)
    small = few_edges(F, b)
    fail = {i for i, j, p, rv, l in b.assigns() if rv[0] == "agg" and rv[3] == "Err"}
    seen = {0} | b.reachable([0], avoid=tuple(goals | fail), edge_filter=lambda p, q: (p, q) not in small)
    R.ob("pairs", f"{key}|reached", not any(r in seen for r in b.return_blocks()), b.where(0),
         "the pair test succeeds on a path that tests no pair")


def few_edges(F, b):
    """Edges on which a list is known to have at most one element."""
    fr = Frame(F, b)
    out = set()
    for i in b.live:
        t = b.blocks[i]["t"]
        if t[0] != "switch":
            continue
        l = op_local(t[1])
        for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
            if is_call(rv):
                if last(rv.get("f", "?")) == "is_empty":
                    tg = dict(t[2])
                    out.add((i, tg.get("1", t[3])))
                continue
            if rv[0] != "bin" or rv[1] not in ("Lt", "Le", "Gt", "Ge", "Eq"):
                continue
            x, y = fr.op(rv[2]), fr.op(rv[3])
            op = rv[1]
            if y[0] == "len" and x[0] == "k":
                x, y = y, x
                op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq"}[op]
            if x[0] != "len" or y[0] != "k" or not y[1].isdigit():
                continue
            k = int(y[1])
            tg = dict(t[2])
            one, zero = tg.get("1", t[3]), tg.get("0", t[3])
            if op == "Lt" and k <= 2 or op == "Le" and k <= 1 or op == "Eq" and k <= 1:
                out.add((i, one))
            if op == "Gt" and k <= 1 or op == "Ge" and k <= 2:
                out.add((i, zero))
    return out


# ---- every call node

def call_kinds(F):
    """Variants of NodeKind that carry a list of call arguments -> the path to it."""
    L = Leaves(F)
    out = {}
    for v in F.adts[KIND]["variants"]:
        for path, fam in L.of_variant(KIND, v["name"]):
            if len(path) == 4 and path[2:] == ("e", "value"):
                out[v["name"]] = path[:2]
    return out


LATE_NEVER = {"FieldAccess", "TraitMethodApply", "GetTraitMethod", "GetTraitAssociatedConst", "GetTraitDictionary"}


def variant_edges(F, fr, root, variant):
    """Edges of matches on the value that this variant cannot take (in this body)."""
    out = set()
    for m in arms.matches(F, fr.b):
        if m.adt == KIND and fr.place(m.place) == root:
            right = arms.target_of(m, variant)
            for t in list(m.targets.values()) + [m.otherwise]:
                if t is not None and t != right:
                    out.add((m.block, t))
    return out


def option_helper(F, f, variant, path):
    """A local function from a node kind to its argument list: this variant's list, always."""
    b = F.body(f)
    if b is None or b.args != 1 or not b.tys(0).startswith("core::option::Option<"):
        return False
    fr = Frame(F, b)
    root = ("arg", 1)
    want = extend(extend(root, path[0]), path[1])
    dead = variant_edges(F, fr, root, variant)
    seen = {0} | b.reachable([0], edge_filter=lambda x, y: (x, y) not in dead)
    found = False
    for i, j, p, rv, l in b.assigns():
        if p == [0] and i in seen and i in b.live:
            if rv[0] == "agg" and rv[3] == "Some" and fr.op(rv[4][0]) == want:
                found = True
            else:
                return False
    return found


def node_check(F, R, pair):
    kinds = call_kinds(F)
    R.floor("call kinds", len(kinds), 5)
    check = set()
    for b in F.all_bodies():
        if b.args < 2 or not b.tys(0).startswith("core::result::Result<()") or b.name in pair or b.name != F.root_fn(b.name):
            continue
        if not any(c.get("f") in pair for x in [b] + bodies_below(F, b) for _, c in x.calls()):
            continue
        if not any("Arena<hir::Node<hir::Elaborated>>" in b.tys(k) and b.tys(k).startswith("&") for k in range(1, b.args + 1)):
            continue
        if not any(b.tys(k).startswith("la_arena::Idx<hir::Node") for k in range(1, b.args + 1)):
            continue
        fr = Frame(F, b)
        root = None
        for m in arms.matches(F, b):
            if m.adt == KIND:
                root = fr.place(m.place)
        if root is None:
            for i, c in b.calls():
                for o in c["a"]:
                    t = fr.op(o)
                    if t[0] == "f" and t[2] == "kind":
                        root = t
        if root is None or root[0] != "f":
            continue
        check.add(b.name)
        R.fn(b)
        for v, path in sorted(kinds.items()):
            if v in LATE_NEVER:
                continue
            want = extend(extend(root, path[0]), path[1])
            through = {}

            def goal(fr2, i, c, want=want, v=v, path=path):
                if c.get("f") not in pair:
                    return False
                for o in c["a"]:
                    for t in alternatives(fr2.op(o)):
                        if t == want:
                            return True
                        # the list comes from a helper on the node's kind
                        t = strip(t)
                        if t[0] == "call" and t[1] in F.fns and len(t) == 3 and t[2] == root and option_helper(F, t[1], v, path):
                            return True
                return False
            M = Must(F, goal, targets=pair)
            dead = variant_edges(F, fr, root, v) | none_of_helper(F, fr, root, v, path)
            dead |= settled(F, b, dead)
            ok = M.holds(fr, 0, (), dead)
            R.ob("calls", f"{b.name}|{v}", ok, b.where(0),
                 f"the borrow check of a {v} node can succeed without the pair test of its arguments")
    if not check:
        R.bad("anchor", "check", "src/hir/borrow_checker.rs", "no function checks the borrows of a node")
    R.floor("call arms", R.by_rule.get("calls", [0])[0], 4)
    return check


def settled(F, b, dead):
    """None edges of Options that are Some on every path left."""
    out = set()
    seen = {0} | b.reachable([0], edge_filter=lambda x, y: (x, y) not in dead)
    for i in b.live:
        t = b.blocks[i]["t"]
        if t[0] != "switch":
            continue
        l = op_local(t[1])
        for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
            if is_call(rv) or rv[0] != "disc" or not F.types[rv[2]].get("d", "").endswith("option::Option") or len(rv[1]) != 1:
                continue
            ds = [r for k, r in alldefs(b, rv[1][0]) if k in seen]
            if ds and all(not is_call(r) and r[0] == "agg" and r[3] == "Some" for r in ds):
                out.add((i, dict(t[2]).get("0", t[3])))
    return out


def strip(t):
    while isinstance(t, tuple) and t[0] in ("f",) and t[2] in ("Some.0", "0"):
        t = t[1]
    return t


def none_of_helper(F, fr, root, variant, path):
    """None edges of a helper that always gives this variant's arguments."""
    b = fr.b
    out = set()
    for i in b.live:
        t = b.blocks[i]["t"]
        if t[0] != "switch":
            continue
        l = op_local(t[1])
        for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
            if is_call(rv) or rv[0] != "disc":
                continue
            x = fr.place(rv[1])
            if x[0] == "call" and x[1] in F.fns and len(x) == 3 and x[2] == root and option_helper(F, x[1], variant, path):
                out.add((i, dict(t[2]).get("0", t[3])))
    return out


def bodies_below(F, b):
    out = []
    for i, c in b.calls():
        f = c.get("f", "?")
        if f in F.fns and f.startswith("hir::borrow_checker::") and f != b.name:
            x = F.body(f)
            if x is not None:
                out.append(x)
    for c in F.closures_of(b.name):
        out.append(F.body(c))
    return [x for x in out if x is not None]


# ---- recursion into the children

def child_lists(F):
    """Functions from a node kind to the list of its children."""
    out = set()
    for b in F.all_bodies():
        if b.args == 1 and "NodeKind" in b.tys(1) and b.tys(1).startswith("&") and "Idx<hir::Node" in b.tys(0) and \
                b.tys(0).startswith(("smallvec::SmallVec<", "alloc::vec::Vec<")):
            out.add(b.name)
    return out


def recursions(F, names=None):
    """(body, block of the children's list, function, whether every child is visited, also from the entry)"""
    lists = child_lists(F)
    for b in F.all_bodies():
        fr = None
        for i, c in b.calls():
            if c.get("f") not in lists or i not in b.live:
                continue
            root = F.root_fn(b.name)
            if names is not None and not names(root):
                continue
            if not any(c2.get("f") == root for x in [b] + [F.body(k) for k in F.closures_of(root)] for _, c2 in x.calls()):
                continue
            fr = fr or Frame(F, b)
            cont = fr.call(c)

            def goal(fr2, i2, c2, root=root, cont=cont):
                return c2.get("f") == root and any(fr2.op(o) == ("e", cont) for o in c2["a"])
            decs = ("1", "0") if b.tys(0) == "bool" else (None,)
            ok = any(Must(F, goal, d, targets={root}).holds(fr, i) for d in decs)
            top = any(Must(F, goal, d, targets={root}).holds(fr, 0, (), seen_before(b)) for d in decs)
            yield b, i, root, ok, top


def seen_before(b):
    """Edges on which the node was in the set of visited ones already."""
    return bool_edges(b, lambda op, blk: negations(b, op, lambda p, rv: rv is not None and is_call(rv) and last(rv.get("f", "?")) == "insert"
                                                  and "HashSet" in rv.get("f", "")), False)


def recursion(F, R):
    n = 0
    for b, i, root, ok, top in recursions(F, lambda f: f.startswith("hir::borrow_checker::")):
        n += 1
        R.fn(b)
        R.ob("recurse", root, ok and top, b.where(i), f"{last(root)} can succeed without having visited every child of a node")
    R.floor("recursive checks", n, 5)


# ---- publication

def publication(F, R, check):
    """Every elaborated function is built after its root was checked."""
    n = 0
    builders = {b.name for b in F.all_bodies() if "ModuleFunction" in b.name and last(b.name) == "new_elaborated"}
    if not builders:
        R.bad("anchor", "new_elaborated", "src/module/function.rs", "the constructor of elaborated functions was not found")
        return
    elabs = {b.name for b in F.all_bodies() if last(b.name) in ("elaborate_hir_with_warnings", "elaborate_hir")}
    for b in F.all_bodies():
        if not any(c.get("f") in elabs for _, c in b.calls()) or b.name in elabs:
            continue
        fr = Frame(F, b)
        for i, c in b.calls():
            if c.get("f") not in elabs or i not in b.live:
                continue
            n += 1
            R.fn(b)
            root = ("f", fr.call(c), "root")

            def goal(fr2, i2, c2):
                return c2.get("f") in check and any(rooted_in(fr2.op(o), c) for o in c2["a"])

            def rooted_in(t, c):
                return any(has_call(t, f) for f in elabs)
            M = Must(F, goal, targets=check)
            R.ob("publish", b.name, M.holds(fr, i), b.where(i),
                 f"{last(b.name)} can succeed after elaborating a body without checking its borrows")
    R.floor("elaborations", n, 2)
    # the root checks of accessors
    for want, cond, what in (("check_elaborated_yield_roots", "yield_node_id", "yields"),
                             ("check_elaborated_place_return_roots", "returns_place", "returned places")):
        fns = {b.name for b in F.all_bodies() if last(b.name) == want}
        callers = [b for b in F.all_bodies() if any(c.get("f") in fns for _, c in b.calls()) and b.name not in fns]
        if not fns or not callers:
            R.bad("anchor", want, "src/hir/borrow_checker.rs", f"the check of {what} is gone")
            continue
        for b in callers:
            fr = Frame(F, b)

            def goal(fr2, i2, c2):
                return c2.get("f") in fns
            M = Must(F, goal, targets=fns)
            dead = absent_edges(F, fr, cond)
            R.ob("publish", f"{b.name}|{what}", M.holds(fr, 0, (), dead), b.where(0),
                 f"{last(b.name)} can succeed without checking the roots of {what}")


def has_call(t, f):
    return isinstance(t, tuple) and (t[:2] == ("call", f) or any(has_call(x, f) for x in t if isinstance(x, tuple)))


def absent_edges(F, fr, name):
    """Edges on which the optional part or flag of that name is absent, also through an Option computed from it."""
    b = fr.b
    out = set()

    def about(t):
        return "'" + name + "'" in str(t) or "::" + name + "'" in str(t)

    def some(p, rv):
        return rv is not None and is_call(rv) and (last(rv.get("f", "?")) == "is_some" and about(fr.op(rv["a"][0])) or
                                                  last(rv.get("f", "?")) == name)

    def none(p, rv):
        return rv is not None and is_call(rv) and last(rv.get("f", "?")) == "is_none" and about(fr.op(rv["a"][0]))

    def cond(op, blk):
        k = negations(b, op, some)
        if k is None:
            k = negations(b, op, none)
            k = None if k is None else not k
        return k
    out |= bool_edges(b, cond, False)
    base = set(out)
    for i in b.live:
        t = b.blocks[i]["t"]
        if t[0] != "switch":
            continue
        l = op_local(t[1])
        for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
            if is_call(rv) or rv[0] != "disc":
                continue
            if F.types[rv[2]].get("d", "").endswith("option::Option"):
                z = (i, dict(t[2]).get("0", t[3]))
                if about(fr.place(rv[1])):
                    out.add(z)
                    continue
                # an Option that is None only where the flag is absent
                q = rv[1][0]
                ds = alldefs(b, q)
                nones = [k for k, r in ds if not is_call(r) and r[0] == "agg" and r[3] == "None"]
                rest = [r for k, r in ds if is_call(r) or r[0] != "agg"]
                if nones and not rest and base and all(k not in ({0} | reach_avoiding(b, [0], (), base)) for k in nones):
                    out.add(z)
                if rest and all(is_call(r) and last(r.get("f", "?")) in ("then", "then_some") and cond(r["a"][0], 0) for r in rest) and not nones:
                    out.add(z)
    return out


def alldefs(b, l, seen=None):
    seen = seen or {l}
    out = []
    for i, j, rv, p in b.defs().get(l, []):
        if i not in b.live or len(p) > 1:
            continue
        if not is_call(rv) and rv[0] == "use" and op_place(rv[1]) and len(op_place(rv[1])) == 1:
            if op_local(rv[1]) not in seen:
                seen.add(op_local(rv[1]))
                out += alldefs(b, op_local(rv[1]), seen)
            continue
        out.append((i, rv))
    return out


# ---- static index parts, roots, writes

def index_parts(F, R):
    """A static index comes from an immediate that was found non-negative."""
    n = 0
    for b in F.all_bodies():
        for i, j, p, rv, l in b.assigns():
            if rv[0] != "agg" or rv[3] != "IndexStatic" or i not in b.live or "PathPart" not in rv[2] or "::clone" in b.name:
                continue
            n += 1
            R.fn(b)
            fr = Frame(F, b)
            v = fr.op(rv[4][0])

            def nonneg(op, blk):
                def ge(p_, r):
                    return r is not None and not is_call(r) and r[0] == "bin" and (
                        r[1] == "Ge" and fr.op(r[2]) == v and fr.op(r[3]) == ("k", "0") or
                        r[1] == "Le" and fr.op(r[3]) == v and fr.op(r[2]) == ("k", "0") or
                        r[1] == "Gt" and fr.op(r[2]) == v and fr.op(r[3])[0] == "k" and fr.op(r[3])[1] in ("0", "-1"))

                def lt(p_, r):
                    return r is not None and not is_call(r) and r[0] == "bin" and (
                        r[1] == "Lt" and fr.op(r[2]) == v and fr.op(r[3]) == ("k", "0") or
                        r[1] == "Gt" and fr.op(r[3]) == v and fr.op(r[2]) == ("k", "0"))
                k = negations(b, op, ge)
                if k is None:
                    k = negations(b, op, lt)
                    k = None if k is None else not k
                return k
            e = bool_edges(b, nonneg, True)
            conv = has_name(v, "try_from") or has_name(v, "try_into") or has_name(v, "to_usize")
            ok = conv or bool(e) and i not in ({0} | reach_avoiding(b, [0], (), e))
            R.ob("index", f"{b.name}|non-negative", ok, b.where(i), "a static index part is made of a value that may be negative")
            R.ob("index", f"{b.name}|immediate", has_name(v, "as_primitive_ty") or "Immediate" in str(v), b.where(i),
                 "a static index part is not the value of an immediate")
    R.floor("static indices", n, 1)


def has_name(t, n):
    if isinstance(t, tuple):
        if t and t[0] == "call" and last(t[1]) == n:
            return True
        return any(has_name(x, n) for x in t if isinstance(x, tuple))
    return False


def roots(F, R):
    """Yielded and returned places pass only with the required root."""
    n = 0
    for b in F.all_bodies():
        if b.name != F.root_fn(b.name) or not b.tys(0).startswith("core::result::Result<()") or "borrow_checker" not in b.name:
            continue
        origins = [(i, c) for i, c in b.calls() if "PlaceOrigin" in b.tys(c["d"][0]) and c.get("f") in F.fns]
        if not origins:
            continue
        fr = Frame(F, b)
        n += 1
        R.fn(b)
        # edges that establish the root, or that the place does not matter
        good = root_edges(F, fr)
        fail = Must.failing(Must(F, lambda *a: False), b)
        seen = {0} | b.reachable([0], avoid=tuple(fail), edge_filter=lambda x, y: (x, y) not in good)
        bad = [r for r in b.return_blocks() if r in seen]
        R.ob("root", b.name, not bad, b.where(0), f"{last(b.name)} accepts a place whose root was not found to be the required one")
    R.floor("root tests", n, 2)


def root_test(F, fr, rv, depth=0):
    """The rvalue, when true, says that the root is owned storage, the base parameter, or that control never gets here."""
    b = fr.b
    if is_call(rv):
        f = rv.get("f", "?")
        n = last(f)
        if n == "eq" and any("never" in str(fr.op(o)) for o in rv["a"]):
            return True
        if n == "owns_storage":
            return True
        if n == "eq" and any(has_name(fr.op(o), "as_index") or "'local'" in str(fr.op(o)) or "Direct.local" in str(fr.op(o)) or
                             "Addressor.0" in str(fr.op(o)) for o in rv["a"]):
            return True
        if n in ("is_some_and", "is_ok_and", "is_none_or", "any"):
            if n == "is_none_or":
                return False
            for o in rv["a"][1:]:
                for y in alternatives(fr.op(o)):
                    if y[0] == "clo" and y[1] in F.fns and depth < 4:
                        cb = F.body(y[1])
                        recv = fr.op(rv["a"][0])
                        sub = Frame(F, cb, {2: recv}, y[2])
                        return true_implies(F, sub, depth + 1)
            return False
        if f in F.fns and b.tys(rv["d"][0]) == "bool" and depth < 4:
            cb = F.body(f)
            if cb is not None and len(cb.blocks) < 80 and "borrow_checker" in f:
                return true_implies(F, Frame(F, cb, {k + 1: fr.op(o) for k, o in enumerate(rv["a"])}), depth + 1)
    return False


def true_implies(F, fr, depth):
    b = fr.b

    def cond(op, blk):
        return negations(b, op, lambda p, rv: rv is not None and root_test(F, fr, rv, depth))
    e = bool_edges(b, cond, True)
    free = {0} | reach_avoiding(b, [0], (), e)
    for i, rv in alldefs(b, 0):
        if i not in free:
            continue
        if not is_call(rv) and rv[0] == "use" and rv[1][0] == "k":
            if rv[1][1].get("v") == "0":
                continue
            return False
        if is_call(rv) and root_test(F, fr, rv, depth):
            continue
        return False
    return True


def root_edges(F, fr):
    b = fr.b
    memo = {}

    def cond(op, blk):
        k = negations(b, op, lambda p, rv: rv is not None and root_test(F, fr, rv))
        if k is not None:
            return k
        # a local that is true only where a test was
        l = op_local(op)
        if l is not None and l not in memo:
            memo[l] = None
            ds = alldefs(b, l)
            if len(ds) > 1:
                e = bool_edges(b, lambda o, x: negations(b, o, lambda p, rv: rv is not None and root_test(F, fr, rv)), True)
                free = {0} | reach_avoiding(b, [0], (), e)
                ok = True
                for i, rv in ds:
                    if i not in free:
                        continue
                    if not is_call(rv) and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == "0":
                        continue
                    if is_call(rv) and root_test(F, fr, rv):
                        continue
                    ok = False
                memo[l] = True if ok else None
        return memo.get(l)
    return bool_edges(b, cond, True)


WRITES = {"Assign": ("Assign.0", "place"), "StoreLocal": ("StoreLocal.0", "id"), "TakeLocalValue": ("TakeLocalValue.0", "id"),
          "DropClosureEnv": ("DropClosureEnv.0", "target"), "DropSubscriptValue": ("DropSubscriptValue.0", "target")}


def writes(F, R, overlap):
    """The search for writes looks at every construct that writes a place."""
    kinds = call_kinds(F)
    n = 0
    for b in F.all_bodies():
        if b.tys(0) != "bool" or b.name != F.root_fn(b.name) or not any(c.get("f") in overlap for _, c in b.calls()):
            continue
        fr = Frame(F, b)
        ms = [m for m in arms.matches(F, b) if m.adt == KIND]
        if not ms:
            continue
        root = fr.place(ms[0].place)
        n += 1
        R.fn(b)
        for v, path in sorted(WRITES.items()):
            part = extend(extend(root, path[0]), path[1])

            def goal(fr2, i, c, part=part):
                return c.get("f") in overlap and any(mentions(fr2.op(o), part) for o in c["a"])
            M = Must(F, goal, "1", targets=overlap)
            dead = variant_edges(F, fr, root, v) | no_place(F, fr, part)
            R.ob("writes", f"{b.name}|{v}", M.holds(fr, 0, (), dead), b.where(0),
                 f"{last(b.name)} does not compare the place that a {v} writes with the observed one")
        for v, path in sorted(kinds.items()):
            args = extend(extend(root, path[0]), path[1])

            def goal(fr2, i, c, args=args, v=v, path=path):
                if c.get("f") not in overlap:
                    return False
                for o in c["a"]:
                    t = fr2.op(o)
                    if mentions(t, args):
                        return True
                    for h in helper_calls(t, root):
                        if option_helper(F, h, v, path):
                            return True
                return False
            M = Must(F, goal, "1", targets=overlap)
            R.ob("writes", f"{b.name}|{v}", covered_call(F, fr, M, goal, root, v, overlap, path), b.where(0),
                 f"{last(b.name)} does not compare the places that a {v} lends mutably with the observed one")
    R.floor("write searches", n, 1)
    searches = {b.name for b in F.all_bodies() if b.tys(0) == "bool" and b.name == F.root_fn(b.name) and
                any(c.get("f") in overlap for _, c in b.calls()) and any(m.adt == KIND for m in arms.matches(F, b))}
    for b in F.all_bodies():
        if b.tys(0) != "bool" or b.name != F.root_fn(b.name) or b.name in searches or b.name in overlap:
            continue
        ks = [k for k in range(1, b.args + 1) if b.tys(k).startswith("&[hir::CallArgument")]
        if not ks or not any(c.get("f") in searches for x in family(F, b) for _, c in x.calls()):
            continue
        R.fn(b)
        fr = Frame(F, b)
        args = ("arg", ks[0])
        dead = bool_edges(b, lambda op, blk: negations(b, op, lambda p, rv: rv is not None and is_call(rv) and
                                                      last(rv.get("f", "?")) == "node_is_place_reference"), False)
        for i in b.live:
            t = b.blocks[i]["t"]
            l = op_local(t[1]) if t[0] == "switch" else None
            for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
                if not is_call(rv) and rv[0] == "disc" and has_name(fr.place(rv[1]), "try_from_node"):
                    dead = dead | {(i, dict(t[2]).get("0", t[3]))}
        for fs, what in ((searches, "evaluates"), (overlap, "lends mutably")):
            def goal(fr2, i, c, fs=fs):
                return c.get("f") in fs and any(mentions(fr2.op(o), ("e", args)) for o in c["a"])
            R.ob("writes", f"{b.name}|{what}", searched(F, fr, goal, dead, fs), b.where(0),
                 f"{last(b.name)} can answer no without comparing what an argument {what} with the observed place")


def helper_calls(t, root):
    out = []
    if isinstance(t, tuple):
        if t[0] == "call" and len(t) == 3 and t[2] == root:
            out.append(t[1])
        for x in t:
            if isinstance(x, tuple):
                out += helper_calls(x, root)
    return out


def mentions(t, part):
    return isinstance(t, tuple) and (t == part or any(mentions(x, part) for x in t if isinstance(x, tuple)))


def covered_call(F, fr, M, goal, root, v, overlap, path):
    """The arguments of the call are searched on every path."""
    dead = variant_edges(F, fr, root, v) | none_of_helper(F, fr, root, v, path)
    dead |= settled(F, fr.b, dead)
    return searched(F, fr, goal, dead, overlap)


def searched(F, fr, goal, dead, targets):
    """A `no` means that the goal was tried (closures of is_some_and and any followed)."""
    def deep(fr2, i, c, depth=0):
        if goal(fr2, i, c):
            return True
        f = c.get("f", "?")
        if last(f) not in ("is_some_and", "any") or f in F.fns or depth > 4:
            return False
        recv = fr2.op(c["a"][0])
        for o in c["a"][1:]:
            for y in alternatives(fr2.op(o)):
                if y[0] == "clo" and y[1] in F.fns:
                    cb = F.body(y[1])
                    item = ("f", recv, "Some.0") if last(f) == "is_some_and" else elem(recv)
                    sub = Frame(F, cb, {2: item}, y[2])
                    M2 = Must(F, lambda a, k, d: deep(a, k, d, depth + 1), "1")
                    return M2.holds(sub, 0, (), passing_edges(F, cb, False))
        return False
    return Must(F, deep, "1", targets=targets).holds(fr, 0, (), dead)


def no_place(F, fr, part):
    """Edges on which the written expression is no place, or no place with a path."""
    b = fr.b

    def cond(op, blk):
        return negations(b, op, lambda p, rv: rv is not None and is_call(rv) and last(rv.get("f", "?")) == "node_is_place_reference"
                         and any(mentions(fr.op(o), part) for o in rv["a"]))
    out = bool_edges(b, cond, False)
    for i in b.live:
        t = b.blocks[i]["t"]
        if t[0] != "switch":
            continue
        l = op_local(t[1])
        for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
            if not is_call(rv) and rv[0] == "disc" and F.types[rv[2]].get("d", "").endswith("option::Option") and mentions(fr.place(rv[1]), part):
                out.add((i, dict(t[2]).get("0", t[3])))
    return out


# ---- what a path stands for

def phase(b):
    return "elaborated" if any("Elaborated" in b.tys(k) and "Unelaborated" not in b.tys(k) for k in range(1, b.args + 1)) else "source"


def aliases(F, R):
    """A path that starts at a local must know whether the local is storage or a name for another place."""
    path = path_type(F)
    n = 0
    for b in F.all_bodies():
        if not b.tys(0).startswith("core::option::Option<" + path):
            continue
        ms = [m for m in arms.matches(F, b) if m.adt == KIND]
        if not ms:
            continue
        fr = Frame(F, b)
        n += 1
        R.fn(b)
        locals_seen = any("LocalDecl<" in b.tys(k) or "LocalDecl]" in b.tys(k) or "LocalDecl" in b.tys(k) for k in range(1, b.args + 1))
        R.ob("alias", f"{phase(b)}|local", locals_seen, b.where(0),
             f"{last(b.name)} takes every local for storage of its own, also one that names a place of another")
        root = fr.place(ms[0].place)
        for v, p in sorted(call_kinds(F).items()):
            if v in LATE_NEVER and "enode" in b.name:
                continue
            want = extend(extend(root, p[0]), p[1])
            t = arms.target_of(ms[0], v)
            region = {t} | b.reachable([t])
            used = any(mentions(fr.op(o), want) for i, c in b.calls() if i in region and c.get("f") in F.fns for o in c["a"])
            R.ob("alias", f"{b.name}|{v}", used and t != ms[0].otherwise, b.where(t),
                 f"{last(b.name)} does not resolve the place returned by a {v}")
        for v, p in (("Project", ("Project.0", "value")), ("WithPlace", ("WithPlace.0", "place")), ("Block", ("Block.0",)), ("LoadLocal", ("LoadLocal.0", "id"))):
            t = arms.target_of(ms[0], v)
            R.ob("alias", f"{b.name}|{v}|arm", t != ms[0].otherwise, b.where(t), f"{last(b.name)} does not resolve a {v}")
    R.floor("path builders", n, 2)
    # a static index says which element only for an addressor known to select it
    for b in F.all_bodies():
        uses = [(i, c) for i, c in b.calls() if c.get("f") in F.fns and "PathPart" in b.tys(c["d"][0]) and i in b.live]
        if not uses:
            continue
        known = any("Function" in b.tys(k) or "FunctionId" in b.tys(k) for k in range(1, b.args + 1))
        R.ob("alias", f"{phase(b)}|addressor", known, b.where(uses[0][0]),
             f"{last(b.name)} takes the second argument of any addressor for the element it selects")


def snapshots(F, R):
    """The results of the overlap queries are used by those that lay out calls."""
    n = 0
    for q in ("let_arguments_overlapping_mutable", "let_arguments_overlapping_later_argument_writes", "callee_overlaps_argument_writes"):
        fs = {b.name for b in F.all_bodies() if last(b.name) == q}
        if not fs:
            continue
        for b in F.all_bodies():
            for i, c in b.calls():
                if c.get("f") not in fs or i not in b.live:
                    continue
                n += 1
                R.fn(b)
                fr = Frame(F, b)
                if b.tys(c["d"][0]) == "bool":
                    yes, no = result_edges(b, i)
                    R.ob("snapshot", f"{b.name}|{q}", bool(yes), b.where(i), f"the answer of {q} is ignored")
                    continue
                marks(F, R, b, fr, i, c, q)
    R.floor("snapshot queries", n, 5)


KNOWN_TESTS = {"eq", "ne", "node_is_place_reference", "is_some_and", "any", "index", "deref", "iter", "enumerate", "skip", "into_iter",
               "next", "zip", "clone", "as_ref", "map", "filter", "collect", "filter_map", "flat_map", "push", "new", "branch",
               "from_residual", "is_some", "is_none", "len", "from_local", "index_mut", "is_none_or", "map_or", "with_capacity", "extend", "try_from_node"}


def queries(F, R, overlap):
    """The queries over the arguments of a call look at every argument: nothing but the known tests decides."""
    n = 0
    for b in F.all_bodies():
        if b.name != F.root_fn(b.name) or "borrow_checker" not in b.name or \
                not any("CallArgument<hir::Unelaborated>]" in b.tys(k) or "CallArgument]" in b.tys(k) for k in range(1, b.args + 1)):
            continue
        bodies = family(F, b)
        if not any(c.get("f") in overlap for x in bodies for _, c in x.calls()) or "from_" in last(b.name):
            continue
        n += 1
        R.fn(b)
        for x in bodies:
            if x.name in overlap or any(m.adt == KIND and len(m.targets) > 3 for m in arms.matches(F, x)):
                continue
            xf = Frame(F, x)
            for i, c in x.calls():
                k = last(c.get("f", "?"))
                if k in PAIR_SKIPS and c.get("f") not in F.fns:
                    R.bad("queries", f"{b.name}|{k}", x.where(i), f"{last(b.name)} leaves arguments out through {k}")
                if k == "skip":
                    R.ob("queries", f"{b.name}|skip", next_index(xf.op(c["a"][-1])), x.where(i),
                         f"{last(b.name)} does not start right after the argument observed")
            for i in sorted(x.live):
                t = x.blocks[i]["t"]
                if t[0] == "switch" and x.tys(op_local(t[1])) == "bool" if t[0] == "switch" and op_local(t[1]) is not None else False:
                    rv = source(x, t[1])
                    ok = rv is not None and is_call(rv) and (last(rv.get("f", "?")) in KNOWN_TESTS or rv.get("f") in F.fns)
                    R.ob("queries", f"{b.name}|tests", ok, x.where(i), f"{last(b.name)} leaves arguments out by a test of its own")
            for i, rv in alldefs(x, 0):
                if x.tys(0) == "bool" and not is_call(rv) and not (rv[0] == "use" and rv[1][0] == "k") and rv[0] != "un":
                    R.bad("queries", f"{b.name}|answer", x.where(i), f"{last(b.name)} leaves arguments out by a test of its own")
    R.floor("queries", n, 3)


def source(b, op):
    out = []

    def want(p, rv):
        if rv is not None and (is_call(rv) or rv[0] in ("bin", "disc")):
            out.append(rv)
            return True
        return False
    negations(b, op, want)
    return out[0] if out else None


def marks(F, R, b, fr, i, c, q):
    """Each pair marks the argument it names, unless that is the base of a returned place."""
    list_ = fr.call(c)
    stores = set()
    idx = ("f", ("e", list_), "0")
    for j, c2 in b.calls():
        if last(c2.get("f", "?")) in ("index_mut", "insert", "push") and any(mentions(fr.op(o), idx) for o in c2["a"]):
            stores.add(j)
    for j, k, p, rv, l in b.assigns():
        if any(isinstance(e, str) and e.startswith("[_") and e[2:-1].isdigit() and fr.local(int(e[2:-1])) == idx for e in p):
            stores.add(j)
    heads = [j for j, c2 in b.calls() if last(c2.get("f", "?")) in ("next",) and c2["a"] and fr.op(c2["a"][0]) == list_]
    if not heads:
        ok = any(mentions(fr.op(o), list_) for j, c2 in b.calls() if last(c2.get("f", "?")) in ("for_each", "fold", "extend", "map", "filter") for o in c2["a"][:1])
        R.ob("snapshot", f"{b.name}|{q}", ok, b.where(i), f"the result of {q} is ignored")
        return
    M = Must(F, lambda *a: False)
    for h in heads:
        some, none = M.some_none(b, h)
        fail = M.failing(b)

        def base(op, blk):
            return negations(b, op, lambda p, rv: rv is not None and is_call(rv) and last(rv.get("f", "?")) == "eq"
                             and any(mentions(fr.op(o), idx) or "Some" in str(fr.op(o)) for o in rv["a"]))

        def nbase(op, blk):
            k = negations(b, op, lambda p, rv: rv is not None and is_call(rv) and last(rv.get("f", "?")) == "ne"
                          and any(mentions(fr.op(o), idx) or "Some" in str(fr.op(o)) for o in rv["a"]))
            return None if k is None else not k

        def marked(op, blk):
            return negations(b, op, lambda p, rv: p is not None and (any(isinstance(e, str) and e.startswith("[_") for e in p)
                                                                     or "::index'" in str(fr.place(p)) and mentions(fr.place(p), idx) or fr.place(p)[0] == "e")
                             or rv is not None and is_call(rv) and last(rv.get("f", "?")) in ("index", "contains"))
        dead = bool_edges(b, base, True) | bool_edges(b, nbase, True) | bool_edges(b, marked, True)
        for x, y in some:
            avoid = stores | fail
            seen = set() if y in avoid else {y} | b.reachable([y], avoid=tuple(avoid), edge_filter=lambda s, t: (s, t) not in dead)
            R.ob("snapshot", f"{b.name}|{q}", h not in seen and not any(r in seen for r in b.return_blocks()), b.where(h),
                 f"an argument that {q} names is not marked for a snapshot")
