"""The shared environment never grows without a check against the cell limit."""
from facts import *
from common import *
from absint import AbsInt, Stop
import p_p05

EXPLANATION = (
    "Every operation that lengthens EvalCtx::environment is enumerated (all mutable borrows of the field in "
    "the crate). Each one must be reached only through the success edge of a limit check made on the length "
    "or index it grows to, or through the false edge of a comparison of that length with the limit; a "
    "function that grows without its own check passes the obligation to every caller. The check itself is "
    "decided by abstract interpretation for indices below, at and above the limit.")

FIELD = "environment"
OWNER = "eval::EvalCtx"
GROW = ("push", "extend", "resize", "resize_with", "insert", "append", "extend_from_slice", "splice", "reserve_exact_fill")
KEEP = ("pop", "index_mut", "deref_mut", "truncate", "drain", "clear", "len", "iter_mut", "last_mut", "swap_remove",
        "remove", "get_mut", "reserve", "shrink_to_fit", "set_len_down")


def run(F, R, tier):
    sites = {}
    borrow = 0
    for b in F.all_bodies():
        refs = set()
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "ref" and rv[1] == "mut" and field_of(rv[2], FIELD, OWNER) and last_field(rv[2]) == FIELD:
                refs.add(p[0])
                borrow += 1
            if last_field(p) == FIELD and field_of(p, FIELD, OWNER):
                R.bad("growth", f"{F.root_fn(b.name)}|replaced", f"{b.meta['file']}:{l}", "the environment is replaced as a whole")
        if not refs:
            continue
        al = aliases(b, refs)
        for i, c in b.calls():
            hit = [k for k, a in enumerate(c["a"]) if op_local(a) in al]
            if not hit:
                continue
            short = c.get("f", "?").rsplit("::", 1)[-1]
            if short in KEEP or short in ("replace", "swap", "take") and False:
                continue
            if short in GROW:
                sites.setdefault(b.name, []).append((i, c, short))
            elif c.get("f") in F.fns:
                R.bad("growth", f"{F.root_fn(b.name)}|lends to {short}", b.where(i), "the environment is lent mutably to another function")
            elif short not in KEEP:
                R.bad("growth", f"{F.root_fn(b.name)}|{short}", b.where(i), f"unknown mutation of the environment: {short}")
    R.floor("mutable borrows of the environment", borrow, 10)
    checks = limit_checks(F, R)
    # obligations, callers included
    n = 0
    done = set()
    work = [(f, i, c, kind, (f, i, kind)) for f, ss in sites.items() for i, c, kind in ss]
    unchecked = set()
    while work:
        f, i, c, kind, org = work.pop()
        if (f, i) in done:
            continue
        done.add((f, i))
        b = F.body(f)
        R.fn(b)
        n += 1
        edges, why = safe_edges(F, b, checks)
        r = reach_avoiding(b, [0], (), edges)
        if i not in r:
            bad = measured(F, b, i, c, kind, checks)
            R.ob("growth", f"{F.root_fn(f)}|{kind}", bad is None, b.where(i), bad or "")
            continue
        if declares_slots(F, b):
            R.ob("growth", f"{F.root_fn(f)}|declared slots", True, b.where(i))
            R.note(f"{f}: reserves the slots the current function declares; at most its own local count")
            continue
        callers = [(cb, k, cc) for cb in F.all_bodies() for k, cc in cb.calls() if cc.get("f") == f]
        if not callers or F.fns[f]["kind"] != "fn" or exported(F, f) or depth_of(done) > 400:
            o = F.body(org[0])
            R.bad("growth", f"{F.root_fn(org[0])}|{org[2]}", o.where(org[1]),
                  "the environment grows without a check against the cell limit"
                  + ("" if org[0] == f else f" when reached from {F.root_fn(f)}"))
            continue
        R.ob("growth", f"{F.root_fn(f)}|{kind}|left to callers", True, b.where(i))
        for cb, k, cc in callers:
            if covered_by_reserve(F, cb, k):
                R.ob("growth", f"{F.root_fn(cb.name)}|slot reserved", True, cb.where(k))
                continue
            work.append((cb.name, k, cc, "call of " + f.rsplit("::", 1)[-1], org))
    R.floor("growth sites", n, 7)


def depth_of(d):
    return len(d)


def exported(F, f):
    return F.fns[f].get("vis") in ("pub", "public", "Public")


def last_field(p):
    e = [x for x in p[1:] if x != "*"]
    return e[-1][1:].split(":")[0] if e and e[-1].startswith(".") else None


def aliases(b, refs):
    t = set(refs)
    ch = True
    while ch:
        ch = False
        for i, j, p, rv, l in b.assigns():
            if len(p) == 1 and p[0] not in t:
                src = None
                if rv[0] == "use":
                    src = op_place(rv[1])
                elif rv[0] == "ref" and rv[1] == "mut":
                    src = rv[2]
                if src is not None and src[0] in t and all(x == "*" for x in src[1:]):
                    t.add(p[0])
                    ch = True
    return t


# -- the check ---------------------------------------------------------------------------------
class Limit(AbsInt):
    def __init__(self, F, body, rel):
        super().__init__(F, body)
        self.rel = rel
        self.rets = []

    def compare(self, op, a, b):
        if a[0] == "sym" and b[0] == "sym" and {a[1], b[1]} == {"index", "limit"}:
            flip = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
            if a[1] == "limit":
                return self.compare(flip[op], b, a)
            if a[2] != b[2]:
                return None
            r = self.rel
            return {"Eq": r == 0, "Ne": r != 0, "Lt": r < 0, "Le": r <= 0, "Gt": r > 0, "Ge": r >= 0}[op]
        return None

    def on_call(self, c, args, mem, trace):
        f = c.get("f", "")
        if f in self.F.fns and len(c["d"]) == 1:
            t = self.body.tys(c["d"][0])
            if t.endswith("eval::RuntimeError"):
                return {(): ("app", "violation", p_p05.inner_kind(self.F, f))}
            # a wrapper hands the question on: same index
            if t.startswith("core::result::Result<(), eval::RuntimeError") and f in self.known:
                k = self.known[f]
                v = args[k - 1].get(()) if k - 1 < len(args) else None
                if v and v[0] == "sym" and v[1] == "index" and v[2] == 0:
                    return {(): ("enum", "Ok")} if self.rel < 0 else {(): ("enum", "Err"), ("as Err", ".0"): ("app", "violation", "EnvironmentCellLimitExceeded")}
        if f.endswith("Vec::<T, A>::len"):
            return ("sym", "index", 0) if self.lenlike else None
        return None
    known = {}
    lenlike = False

    def on_ret(self, mem, trace):
        r = mem.get((0,))
        self.rets.append((r[1] if r and r[0] == "enum" else None, mem.get((0, "as Err", ".0"))))


def limit_checks(F, R):
    """Functions returning Result<(), RuntimeError> whose Ok implies index < limit:
    name -> argument number of the index, or 0 when they check the environment's own length."""
    out = {}
    cand = []
    for b in F.all_bodies(kinds=("fn",)):
        if b.tys(0).startswith("core::result::Result<(), eval::RuntimeError") and b.args >= 1:
            cand.append(b)
    for rnd in range(2):
        for b in cand:
            if b.name in out:
                continue
            mentions_limit = any(field_of(q, "environment_cell_limit") for i, j, p, rv, l in b.assigns() for q in rv_places(rv))
            wraps = any(c.get("f") in out for i, c in b.calls())
            if not (mentions_limit or wraps):
                continue
            for arg in range(0, b.args + 1):
                if arg == 1 or arg and b.tys(arg) != "usize":
                    continue
                good = True
                for rel in (-1, 0, 1):
                    a = Limit(F, b, rel)
                    a.known = out
                    a.lenlike = arg == 0
                    mem = {(1, "*", ".environment_cell_limit"): ("sym", "limit", 0),
                           (1, "*", ".ctx", ".environment_cell_limit"): ("sym", "limit", 0)}
                    if arg:
                        mem[(arg,)] = ("sym", "index", 0)
                    try:
                        a.run(mem)
                    except Stop:
                        good = False
                        break
                    if not a.rets:
                        good = False
                    for res, err in a.rets:
                        if rel < 0 and res != "Ok" or rel >= 0 and (res != "Err" or err != ("app", "violation", "EnvironmentCellLimitExceeded")):
                            good = False
                if good:
                    out[b.name] = arg
                    R.fn(b)
                    R.ob("check", b.name, True, b.where())
                    break
            if mentions_limit and b.name not in out and rnd == 1:
                R.note(f"{b.name} mentions the limit but is not an index check")
    for name, msg in (("limit checks", 1),):
        R.floor(name, len(out), msg)
    return out


def ok_edges_of(F, b, calls_at):
    """Edges on which the outcome of one of the given calls is known to be Ok."""
    out = set()
    dests = {b.blocks[i]["t"][1]["d"][0] for i in calls_at}
    # through `?`: Try::branch then Continue
    flows = dict.fromkeys(dests, "0")
    ch = True
    while ch:
        ch = False
        for i, c in b.calls():
            if c.get("f", "").endswith("Try>::branch") and op_local(c["a"][0]) in flows and c["d"][0] not in flows:
                flows[c["d"][0]] = "0"
                ch = True
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "use" and op_place(rv[1]) and len(op_place(rv[1])) == 1 and op_local(rv[1]) in flows and \
                    len(p) == 1 and p[0] not in flows:
                flows[p[0]] = "0"
                ch = True
    for i, bl in enumerate(b.blocks):
        if bl["c"] or bl["t"][0] != "switch":
            continue
        t = bl["t"]
        l = op_local(t[1])
        for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
            if not is_call(rv) and rv[0] == "disc" and len(rv[1]) == 1 and rv[1][0] in flows:
                tg = dict(t[2])
                out.add((i, tg.get("0", t[3])))
            elif is_call(rv) and rv.get("f") in ("core::result::Result::<T, E>::is_ok", "core::result::Result::<T, E>::is_err"):
                r = ref_base(b, rv["a"][0])
                if r in flows:
                    tg = dict(t[2])
                    one = tg.get("1", t[3])
                    zero = tg.get("0", t[3])
                    out.add((i, one if rv["f"].endswith("is_ok") else zero))
    return out


def ref_base(b, op):
    l = op_local(op)
    for _, _, rv, p in b.defs().get(l, []) if l is not None else []:
        if not is_call(rv) and rv[0] == "ref":
            return rv[2][0]
    return None


def length_compare(F, b, rv):
    """Comparisons of a length with the limit: +1 when true means too large, -1 when true means fits."""
    if is_call(rv) or rv[0] != "bin" or rv[1] not in ("Gt", "Ge", "Lt", "Le"):
        return None

    def is_limit(o):
        return any(x[0] == "place" and field_of(list(x[1]), "environment_cell_limit") for x in origins(b, o))
    a, c = rv[2], rv[3]
    if is_limit(c) and not is_limit(a):
        return {"Gt": (1, a), "Ge": (1, a), "Le": (-1, a), "Lt": (-1, a)}[rv[1]]
    if is_limit(a) and not is_limit(c):
        return {"Lt": (1, c), "Le": (1, c), "Ge": (-1, c), "Gt": (-1, c)}[rv[1]]
    return None


def safe_edges(F, b, checks):
    edges = ok_edges_of(F, b, [i for i, c in b.calls() if c.get("f") in checks])

    def is_cond(o, i):
        pol = negations(b, o, lambda p, rv: rv is not None and length_compare(F, b, rv) is not None)
        if pol is None:
            return None
        # sign of the comparison
        p = op_place(o)
        x = o
        for _ in range(12):
            ds = b.defs().get(op_local(x), [])
            rv = ds[0][2]
            lc = length_compare(F, b, rv)
            if lc:
                return pol if lc[0] > 0 else (not pol)
            x = rv[1] if rv[0] == "use" else rv[2]
        return None
    edges |= bool_edges(b, is_cond, False)
    return edges, None


def measured(F, b, i, c, kind, checks):
    """The checked quantity is the one that grows; returns a complaint or None."""
    checked = []
    for k, cc in b.calls():
        if cc.get("f") in checks:
            a = checks[cc["f"]]
            checked.append(("own length",) if a == 0 else ("op", cc["a"][a - 1]))
    comps = []
    for k, j, p, rv, l in b.assigns():
        lc = length_compare(F, b, rv)
        if lc:
            comps.append((rv, lc))
    if kind == "push":
        ok = any(x[0] == "own length" or is_len(F, b, x[1]) for x in checked) or any(is_len(F, b, lc[1]) and strict(rv) for rv, lc in comps) \
            or any(adds_to_len(F, b, lc[1]) for rv, lc in comps)
        return None if ok else "one cell is added but the check is not about the environment's length"
    if kind in ("extend", "append", "extend_from_slice"):
        ok = any(adds_to_len(F, b, lc[1], c) for rv, lc in comps)
        return None if ok else "several cells are added but the check does not count them"
    # a call growing to an index: the same index was checked
    idx = [a for a in c["a"][1:] if op_local(a) is not None and b.tys(op_local(a)) == "usize"]
    if idx and kind.startswith("call of"):
        want = origins(b, idx[0])
        ok = any(x[0] == "op" and origins(b, x[1]) & want for x in checked) or bool(comps)
        return None if ok else "the environment is grown to an index that was not checked"
    return None


def strict(rv):
    return rv[1] in ("Ge", "Lt", "Le", "Gt")


def is_len(F, b, op):
    for o in origins(b, op):
        if o[0] == "call" and o[1].endswith("::len"):
            c = b.blocks[o[2]]["t"][1]
            if env_ref(b, c["a"][0]):
                return True
    return False


def env_ref(b, op, depth=0):
    l = op_local(op)
    if l is None or depth > 5:
        return False
    for _, _, rv, p in b.defs().get(l, []):
        if is_call(rv):
            continue
        for q in rv_places(rv):
            if field_of(q, FIELD, OWNER):
                return True
            if rv[0] in ("use", "ref") and env_ref(b, ["c", [q[0]]], depth + 1):
                return True
    return False


def adds_to_len(F, b, op, grow=None):
    """op is environment.len() + n, where n counts what the growth adds."""
    for o in origins(b, op):
        parts = None
        if o[0] == "call" and "add" in o[1].rsplit("::", 1)[-1]:
            parts = b.blocks[o[2]]["t"][1]["a"]
        elif o[0] == "bin" and o[1].startswith("Add"):
            for k, j, p, rv, l in b.assigns():
                if k == o[2] and rv[0] == "bin" and rv[1] == o[1]:
                    parts = [rv[2], rv[3]]
        elif o[0] == "place":
            for _, _, rv, p in b.defs().get(o[1][0], []):
                if not is_call(rv) and rv[0] == "bin" and rv[1].startswith("Add"):
                    parts = [rv[2], rv[3]]
        if not parts:
            continue
        if not any(is_len(F, b, x) for x in parts):
            continue
        others = [x for x in parts if not is_len(F, b, x)]
        if grow is None:
            return True
        src = back_slice(b, op_local(grow["a"][-1]))
        for x in others:
            for y in origins(b, x):
                if y[0] == "call" and y[1].endswith("::len"):
                    cc = b.blocks[y[2]]["t"][1]
                    if back_slice(b, op_local(cc["a"][0])) & src:
                        return True
    return False


def back_slice(b, l):
    out = set()
    work = [l]
    while work:
        x = work.pop()
        if x in out or x is None:
            continue
        out.add(x)
        for _, _, rv, p in b.defs().get(x, []):
            for y in deps(b, rv):
                work.append(y)
    # the context itself is in every slice: leave it out
    return {x for x in out if "EvalCtx" not in b.tys(x) and b.tys(x) not in ("usize",)}


def declares_slots(F, b):
    """A function of the context and the current function's local declarations only."""
    if b.tys(0) != "()" or b.args != 2:
        return False
    return "LocalDecl" in b.tys(2) and "EvalCtx" in b.tys(1)


def covered_by_reserve(F, cb, k):
    """The caller reserved its own declared slots on every path before: the slot exists already."""
    reserves = {i for i, c in cb.calls() if c.get("f") in F.fns and F.fns[c["f"]]["kind"] == "fn" and declares_slots(F, F.body(c["f"]))}
    return bool(reserves) and k not in reach_avoiding(cb, [0], reserves)
