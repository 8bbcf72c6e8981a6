"""Small dataflow helpers shared by the rules."""
from facts import *
import arms


def field_of(place, field, owner=None):
    """The place mentions a projection `.field` (of an ADT whose path ends with owner)."""
    for e in place[1:]:
        if e.startswith("." + field + ":") and (owner is None or e.split(":", 1)[1].split("::<")[0].startswith(owner)):
            return True
    return False


def deps(body, rv):
    """Locals an rvalue or call dict reads."""
    if is_call(rv):
        return {op_local(a) for a in rv["a"] if op_local(a) is not None}
    return {p[0] for p in rv_places(rv)}


def forward(body, seeds, calls=True, refs=True, blocks=None):
    """Locals that may hold something derived from the seed locals (flow-insensitive). Taint enters
    a mutable-borrow target too when a call receives both the borrow and a tainted argument."""
    t = set(seeds)
    changed = True
    refto = {}
    ptrto = {}
    for i, j, p, rv, l in body.assigns():
        if rv[0] == "ref" and rv[1] == "mut":
            refto.setdefault(p[0], set()).add(rv[2][0])
            ptrto.setdefault(p[0], set()).add(rv[2][0])
        elif rv[0] == "rawptr":
            ptrto.setdefault(p[0], set()).add(rv[1][0])
        elif rv[0] == "cast" and rv[1] == "transmute" and op_local(rv[2]) is not None:
            ptrto.setdefault(p[0], set()).add(op_local(rv[2]))
    while changed:
        changed = False
        for i, j, p, rv, l in body.assigns():
            if blocks is not None and i not in blocks:
                continue
            if any(q[0] in t for q in rv_places(rv)):
                if p[0] not in t:
                    t.add(p[0])
                    changed = True
                if "*" in p[1:]:
                    for r in ptrto.get(p[0], ()):
                        if r not in t:
                            t.add(r)
                            changed = True
        if calls:
            for i, c in body.calls():
                if blocks is not None and i not in blocks:
                    continue
                if any(op_local(a) in t for a in c["a"]):
                    if c["d"][0] not in t:
                        t.add(c["d"][0])
                        changed = True
                    for a in c["a"]:
                        l = op_local(a)
                        for r in refto.get(l, ()):
                            if r not in t and l not in t:
                                t.add(r)
                                changed = True
    return t


def origins(body, op, depth=0, seen=None):
    """Leaf origins of an operand: ("arg", i), ("const", v), ("call", f), ("place", place), ("agg", name)
    following whole-value copies, references and negations, over all definitions."""
    seen = set() if seen is None else seen
    if op[0] == "k":
        c = op[1]
        return {("const", c.get("v", c.get("fn", c.get("def", "?"))))}
    return place_origins(body, op[1], seen)


def place_origins(body, place, seen):
    l = place[0]
    proj = [e for e in place[1:] if e != "*"]
    if proj:
        # follow a single-definition reference base for readability
        return {("place", tuple(place))}
    if l in seen:
        return set()
    seen.add(l)
    out = set()
    if 1 <= l <= body.args:
        out.add(("arg", l))
    for b, j, rv, p in body.defs().get(l, []):
        if is_call(rv):
            f = rv.get("f", "?")
            if f.endswith(("::clone", "::deref", "::deref_mut", "::into", "::from", "::as_ref", "::as_mut", "::borrow")) and rv["a"]:
                out |= origins(body, rv["a"][0], 0, seen)
            else:
                out.add(("call", f, b))
        elif rv[0] in ("use", "repeat"):
            out |= origins(body, rv[1], 0, seen)
        elif rv[0] == "cast":
            out |= origins(body, rv[2], 0, seen)
        elif rv[0] == "un":
            out |= origins(body, rv[2], 0, seen)
        elif rv[0] == "ref":
            out |= place_origins(body, rv[2], seen)
        elif rv[0] == "agg":
            out.add(("agg", f"{rv[2]}::{rv[3]}", b))
        elif rv[0] == "bin":
            out.add(("bin", rv[1], b))
        else:
            out.add((rv[0], b))
    return out


def switch_edges(body, pred):
    """Edges (block, target) of switches for which pred(operand, value, block) holds; value None is the
    otherwise edge."""
    out = set()
    for i, bl in enumerate(body.blocks):
        if bl["c"] or bl["t"][0] != "switch":
            continue
        t = bl["t"]
        for v, tgt in t[2]:
            if pred(t[1], v, i):
                out.add((i, tgt))
        if pred(t[1], None, i):
            out.add((i, t[3]))
    return out


def bool_edges(body, is_cond, truth):
    """Edges taken when a boolean condition (recognised by is_cond(op, block) -> None/True/False for
    not it/positive/negated) has the given truth value."""
    out = set()
    for i, bl in enumerate(body.blocks):
        if bl["c"] or bl["t"][0] != "switch":
            continue
        t = bl["t"]
        k = is_cond(t[1], i)
        if k is None:
            continue
        want = truth if k else not truth
        zero = next((tgt for v, tgt in t[2] if v == "0"), None)
        one = next((tgt for v, tgt in t[2] if v == "1"), t[3])
        if zero is None:
            zero = t[3]
        out.add((i, one if want else zero))
    return out


def negations(body, op, want):
    """Follows copies and negations of a boolean operand until want(place or rvalue) matches;
    returns True/False polarity or None."""
    pol = True
    for _ in range(12):
        p = op_place(op)
        if p is None:
            return None
        if want(p, None):
            return pol
        if len(p) != 1:
            return None
        ds = body.defs().get(p[0], [])
        if len(ds) != 1:
            return None
        rv = ds[0][2]
        if want(None, rv):
            return pol
        if is_call(rv):
            return None
        if rv[0] == "use":
            op = rv[1]
        elif rv[0] == "un" and rv[1] == "Not":
            pol = not pol
            op = rv[2]
        else:
            return None
    return None


def reach_avoiding(body, starts, blocks=(), edges=()):
    """Blocks reachable avoiding blocks and edges."""
    return body.reachable(starts, avoid=blocks, edge_filter=(lambda a, b: (a, b) not in edges))


def local_callee(F, c):
    f = c.get("f")
    return f if f in F.fns else None
