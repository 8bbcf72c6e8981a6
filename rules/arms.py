"""Matches on local enums: which blocks belong to which variant."""
from facts import *


class Match:
    __slots__ = ("block", "place", "adt", "targets", "otherwise", "ty")

    def __init__(self, block, place, adt, targets, otherwise, ty):
        self.block = block
        self.place = place
        self.adt = adt
        self.targets = targets      # variant name -> block
        self.otherwise = otherwise  # block or None when unreachable
        self.ty = ty


def matches(F, body, adt=None):
    """Every switch on the discriminant of a local enum."""
    out = []
    for i, bl in enumerate(body.blocks):
        if bl["c"] or bl["t"][0] != "switch":
            continue
        t = bl["t"]
        l = op_local(t[1])
        if l is None:
            continue
        rv = None
        for s in reversed(bl["s"]):
            if s[0] == "=" and s[1] == [l]:
                rv = s[2]
                break
        if rv is None:
            ds = body.defs().get(l, [])
            if len(ds) == 1 and not is_call(ds[0][2]):
                rv = ds[0][2]
        if rv is None or rv[0] != "disc":
            continue
        row = F.types[rv[2]]
        if row["k"] != "adt" or row["d"] not in F.adts:
            continue
        if adt is not None and row["d"] != adt:
            continue
        names = F.variant_by_disc(row["d"])
        targets = {names.get(v, v): b for v, b in t[2]}
        o = t[3]
        if body.blocks[o]["t"][0] == "unreach" and not body.blocks[o]["s"]:
            o = None
        out.append(Match(i, rv[1], row["d"], targets, o, rv[2]))
    return out


def target_of(m, variant):
    return m.targets.get(variant, m.otherwise)


def region(body, m, variant):
    """Blocks of the arm for `variant` that no other arm target reaches (the match block itself
    bounds loops). Variants sharing an arm share its region."""
    t = target_of(m, variant)
    if t is None:
        return set()
    others = {b for b in list(m.targets.values()) + [m.otherwise] if b is not None and b != t}
    mine = body.reachable([t], avoid=(m.block,))
    rest = body.reachable(list(others), avoid=(m.block, t)) if others else set()
    return mine - rest


def reach_arm(body, m, variant):
    t = target_of(m, variant)
    return set() if t is None else body.reachable([t], avoid=(m.block,))


def aggs(body, blocks=None):
    """(block, idx, place, rvalue, line) of ADT aggregates."""
    for i, j, p, rv, l in body.assigns():
        if rv[0] == "agg" and (blocks is None or i in blocks):
            yield i, j, p, rv, l
