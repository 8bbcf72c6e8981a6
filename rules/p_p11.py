"""P11: walks over types, programs and MIR visit every part."""
from facts import *
import arms
from canon import Frame, last
from walks import Leaves, Walk, extend
from p_p19 import recursions

EXPLANATION = ("Walks over a program's representations are found from the code: a function that matches on the kind of a node, "
               "expression, type, source type, operation or terminator and whose arms pass on most of the parts of one family (child "
               "nodes, types, effects, mutability, operands, successor blocks). For each of them every part of every variant, as "
               "listed by the type definitions, must be passed on by its arm on every path that returns without an error; a list must "
               "be passed on whole, and the part of each element on every iteration. The type-like values that are mapped and "
               "visited by their own methods must likewise pass on every part of themselves.")

ENUMS = ["hir::NodeKind", "types::r#type::TypeKind", "mir::operation::OperationKind", "mir::terminator::TerminatorKind",
         "ast::types::PType", "ast::expr::ExprKind"]
SKIP = ("::Clone>", "::PartialEq", "::Hash>", "::Debug>", "::PartialOrd", "::Ord>", "Discriminant", "::fmt", "format_ind",
        "::Serialize>", "Deserialize<", "::Display>")

# (function, variant or variant.path prefix): why the part is left out on purpose.
EXEMPT = {
    ("unbound_ty_vars", "BuildClosure."): "a closure's variables are in the node's own type",
    ("unbound_ty_vars", "BuildSubscriptValue."): "a subscript value's variables are in the node's own type",
    ("subscript_member_body_contains_yield", "Yield."): "the yield is what is looked for",
    ("subscript_member_body_contains_yield", "Abstract."): "a nested function has its own body",
    ("fill_node_effect_vars", "SubscriptApply."): "read only for its conventions; the node carries type and effects",
    ("instantiate_node_in_place", "SubscriptApply."): "read only for its conventions; the node carries type and effects",
    ("substitute_in_node", "SubscriptApply."): "read only for its conventions; the node carries type and effects",
    ("substitute_in_node", "CallDictionaryFunction."): "not built before substitution",
    ("go_kind", "Named."): "looks at the definition of a named type, once per type",
    ("lower_value_into", "Project."): "reads the node as a place",
    ("lower_value_into", "GetDictionaryFunction."): "reads the node as a place",
    ("unbound_ty_vars", "FunctionApply.0.function"): "variables of locals, arguments and results are looked at on their own",
    ("unbound_ty_vars", "StaticApply.0.extra_arguments"): "added by elaboration",
    ("elaborate_source_kind", "GetTraitMethod."): "asserted empty, or in the dictionary's type",
    ("elaborate_source_kind", "TraitMethodApply.0.inst_data"): "asserted empty",
    ("elaborate_source_kind", "GetTraitAssociatedConst.0.output_effs"): "a constant has no effects",
    ("node_variable_type_annotations", "BuildClosure.0.captures"): "generated code",
    ("node_variable_type_annotations", "BuildClosure.0.dictionary_captures"): "generated code",
    ("node_variable_type_annotations", "BuildSubscriptValue.0.evidence_captures"): "generated code",
    ("node_variable_type_annotations", "StaticApply.0.extra_arguments"): "generated code",
    ("PubTypeConstraint.visit", "VariantPayloadLayout.variant_ty"): "says where the payload is from; mapped, not an obligation",
    ("generalize_effectful_callable_type", "Named."): "generalizes a callable type only",
}


def variants_of(F, adt):
    return [v["name"] for v in F.adts[adt]["variants"]]


def outer_matches(F, b, fr, ms):
    """Matches on the same value that no other one guards."""
    out = []
    for m in ms:
        root = fr.place(m.place)
        guarded = False
        for n in ms:
            if n is m or n.adt != m.adt or fr.place(n.place) != root:
                continue
            if m.block not in b.reachable([0], avoid=(n.block,)):
                guarded = True
        if not guarded:
            out.append((m, root))
    return out


def wrong_edges(F, b, fr, ms, root, adt, variant, me):
    """Edges of other matches on the same value that this variant cannot take."""
    out = set()
    for n in ms:
        if n is me or n.adt != adt or fr.place(n.place) != root:
            continue
        right = arms.target_of(n, variant)
        for t in list(n.targets.values()) + [n.otherwise]:
            if t is not None and t != right:
                out.add((n.block, t))
    return out


def direct(W, fr, start, stop, root, path):
    b = fr.b
    us = W.uses(fr)
    reach = b.reachable([start], avoid=stop) | {start}
    terms = []
    t = root
    for x in path:
        if x in ("e", "?"):
            break
        t = extend(t, x)
        terms.append(t)
    return any(W.hit(us[i], q) for i in reach if i in us for q in terms)


def cover(F, b, fr, ms, m, root, W, S, early, late):
    """family -> [(variant, path, left out?, direct, block, left out without processing?)]"""
    s = F.types[m.ty]["s"]
    L = late if "Elaborated" in s and "Unelaborated" not in s or "Desugared" in s else early
    table = {}
    for v in variants_of(F, m.adt):
        lv = L.of_variant(m.adt, v)
        t = arms.target_of(m, v)
        if not lv or t is None:
            continue
        wrong = frozenset(wrong_edges(F, b, fr, ms, root, m.adt, v, m))
        for path, fam in lv:
            if fam == "mut" and "?" in path:
                continue
            r = W.missing(fr, t, {m.block}, root, path, wrong)
            d = r is None and direct(W, fr, t, (m.block,), root, path)
            s = S.missing(fr, t, {m.block}, root, path, wrong) if r is None else r
            table.setdefault(fam, []).append((v, path, r, d, t, s))
    return table


def qualifies(rows, predicate):
    n = len(rows)
    d = sum(1 for x in rows if x[3])
    got = sum(1 for x in rows if not x[2])
    if not predicate and d >= 3 and n >= 8 and got * 10 >= n * 9:
        return True     # the other parts are handed on with the whole
    return d >= 3 and d * 2 >= n and (got * 100 >= n * 85 or n - got <= 1 and n >= 4)


def exempt(name, what):
    return any(name == f and what.startswith(p) for f, p in EXEMPT)


def run(F, R, tier):
    early, late = Leaves(F), Leaves(F, True)
    walkers = {d: (Walk(F, False, d), Walk(F, True, d)) for d in (None, "0", "1")}
    walks = 0
    parts = 0
    for b in F.all_bodies():
        if any(s in b.name for s in SKIP) or last(b.name).startswith(("into_", "as_")):
            continue
        ms = [m for m in arms.matches(F, b) if m.adt in ENUMS]
        if not ms:
            continue
        fr = Frame(F, b)
        outer = outer_matches(F, b, fr, ms)
        if len({root for m, root in outer}) > 1 and b.tys(0) == "bool" and any(m.adt == "types::r#type::TypeKind" for m in ms):
            continue    # two types are compared
        for m, root in outer:
            best = None
            for d in (("0", "1") if b.tys(0) == "bool" else (None,)):
                W, S = walkers[d]
                table = cover(F, b, fr, ms, m, root, W, S, early, late)
                got = sum(1 for rows in table.values() for x in rows if not x[2])
                if best is None or got > best[0]:
                    best = got, table, W, S
            _, table, W, S = best
            table = {fam: [x for x in rows if not exempt(last(b.name), ".".join(x[1]))] for fam, rows in table.items()}
            chosen = [fam for fam, rows in sorted(table.items()) if qualifies(rows, b.tys(0) == "bool")]
            for fam in chosen:
                rows = table[fam]
                if fam == "mut" and "type" in table and "type" not in chosen:
                    continue
                walks += 1
                calls = sum(1 for x in rows if not x[5])
                strict = calls * 4 >= len(rows) * 3
                if root[0] == "f" and root[2] == "kind" and m.adt == "hir::NodeKind" and fam in ("type", "effect") \
                        and b.tys(0) == "()" and not b.name.startswith(("emit_mir::", "eval::")):
                    part = {"type": "ty", "effect": "effects"}[fam]
                    r = (S if strict else W).missing(fr, 0, set(), root[1], (part,))
                    R.ob("node", f"{b.name}|{part}", r is None, b.where(0),
                         f"walk over nodes passes the node's own {part} on {r or 'always'}")
                for v, path, r, ok, t, s in rows:
                    what = ".".join(path)
                    parts += 1
                    R.fn(b)
                    if strict:
                        r = s
                    R.ob("walk", f"{b.name}|{what}|{fam}", r is None, b.where(t),
                         f"walk over {m.adt.split('::')[-1]} passes the {fam} part {what} on {r or 'always'}")
    impls(F, R, early, walkers[None][1])
    n = 0
    for b, i, root, ok, top in recursions(F):
        n += 1
        R.fn(b)
        R.ob("recurse", f"{b.name}", ok, b.where(i), f"{last(root)} can go on without having visited every child it listed")
    R.floor("recursions", n, 12)
    R.floor("nodes", R.by_rule.get("node", [0])[0], 4)
    R.floor("walks", walks, 40)
    R.floor("parts", parts, 500)


def impls(F, R, L, W):
    """The methods with which type-like values map and visit themselves reach every part of themselves."""
    n = 0
    for b in F.all_bodies():
        if " as types::type_like::TypeLike>::" not in b.name or last(b.name) not in ("map", "visit"):
            continue
        row = b.ty(1)
        while row["k"] == "ref":
            tid = row["a"][0]
            row = F.types[tid]
        fr = Frame(F, b)
        root = fr.place([1, "*"])
        R.fn(b)
        enum = row["k"] == "adt" and F.adts.get(row["d"], {}).get("kind") == "enum"
        if enum:
            ms = [m for m in arms.matches(F, b) if m.adt == row["d"] and fr.place(m.place) == root]
            work = [(p, f, arms.target_of(ms[0], v), {ms[0].block}) for v in variants_of(F, row["d"]) if ms
                    for p, f in L.of_variant(row["d"], v)]
        else:
            work = [(p, f, 0, set()) for p, f in L.of_type(tid)]
        for path, fam, start, stop in work:
            if fam not in ("type", "effect", "mut"):
                continue
            n += 1
            r = W.missing(fr, start, stop, root, path)
            if exempt(row["s"].split("::")[-1] + "." + last(b.name), ".".join(path)):
                continue
            R.ob("impl", f"{b.name}|{'.'.join(path)}|{fam}", r is None, b.where(start),
                 f"{last(b.name)} passes the {fam} part {'.'.join(path)} of {row['s']} on {r or 'always'}")
    R.floor("impl parts", n, 40)
