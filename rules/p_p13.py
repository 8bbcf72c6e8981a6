"""P13: names, implementations, representations and restricted constructs are usable only where they are allowed."""
from facts import *
from canon import Frame, last, alternatives, elem
from imply import Imp
from must import Must
from terms import Terms
from p_p05 import mentions_std_const
import arms
import p_p19

EXPLANATION = """Visibility and feature gates decided on MIR. `lookup`: every way from a name in a source file to an item of another
module (the getters handed to the path resolution, the resolution's own calls of them, and direct lookups) yields an item only
when the item's visibility was found Public or the asking module owns it; the resolution never asks a foreign module with
the check switched off. `predicate`: the accessibility predicates imply that. `impls`: implementations of other
modules are used only when exported (or in the scopes the solver grants), and are exported only when the trait and every type
of the implementation are public. `repr`: in name resolution, desugaring, type inference and trait solving the shape of a
named type is taken only after its representation was found accessible. `unsafe`, `std`, `experimental`: unsafe
standard-library items, unsafe effect blocks, compiler builtins and named subscripts are accepted only where the gate holds."""

FRONT = ("types::", "hir::", "desugar::", "module::")
MID = "module::ModuleId"


def by_name(F):
    """Functions that find an item of a module by its name."""
    out = set()
    for f in F.fns:
        if "{closure" in f or "{promoted" in f:
            continue
        b = F.body(f)
        if b.args >= 2 and b.tys(1) == "&module::Module" and b.tys(2) in ("ustr::Ustr", "&str") and \
                (b.tys(0).startswith("core::option::Option<") or b.tys(0).startswith("core::result::Result<core::option::Option<")):
            out.add(f)
    return out


def sub_terms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from sub_terms(x)


def calls_in(t, names):
    return any(x and x[0] == "call" and len(x) > 1 and last(x[1]) in names for x in sub_terms(t) if x and isinstance(x[0], str))


def current(t):
    """The id of the module being compiled (in its own methods, of the module itself)."""
    if t == ("call", "module::Module::module_id", ("arg", 1)):
        return True
    for x in sub_terms(t):
        if x and x[0] == "call" and last(x[1]) in ("current_module_id",):
            return True
        if x and x[0] == "f" and str(x[2]).startswith("current") :
            return True
    return False


def mod_eq(fr, rv):
    """The two sides of a comparison of module ids, and whether it is an equality."""
    if is_call(rv):
        n = last(rv.get("f", "?"))
        if n in ("eq", "ne") and len(rv["a"]) == 2 and MID in rv.get("f", "") + "".join(fr.b.tys(op_local(a)) for a in rv["a"] if op_local(a) is not None):
            return fr.op(rv["a"][0]), fr.op(rv["a"][1]), n == "eq"
    elif rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
        return fr.op(rv[2]), fr.op(rv[3]), rv[1] == "Eq"
    return None


def run(F, R, tier):
    getters = by_name(F)
    R.floor("by-name item getters", len(getters), 8)
    predicates(F, R)
    lookups(F, R, getters)
    impls(F, R)
    exported(F, R)
    reprs(F, R)
    unsafe_items(F, R)
    std_only(F, R)
    experimental(F, R)


# -- predicates ----------------------------------------------------------------------------------
def visibility_variant(x):
    t, n = x
    return n == "Public" and calls_in(t, ("symbol_visibility", "get_by_name"))


def own_or_public(module, name, asking):
    """Atom: the module owns the name's module or the name is public; terms of the outermost arguments."""
    def atom(fr, kind, x):
        if kind == "variant":
            return True if x[1] == "Public" and named(x[0], module, name) else None
        if kind == "call":
            e = mod_eq(fr, x)
            if e and asking is not None:
                a, b, eq = e
                for p, q in ((a, b), (b, a)):
                    if q == asking and ("call", "module::Module::module_id", module) in list(sub_terms(p)) or \
                            q == asking and p == ("f", module, "module_id"):
                        return eq
            if last(x.get("f", "?")) in ("eq", "ne") and any("Visibility" in fr.b.tys(op_local(o)) for o in x["a"] if op_local(o) is not None):
                ts = [fr.op(o) for o in x["a"]]
                if any(named(t, module, name) for t in ts) and any("Public" in str(t) for t in ts):
                    return last(x["f"]) == "eq"
        return None
    return atom


def named(t, module, name):
    return any(x[0] == "call" and last(x[1]) in ("symbol_visibility", "get_by_name") and name in x and
               any(module == y for y in sub_terms(x)) for x in sub_terms(t) if x and isinstance(x[0], str))


def method(F, name):
    c = [f for f in F.fns if f.endswith("::" + name) and f.startswith("module::Module::")]
    return c[0] if c else None


def predicates(F, R):
    n = 0
    A = lambda k: ("arg", k)
    f = method(F, "is_symbol_accessible_from")
    if f:
        n += 1
        b = F.body(f)
        R.fn(b)
        im = Imp(F, own_or_public(A(1), A(2), A(3)))
        R.ob("predicate", "is_symbol_accessible_from", im.bool(Frame(F, b), ["c", [0]], True), b.where(0),
             "a name is called accessible although neither its module asks nor its visibility is Public")
    f = method(F, "is_symbol_public")
    if f:
        n += 1
        b = F.body(f)
        R.fn(b)
        im = Imp(F, own_or_public(A(1), A(2), None))
        R.ob("predicate", "is_symbol_public", im.bool(Frame(F, b), ["c", [0]], True), b.where(0),
             "a name is called public although its visibility is not Public")
    for fname, leaf in (("is_trait_accessible_from", "is_symbol_accessible_from"), ("is_trait_public", "is_symbol_public")):
        f = method(F, fname)
        if not f:
            continue
        n += 1
        b = F.body(f)
        R.fn(b)

        def atom(fr, kind, x, leaf=leaf):
            if kind == "call" and last(x.get("f", "?")) == leaf:
                ts = [fr.op(a) for a in x["a"]]
            elif kind == "fn" and last(x[0]) == leaf:
                ts = list(x[1])
            else:
                return None
            ok = len(ts) > 1 and calls_in(ts[1], ("try_trait_name", "trait_name")) and A(2) in list(sub_terms(ts[1]))
            if leaf == "is_symbol_accessible_from":
                ok = ok and ts[2] == A(3)
            return True if ok else None
        im = Imp(F, atom)
        R.ob("predicate", fname, im.bool(Frame(F, b), ["c", [0]], True), b.where(0),
             f"a trait passes {fname} although its name does not pass {leaf}")
    f = method(F, "is_type_def_accessible_from")
    if f:
        n += 1
        b = F.body(f)
        R.fn(b)

        def atom(fr, kind, x):
            if kind == "call" and last(x.get("f", "?")) == "is_symbol_accessible_from" and fr.op(x["a"][2]) == A(3):
                return True
        R.ob("predicate", "is_type_def_accessible_from", Imp(F, atom).bool(Frame(F, b), ["c", [0]], True), b.where(0),
             "a type definition is called accessible although its name is not")
    f = method(F, "is_type_def_public")
    if f:
        n += 1
        b = F.body(f)

        def atom(fr, kind, x):
            if kind == "call" and last(x.get("f", "?")) == "is_symbol_public":
                return True
        R.ob("predicate", "is_type_def_public", Imp(F, atom).bool(Frame(F, b), ["c", [0]], True), b.where(0),
             "a type definition is called public although its name is not")
    R.floor("visibility predicates", n, 5)


# -- lookups -------------------------------------------------------------------------------------
def flagged_getter(b):
    return "{closure" in b.name and b.args == 4 and b.tys(2) == "&str" and b.tys(3) == "&module::Module" and b.tys(4) == "bool"


def accessible_atom(fr, x, module=None, name=None):
    """The call is the accessibility check of this module's name for the module being compiled."""
    n = last(x.get("f", "?"))
    if n == "is_symbol_accessible_from":
        m, nm, frm = [fr.op(a) for a in x["a"]]
        return (module is None or m == module) and (name is None or any(y == name for y in sub_terms(nm))) and current(frm)
    if n == "is_trait_accessible_from":
        return current(fr.op(x["a"][2]))
    return False


def lookups(F, R, getters):
    n = 0
    asks = 0
    env_fns = set()
    for b in F.all_bodies():
        if flagged_getter(b):
            n += 1
            R.fn(b)

            def atom(fr, kind, x):
                if kind == "place" and x == ("arg", 4):
                    return False
                if kind == "call" and accessible_atom(fr, x, ("arg", 3), ("arg", 2)):
                    return True
            # captures stay symbolic: `current` is recognised by the field's name
            caps = captures(F, b)
            fr = Frame(F, b, {k: ("arg", k) for k in (2, 3, 4)}, caps)
            R.ob("lookup", f"{short(F, b)}|checked", Imp(F, atom).some(fr, ["c", [0]]), b.where(0),
                 "an item of another module is found by name although the name is not accessible from the module being compiled")
        # the resolution asks with the check on, except in the asking module itself
        for i, c in b.calls():
            if last(c.get("f", "?")) not in ("call", "call_mut", "call_once") or len(c["a"]) != 2 or i not in b.live:
                continue
            l = op_local(c["a"][1])
            if l is None or "&str, &module::Module, bool)" not in b.tys(l):
                continue
            asks += 1
            R.fn(b)
            fr = Frame(F, b)
            t = fr.op(c["a"][1])
            own = t[0] == "tup" and (t[2] == ("arg", 1) or t[2][0] == "f" and str(t[2][2]).startswith("current"))
            on = t[0] == "tup" and t[3] == ("k", "1")
            R.ob("lookup", f"{short(F, b)}|asks {ask_key(b, i)}", on or own, b.where(i),
                 "another module is asked for an item with the accessibility check switched off")
    for b in F.all_bodies():
        for i, c in b.calls():
            if c.get("f") not in F.fns or i not in b.live:
                continue
            g = F.body(c["f"])
            if any("Fn(&'a str, &'a Self, bool)" in g.tys(k) for k in range(1, g.args + 1)) and g.tys(1) == "&module::Module":
                fr = Frame(F, b)
                t = fr.op(c["a"][0])
                own = t[0] == "f" and str(t[2]).startswith("current") or t == ("arg", 1) and b.tys(1) == "&module::Module" or \
                    t[0] == "f" and "current" in str(t)
                R.ob("lookup", f"{short(F, b)}|asking module", own, b.where(i),
                     "a name is resolved as if a module other than the one being compiled asked")
    R.floor("getters with an accessibility flag", n, 3)
    R.floor("calls of a getter by the resolution", asks, 3)
    direct(F, R, getters)


def ask_key(b, i):
    return sorted(j for j, c in b.calls() if last(c.get("f", "?")) in ("call", "call_mut", "call_once") and j in b.live).index(i)


def short(F, b):
    n = F.root_fn(b.name)
    return last(n)


def captures(F, b):
    parent = b.name.rsplit("::{closure#", 1)[0]
    if parent not in F.fns:
        return None
    pb = F.body(parent)
    pf = Frame(F, pb)
    for i, j, p, rv, l in pb.assigns():
        if rv[0] == "agg" and rv[1] == "closure" and rv[2] == b.name:
            return tuple(pf.op(o) for o in rv[4])
    return None


def foreign(t):
    """The module comes from the table of modules."""
    return calls_in(t, ("module_by_id",)) or any(x[0] == "call" and x[1] == "compiler::session::ModuleEntry::module"
                                                for x in sub_terms(t) if x and isinstance(x[0], str))


def direct(F, R, getters):
    T = Terms(F)
    resolved = resolvers(F)
    n = 0
    for b in F.all_bodies():
        if not b.name.startswith(FRONT):
            continue
        for i, c in b.calls():
            if c.get("f") not in getters or i not in b.live or c["f"].endswith(("find_member", "get_member")):
                continue
            fr = Frame(F, b, None, captures(F, b) if "{closure" in b.name else None)
            m = fr.op(c["a"][0])
            if not foreign(m):
                continue
            n += 1
            R.fn(b)
            name = fr.op(c["a"][1])
            ok = std_module(F, b, m) or calls_in(name, resolved) or compiler_made(F, T, b, c) or guarded(F, b, i)
            R.ob("lookup", f"{short(F, b)}|direct {last(c['f'])}", ok, b.where(i),
                 "an item of another module is looked up by a name that was not found accessible")
        # methods of all traits of a module
        for i, c in b.calls():
            if last(c.get("f", "?")) == "trait_iter" and i in b.live:
                fr = Frame(F, b)
                m = fr.op(c["a"][0])
                if m[0] == "f" and str(m[2]).startswith("current"):
                    continue
                n += 1
                R.fn(b)
                R.ob("lookup", f"{short(F, b)}|traits", guarded(F, b, i, own_param(F, b, m)), b.where(i),
                     "methods of another module's traits are found although the trait is not accessible")
    R.floor("direct lookups in other modules", n, 5)


def own_param(F, b, m):
    """The parameter whose being None means that the module is the one being compiled."""
    if m[0] != "arg":
        return None
    for k in range(1, b.args + 1):
        if b.tys(k) == f"core::option::Option<{MID}>":
            good = True
            from must import call_index
            for cb in F.all_bodies():
                for i, c in cb.calls():
                    if c.get("f") == b.name:
                        fr = Frame(F, cb)
                        t = fr.op(c["a"][k - 1])
                        mod = fr.op(c["a"][m[1] - 1])
                        some = t[0] == "opt" or t[0] == "agg" and t[2] == "Some"
                        if not some and not (mod[0] == "f" and str(mod[2]).startswith("current")):
                            good = False
            return ("arg", k) if good else None
    return None


def guarded(F, b, site, own=None):
    """Whatever is collected or returned after the lookup passed the accessibility check."""
    def atom(fr, kind, x):
        if kind == "call":
            if accessible_atom(fr, x):
                return True
            if own is not None and last(x.get("f", "?")) == "is_some" and fr.op(x["a"][0]) == own:
                return False
            if own is not None and last(x.get("f", "?")) == "is_none" and fr.op(x["a"][0]) == own:
                return True
        if kind == "variant" and own is not None and x == (own, "None"):
            return True
    fr = Frame(F, b)
    e = Imp(F, atom).edges(fr)
    if not e:
        return False
    t = b.blocks[site]["t"]
    seen = {t[2]} | b.reachable([t[2]], edge_filter=lambda x, y: (x, y) not in e)
    for j in seen:
        c = b.blocks[j]["t"][1] if b.blocks[j]["t"][0] == "call" else None
        if c and last(c.get("f", "?")) in ("push", "insert", "extend"):
            return False
    return True


def resolvers(F):
    """Functions whose result comes from the path resolution."""
    return {"function_name_with_module", "subscript_name_with_module", "type_def_with_module", "trait_id_with_module"}


def std_module(F, b, t):
    for x in sub_terms(t):
        if x and x[0] == "call" and last(x[1]) in ("get", "module_by_id") and any("STD_MODULE_ID" in str(y) for y in x):
            return True
    for i, c in b.calls():
        if last(c.get("f", "?")) in ("get", "module_by_id") and any(mentions_std_const(F, b, a) for a in c["a"]):
            return True
    return False


def compiler_made(F, T, b, c):
    """The name is spelled in the compiler's own source, in every caller."""
    ts = T.of(b, c["a"][1])
    for t in ts:
        if t[0] == "const":
            continue
        if t[0] == "call" and last(t[1]) == "ustr":
            cc = T.call_of(t)
            if all(x[0] == "const" for x in T.of(F.body(t[2]), cc["a"][0])):
                continue
        return generated(F, b.name, set())
    return bool(ts)


def generated(F, f, seen):
    """Every caller is the standard library's own code (derived implementations) or the emission of calls of its functions."""
    if f in seen:
        return True
    seen.add(f)
    callers = {cb.name for cb in F.all_bodies() for i, c in cb.calls() if c.get("f") == f and i in cb.live}
    for g in callers:
        root = F.root_fn(g)
        if root.startswith(("std::", "<std::")) or root.startswith("hir::value_dispatch::"):
            continue
        if not root.startswith("types::trait_solver::") or not generated(F, root, seen):
            return False
    return bool(callers) or len(seen) > 1


# -- implementations -----------------------------------------------------------------------------
def usable_atom(fr, kind, x):
    if kind == "call" and last(x.get("f", "?")) == "can_use_other_impl":
        return True
    if kind == "place" and x[0] == "f" and x[2] == "public":
        return True
    return None


def impls(F, R):
    n = 0
    # the predicate itself
    for f in [f for f in F.fns if f.endswith("::can_use_other_impl")]:
        b = F.body(f)
        R.fn(b)
        n += 1

        def atom(fr, kind, x):
            if kind == "place" and x == ("f", ("arg", 3), "public"):
                return True
            if kind == "call" and last(x.get("f", "?")) in ("eq", "ne"):
                ts = [fr.op(a) for a in x["a"]]
                for p, q in (ts, ts[::-1]):
                    scope = ("f", ("arg", 1), "private_impl_scope") in list(sub_terms(p)) or \
                        ("f", ("arg", 1), "privileged_impl_module") in list(sub_terms(p))
                    if scope and ("arg", 2) in list(sub_terms(q)):
                        return last(x["f"]) == "eq"
        R.ob("impls", "can_use_other_impl", Imp(F, atom).bool(Frame(F, b), ["c", [0]], True), b.where(0),
             "a private implementation of another module is usable outside the scopes the solver grants")
    for b in F.all_bodies():
        if not b.name.startswith("types::") or "{promoted" in b.name:
            continue
        fr = None
        # candidates and results built from an implementation of another module
        n += impl_results(F, R, b)
    # scopes are granted by entering an implementation that may be used, and by the host's expressions only
    for b in F.all_bodies():
        for i, c in b.calls():
            if last(c.get("f", "?")) == "push" and i in b.live and c["a"] and op_local(c["a"][0]) is not None:
                fr = Frame(F, b)
                t = fr.op(c["a"][0])
                if t[0] == "f" and t[2] == "private_impl_scope":
                    n += 1
                    R.fn(b)
                    R.ob("impls", f"{short(F, b)}|scope", entering(F, b, fr, i), b.where(i),
                         "the scope of a private implementation is entered although the implementation may not be used")
                    R.ob("impls", f"{short(F, b)}|left", leaving(F, b, fr, i), b.where(i),
                         "the scope of an implementation stays granted after the implementation was tried")
    for f in [f for f in F.fns if f.endswith("::allow_private_impls_from")]:
        for b in F.all_bodies():
            for i, c in b.calls():
                if c.get("f") == f:
                    n += 1
                    fr = Frame(F, b)
                    t = fr.op(c["a"][1])
                    R.fn(b)
                    R.ob("impls", f"{short(F, b)}|privilege {site_no(b, i, f)}", "private_impl_module" in str(t), b.where(i),
                         "private implementations are granted for a module that the entry point did not name")
    R.floor("uses of other modules' implementations", n, 8)


def site_no(b, i, f):
    return sorted(j for j, c in b.calls() if c.get("f") == f).index(i)


def foreign_impls(t):
    """The term reads the implementations of a module from the table."""
    for x in sub_terms(t):
        if x and x[0] == "f" and x[2] == "impls" and foreign(x[1]):
            return True
    return False


def impl_results(F, R, b):
    n = 0
    fr = None
    # candidates pushed on a list
    for i, c in b.calls():
        if last(c.get("f", "?")) != "push" or i not in b.live or len(c["a"]) != 2:
            continue
        l = op_local(c["a"][1])
        if l is None or "Candidate" not in b.tys(l):
            continue
        fr = fr or Frame(F, b)
        t = fr.op(c["a"][1])
        if not foreign_impls(t):
            continue
        n += 1
        R.fn(b)
        R.ob("impls", f"{short(F, b)}|candidate {variant_of(t)}", Imp(F, usable_atom).at(fr, i), b.where(i),
             "an implementation of another module is a candidate although it may not be used")
    # answers
    if "{closure" in b.name:
        return n
    ret = b.tys(0)
    if ret == "bool" or ret.startswith("core::option::Option<") and "TraitImplId" in ret:
        key = [k for k in range(1, b.args + 1) if b.tys(k).endswith("ConcreteTraitImplKey")]
        takes = key and reads_impls(F, b)
        if takes:
            n += 1
            R.fn(b)
            fr = Frame(F, b)
            own = lambda t: any(x[0] == "f" and x[2] in ("impls",) and x[1] == ("arg", 1) for x in sub_terms(t) if x and isinstance(x[0], str))

            def atom(f2, kind, x):
                u = usable_atom(f2, kind, x)
                if u is not None:
                    return u
                if kind == "call" and last(x.get("f", "?")) in ("contains_key", "get"):
                    t = f2.op(x["a"][0])
                    # the module that defines the trait answers for its own native properties
                    if own(t) or any(y == ("f", ("arg", key[0]), "trait_id") for y in sub_terms(module_of(t))):
                        return True
                return None
            im = Imp(F, atom)
            ok = im.bool(fr, ["c", [0]], True) if ret == "bool" else im.some(fr, ["c", [0]])
            R.ob("impls", f"{short(F, b)}|found", ok, b.where(0),
                 "an implementation of another module is found although it may not be used")
    if "Iterator" in ret and "TraitImpl" in ret and any("NamedIndexed" in b.tys(k) for k in range(1, b.args + 1)):
        for sub in [F.body(g) for g in F.closures_of(b.name)] if not isinstance(F.closures_of(b.name), dict) else []:
            for i, c in sub.calls():
                pass
        n += listing(F, R, b)
    return n


def module_of(t):
    """The module whose implementations the term reads."""
    for x in sub_terms(t):
        if x and x[0] == "f" and x[2] == "impls":
            return x[1]
    return ()


def reads_impls(F, b):
    for g in [b.name] + [x for x in F.fns if x.startswith(b.name + "::{closure")]:
        gb = F.body(g)
        for i, j, p, rv, l in gb.assigns():
            for q in rv_places(rv):
                if any(e.startswith(".impls:module::Module") for e in q[1:]) or any(e.startswith(".concrete_key_to_id") for e in q[1:]):
                    return True
    return False


def listing(F, R, b):
    """Iterators over the implementations of other modules: each list is filtered by `public`."""
    n = 0
    R.fn(b)
    for g in sorted(x for x in F.fns if x.startswith(b.name + "::{closure")):
        gb = F.body(g)
        if gb.args < 2 or gb.tys(2) != "&module::Module":
            continue
        fr = Frame(F, gb, {2: ("arg", 2)}, captures(F, gb))
        t = fr.op(["c", [0]])
        parts = lists(t)
        for k, x in enumerate(parts):
            n += 1
            R.ob("impls", f"{short(F, b)}|listed {k}", filtered(F, fr, x), gb.where(0),
                 "implementations of another module are listed whether or not they are public")
    return n


def lists(t):
    out = []
    for x in alternatives(t):
        if x[0] == "chain":
            out += lists(x[1]) + lists(x[2])
        else:
            out.append(x)
    return out


def filtered(F, fr, t):
    return Imp(F, usable_atom).filtered(fr, t)


def variant_of(t):
    for x in alternatives(t):
        if x[0] == "agg":
            return x[2]
    return "?"


def scope_option(F, b, fr, i):
    """The optional module whose implementation is entered at the push."""
    c = b.blocks[i]["t"][1]
    t = fr.op(c["a"][1])
    if t[0] == "f" and t[2] == "Some.0":
        return t[1]
    return None


def entering(F, b, fr, i):
    own = scope_option(F, b, fr, i)

    def atom(f2, kind, x):
        u = usable_atom(f2, kind, x)
        if u is not None:
            return u
        if kind == "variant" and own is not None and x == (own, "None"):
            return True
    return at_tuple(F, b, fr, atom, i)


def at_tuple(F, b, fr, atom, i):
    """Like Imp.at, with booleans that travelled through a tuple built in several places."""
    im = Imp(F, atom)

    def flows(l, want, depth=0):
        ds = [(k, rv) for k, j, rv, p in b.defs().get(l, []) if len(p) == 1]
        if not ds or depth > 6:
            return False
        for k, rv in ds:
            if not is_call(rv) and rv[0] == "use" and op_place(rv[1]) is not None:
                p = op_place(rv[1])
                if len(p) == 1 and flows(p[0], want, depth + 1):
                    continue
                if len(p) == 2 and p[1].startswith("."):
                    nm = p[1][1:].split(":")[0]
                    aggs = [(k2, r2) for k2, j2, r2, p2 in b.defs().get(p[0], []) if len(p2) == 1]
                    if aggs and all(not is_call(r2) and r2[0] == "agg" and nm.isdigit() and int(nm) < len(r2[4]) and
                                    (im.bool(fr, r2[4][int(nm)], want) or own_block(k2)) for k2, r2 in aggs):
                        continue
                return False
            if not (im.rv_bool(fr, rv, want)):
                return False
        return True

    def own_block(k):
        e = im.edges(fr)
        return bool(e) and not Imp.reached(b, k, e)
    e = set(im.edges(fr))
    for k in b.live:
        t = b.blocks[k]["t"]
        if t[0] != "switch" or op_local(t[1]) is None or b.tys(op_local(t[1])) != "bool":
            continue
        tg = dict(t[2])
        from common import negations
        if flows_neg(b, op_local(t[1]), flows, True):
            e.add((k, tg.get("1", t[3])))
        if flows_neg(b, op_local(t[1]), flows, False):
            e.add((k, tg.get("0", t[3])))
    if not e:
        return False
    return not Imp.reached(b, i, e)


def flows_neg(b, l, flows, want, depth=0):
    if flows(l, want):
        return True
    ds = [rv for k, j, rv, p in b.defs().get(l, []) if len(p) == 1]
    if len(ds) == 1 and depth < 4 and not is_call(ds[0]):
        if ds[0][0] == "un" and ds[0][1] == "Not" and op_local(ds[0][2]) is not None:
            return flows_neg(b, op_local(ds[0][2]), flows, not want, depth + 1)
        if ds[0][0] == "use" and op_local(ds[0][1]) is not None and len(op_place(ds[0][1])) == 1:
            return flows_neg(b, op_local(ds[0][1]), flows, want, depth + 1)
    return False


def leaving(F, b, fr, i):
    """Every way out after the push, but for errors, pops the scope."""
    own = scope_option(F, b, fr, i)
    dead = set()

    def none(f2, kind, x):
        if kind == "variant" and own is not None and x == (own, "None"):
            return True
        if kind == "call" and own is not None and f2.op(x["a"][0]) == own if kind == "call" and x["a"] else False:
            if last(x.get("f", "?")) == "is_some":
                return False
            if last(x.get("f", "?")) == "is_none":
                return True
    dead = Imp(F, none).edges(fr)
    pops = set()
    for j, c in b.calls():
        if last(c.get("f", "?")) in ("pop", "truncate") and c["a"]:
            t = fr.op(c["a"][0])
            if t[0] == "f" and t[2] == "private_impl_scope":
                pops.add(j)
    fail = set()
    for k, j, p, rv, l in b.assigns():
        if rv[0] == "agg" and rv[3] == "Err" and rv[2].endswith("Result"):
            fail.add(k)
    for k, c in b.calls():
        if last(c.get("f", "?")) == "from_residual":
            fail.add(k)
    start = b.blocks[i]["t"][2]
    seen = {start} | b.reachable([start], avoid=tuple(pops | fail), edge_filter=lambda x, y: (x, y) not in dead)
    return bool(pops) and i not in seen and not any(r in seen for r in b.return_blocks())


# -- what is exported ----------------------------------------------------------------------------
def exported(F, R):
    f = method(F, "is_trait_impl_exportable")
    R.floor("export predicate", 1 if f else 0, 1)
    if f:
        b = F.body(f)
        R.fn(b)
        fr = Frame(F, b)

        def atom(f2, kind, x):
            if kind == "call" and last(x.get("f", "?")) == "is_trait_public" and f2.op(x["a"][1]) == ("arg", 2):
                return True
        R.ob("export", "trait", Imp(F, atom).bool(fr, ["c", [0]], True), b.where(0),
             "an implementation is exported although its trait is not public")
        for k, what in ((3, "input"), (4, "output")):
            def goal(f2, i, c, k=k):
                return last(c.get("f", "?")) == "is_type_public" and any(
                    t == elem(("arg", k)) or t[0] == "phi" and elem(("arg", k)) in t[1] for t in [f2.op(c["a"][1])])
            M = Must(F, goal, decided="0")
            R.ob("export", what, M.holds(Frame(F, b)), b.where(0),
                 f"an implementation is exported although an {what} type is not public")
    walker(F, R)
    T = Terms(F)
    n = 0
    for b in F.all_bodies():
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1] == "struct" or rv[0] == "agg" and rv[2].endswith("trait_impl::TraitImpl"):
                if not rv[2].endswith("module::trait_impl::TraitImpl") or not rv[5] or "public" not in rv[5]:
                    continue
                op = rv[4][rv[5].index("public")]
                for t in T.of(b, op):
                    n += 1
                    ok = t[0] == "const" and t[1] in ("0", "false") or t[0] == "call" and last(t[1]) == "is_trait_impl_exportable" or \
                        t[0] == "fld" and t[2] == ".public" or t[0] == "const" and host_module(F, T, b, op)
                    where = t[2] if t[0] == "call" else b.name
                    R.ob("export", f"{last(F.root_fn(where))}|public", ok, b.where(i),
                         "an implementation is marked as exported without looking at its trait and types")
    R.floor("sources of an implementation's visibility", n, 4)


def host_module(F, T, b, op, depth=0):
    """`true` given by the standard library's and the host's native registrations."""
    p = op_place(op)
    if p is None:
        return b.name.startswith(("std::", "module::", "<module::")) or "TraitImpls" in b.name
    if len(p) == 1 and 1 <= p[0] <= b.args and depth < 4:
        return all(host_module(F, T, cb, c["a"][p[0] - 1], depth + 1) or
                   not any(t[0] == "const" and t[1] in ("1", "true") for t in T.of(cb, c["a"][p[0] - 1]))
                   for cb, i, c in T.callers(b.name))
    ds = [rv for _, _, rv, q in b.defs().get(p[0], [])]
    return len(ds) == 1 and not is_call(ds[0]) and ds[0][0] == "use" and host_module(F, T, b, ds[0][1], depth + 1)


def walker(F, R):
    """The predicate over types asks every part of the type."""
    from walks import Leaves, extend
    L = Leaves(F)
    f = method(F, "is_type_visible_by")
    if not f:
        return
    b = F.body(f)
    fr = Frame(F, b)
    R.fn(b)
    ms = [m for m in arms.matches(F, b) if m.adt.endswith("TypeKind")]
    n = 0
    for m in ms[:1]:
        root = fr.place(m.place)
        for v in F.adts[m.adt]["variants"]:
            start = arms.target_of(m, v["name"])
            if start is None:
                continue
            for path, fam in L.of_variant(m.adt, v["name"]):
                if fam != "type":
                    continue
                t = root
                for s in path:
                    t = extend(t, s)
                n += 1

                def goal(f2, i, c, t=t):
                    return c.get("f") == f and t in alternatives(f2.op(c["a"][1]))
                M = Must(F, goal, decided="0")
                R.ob("export", f"walk {v['name']}.{'.'.join(path)}", M.holds(fr, start), b.where(start),
                     "a type is called public although a part of it was not looked at")
            if v["name"] == "Named":
                n += 1

                def goal(f2, i, c):
                    return last(c.get("f", "?")) == "is_type_def_ref_visible_by" and c.get("f") in F.fns
                M = Must(F, goal, decided="0")
                R.ob("export", "walk Named.def", M.holds(fr, start), b.where(start),
                     "a named type is called public although its definition was not looked at")
    R.floor("parts of a type that the export predicate asks", n, 8)


# -- private representations ---------------------------------------------------------------------
def repr_atom(fr, kind, x):
    if kind == "call":
        if last(x.get("f", "?")) == "has_private_repr":
            return False
        e = mod_eq(fr, x)
        if e:
            a, b, eq = e
            if current(a) != current(b):
                other = b if current(a) else a
                if any(y[0] == "f" and y[2] == "module" for y in sub_terms(other) if y and isinstance(y[0], str)):
                    return eq
    if kind == "bin":
        e = mod_eq(fr, x)
        if e and current(e[0]) != current(e[1]):
            return e[2]
    return None


SHAPES = ("instantiated_shape", "instantiated_shape_with_effects", "shape_ty")


def reprs(F, R):
    n = 0
    for b in F.all_bodies():
        if not b.name.startswith(("types::type_inference", "types::trait_solver", "types::typing_env", "desugar::", "module::module_env")):
            continue
        for i, c in b.calls():
            f = c.get("f", "?")
            if last(f) not in SHAPES or i not in b.live or "TypeDef" not in f and "NamedType" not in f:
                continue
            n += 1
            R.fn(b)
            fr = Frame(F, b)
            ok = Imp(F, repr_atom).at(fr, i) or resolved_first(F, b, i, fr) or only_for_answer(F, b, i, fr)
            R.ob("repr", f"{last(F.root_fn(b.name))}|{last(f)}", ok, b.where(i),
                 "the representation of a named type is used although it may be private to another module")
    R.floor("uses of a named type's representation in the front end", n, 6)
    f = [f for f in F.fns if f.endswith("TypeDef::has_private_repr")]
    for g in f:
        b = F.body(g)
        R.fn(b)
        attributes = ("f", ("arg", 1), "attributes")

        def atom(fr, kind, x):
            if kind == "call" and last(x.get("f", "?")) in ("any", "contains") and attributes in list(sub_terms(fr.op(x["a"][0]))):
                return False
            # a loop over the attributes came to its end
            if kind == "variant" and x[1] == "None" and any(
                    is_call(r) and last(r.get("f", "?")) == "next" and attributes in list(sub_terms(fr.op(r["a"][0])))
                    for ds in fr.b.defs().values() for _, _, r, q in ds):
                return True
        R.ob("repr", "has_private_repr|attributes", Imp(F, atom).bool(Frame(F, b), ["c", [0]], False), b.where(0),
             "a representation is called accessible without looking at the attributes of the type")


def resolved_first(F, b, i, fr, depth=0):
    """The definition was resolved by a function that lets only accessible representations through, or comes from such callers."""
    c = b.blocks[i]["t"][1]
    t = fr.op(c["a"][0])
    for x in sub_terms(t):
        if x and x[0] == "call" and x[1] in F.fns and lets_through(F, x[1]):
            return True
    # a definition given by the callers
    args = {x for x in sub_terms(t) if x and x[0] == "arg" and "TypeDefId" in b.tys(x[1])}
    if len(args) == 1 and depth < 2:
        k = next(iter(args))[1]
        sites = [(cb, j, cc) for cb in F.all_bodies() for j, cc in cb.calls() if cc.get("f") == b.name]
        if sites:
            for cb, j, cc in sites:
                cf = Frame(F, cb)
                ct = cf.op(cc["a"][k - 1])
                if not any(x[0] == "call" and x[1] in F.fns and lets_through(F, x[1]) for x in sub_terms(ct) if x and isinstance(x[0], str)) \
                        and not Imp(F, repr_atom).at(cf, j) and not from_payload(F, cb, cf, ct):
                    return False
            return True
    return False


def from_payload(F, b, fr, t):
    """The definition is a payload of the result of a resolving call (through a match)."""
    return False


_lets = {}


def lets_through(F, f):
    if f in _lets:
        return _lets[f]
    _lets[f] = False
    b = F.body(f)
    if not b.tys(0).startswith("core::result::Result<"):
        return False
    fr = Frame(F, b)
    im = Imp(F, repr_atom)
    r = im.ok(fr, ["c", [0]]) or im.some(fr, ["c", [0]])
    if not r:
        # its own success comes from a resolving call
        def atom(f2, kind, x):
            if kind == "call" and x.get("f") in F.fns and x.get("f") != f and lets_through(F, x["f"]):
                return True
            return repr_atom(f2, kind, x)
        r = Imp(F, atom).ok(fr, ["c", [0]])
    _lets[f] = r
    return r


def only_for_answer(F, b, i, fr):
    """The shape decides only whether a definition matches; no answer is given before the representation is checked."""
    if not b.tys(0).startswith("core::result::Result<core::option::Option<"):
        return False
    im = Imp(F, repr_atom)
    return im.some(fr, ["c", [0]])


# -- unsafe standard-library items ---------------------------------------------------------------
def unsafe_items(F, R):
    n = 0
    for f in [f for f in F.fns if last(f) == "is_unsafe_item_unavailable_in_current_context"]:
        b = F.body(f)
        R.fn(b)

        def atom(fr, kind, x):
            if kind == "call":
                if last(x.get("f", "?")) == "is_unsafe_item" and ("arg", 3) in list(sub_terms(fr.op(x["a"][1]))):
                    return False
                e = mod_eq(fr, x)
                if e and any(mentions_std_const(F, fr.b, a) for a in x["a"]):
                    cur = current(e[0]) or current(e[1])
                    return e[2] if cur else (not e[2])
            if kind == "variant" and x == (("arg", 2), "None"):
                return True
            if kind == "variant" and x[1] == "None" and calls_in(x[0], ("get", "module", "and_then")):
                return True
        n += 1
        R.ob("unsafe", "predicate", Imp(F, atom).bool(Frame(F, b), ["c", [0]]  , False), b.where(0),
             "an unsafe item is called available outside the standard library")
    lookups = ("function_name_with_module", "subscript_name_with_module", "bare_native_type_alias_with_module")
    for b in F.all_bodies():
        for i, c in b.calls():
            if last(c.get("f", "?")) not in lookups or c.get("f") not in F.fns or i not in b.live:
                continue
            n += 1
            R.fn(b)
            fr = Frame(F, b)
            result = fr.call(c)

            def atom(f2, kind, x, result=result):
                if kind == "call" and last(x.get("f", "?")) == "is_unsafe_item_unavailable_in_current_context":
                    return False
                if kind == "variant" and x[1] == "None" and result in list(sub_terms(x[0])):
                    return True
            bad = Imp(F, atom).passes(fr, [b.blocks[i]["t"][2]])
            R.ob("unsafe", f"{last(F.root_fn(b.name))}|{last(c['f'])}", bad is None, b.where(i if bad is None else bad),
                 "an item is resolved without asking whether it is unsafe and unavailable here")
    R.floor("unsafe-item gates", n, 4)


# -- standard-library-only constructs ------------------------------------------------------------
def std_atom(F):
    def atom(fr, kind, x):
        if kind == "call":
            e = mod_eq(fr, x)
            if e and any(mentions_std_const(F, fr.b, a) for a in x["a"]) and (current(e[0]) or current(e[1])):
                return e[2]
        if kind == "bin":
            if any(mentions_std_const(F, fr.b, o) for o in x[2:4]):
                return x[1] == "Eq"
        return None
    return atom


def typing(b):
    return any("typing_env::TypingEnv" in b.tys(k) for k in range(1, b.args + 1))


def std_only(F, R):
    n = 0
    for b in F.all_bodies():
        if "{closure" in b.name or "{promoted" in b.name or not typing(b):
            continue
        if any(b.tys(k).endswith("Builtin") for k in range(1, b.args + 1)):
            n += 1
            R.fn(b)
            fr = Frame(F, b)
            R.ob("std", f"{last(b.name)}|builtin", Imp(F, std_atom(F)).ok(fr, ["c", [0]]), b.where(0),
                 "a compiler builtin is accepted outside the standard library")
        for m in arms.matches(F, b):
            if "EffectsUnsafe" not in m.targets:
                continue
            start = m.targets["EffectsUnsafe"]
            n += 1
            R.fn(b)
            fr = Frame(F, b)
            bad = Imp(F, std_atom(F)).passes(fr, [start])
            R.ob("std", f"{last(b.name)}|effects_unsafe", bad is None, b.where(start),
                 "effects_unsafe is accepted outside the standard library")
    R.floor("standard-library-only constructs", n, 3)


# -- experimental --------------------------------------------------------------------------------
def experimental(F, R):
    n = 0

    def atom(fr, kind, x):
        if kind == "place" and x[0] == "f" and x[2] == "allow_experimental":
            return True
    for b in F.all_bodies():
        if "{closure" in b.name or "{promoted" in b.name or not typing(b):
            continue
        ret = b.tys(0)
        if any("NamedSubscriptData" in b.tys(k) for k in range(1, b.args + 1)) and "NamedSubscript" in ret:
            n += 1
            R.fn(b)
            fr = Frame(F, b)
            im = Imp(F, atom)
            ok = im.some(fr, ["c", [0]]) if "Option<" in ret.split("NamedSubscript")[0] else im.ok(fr, ["c", [0]])
            R.ob("experimental", last(b.name), ok, b.where(0), "named subscript access is accepted without the experimental capability")
        for i, c in b.calls():
            if c.get("f", "").endswith("TypingEnv::<'m>::get_subscript") and i in b.live:
                n += 1
                R.fn(b)
                fr = Frame(F, b)
                result = fr.call(c)
                # what the subscript becomes: a node
                im = Imp(F, atom)
                e = im.edges(fr)
                bad = None
                for j, k, p, rv, l in b.assigns():
                    if rv[0] == "agg" and rv[3] == "GetSubscript" and j in b.live and not im.at(fr, j):
                        bad = j
                R.ob("experimental", f"{last(b.name)}|named value", bad is None, b.where(i if bad is None else bad),
                     "a named subscript is used as a value without the experimental capability")
    # who grants it
    writes = 0
    for b in F.all_bodies():
        for i, j, p, rv, l in b.assigns():
            granted = None
            if len(p) > 1 and p[-1].startswith(".allow_experimental:"):
                granted = rv[1] if rv[0] == "use" else None
            elif rv[0] == "agg" and rv[2].endswith("CompilationCapabilities") and rv[5] and "allow_experimental" in rv[5]:
                granted = rv[4][rv[5].index("allow_experimental")]
            if granted is None:
                continue
            writes += 1
            fr = Frame(F, b)
            t = fr.op(granted)
            ok = t == ("k", "0") or t[0] == "arg" or b.name.startswith("std::") or t[0] == "f" and t[2] == "allow_experimental" or \
                "default" in str(t)
            R.ob("experimental", f"{last(F.root_fn(b.name))}|granted", ok, b.where(i),
                 "the experimental capability is granted without the host asking for it")
    R.floor("experimental gates", n, 3)
    R.floor("places that set the experimental capability", writes, 2)
