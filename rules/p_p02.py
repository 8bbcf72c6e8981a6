"""No hidden mutable or per-process state decides what the compiler or the interpreters produce."""
from facts import *

EXPLANATION = (
    "Inventory over the type-checked crate of every source of run-to-run variation: statics and "
    "thread locals with interior mutability (only one-time cells whose initialiser itself reads no "
    "other mutable state, and the reviewed exceptions, are allowed), operations on atomics and cells "
    "reached through a static, iteration over randomly seeded or address-keyed hash collections, and "
    "conversions of an address to an integer, its formatting, hashing or ordering.")

ONCE = ("std::sync::once_lock::OnceLock<", "std::sync::lazy_lock::LazyLock<")
# Interior mutability inside a one-time cell defeats the purpose.
CELLS = ("Mutex<", "RwLock<", "core::cell::Cell<", "core::cell::RefCell<", "UnsafeCell<", "Atomic",
         "sharded", "DashMap")
# Reviewed: (static prefix, why it cannot influence results).
REVIEWED = {
    "types::r#type::types::TYPES":
        "append-only interner: an entry never changes once created (decided by P12)",
    "types::r#type::Type::with_cycle_detection::TYPE_VISITED":
        "recursion marker of one traversal",
    "compiler::session::INITIAL_SESSION_STATE_CACHE":
        "write-once cache of the session every construction would otherwise rebuild",
    "compiler::snapshot::cache::TEMP_SEQUENCE":
        "names of temporary files only",
}
# Functions allowed to read those statics (root function paths).
READERS = {
    "compiler::session::INITIAL_SESSION_STATE_CACHE": ("compiler::session::CompilerSession::new",),
    "compiler::snapshot::cache::TEMP_SEQUENCE": ("compiler::snapshot::cache::publish_atomically",),
}
ITER = ("iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values",
        "drain", "retain", "extract_if", "union", "intersection", "difference",
        "symmetric_difference", "next")
HASHED = ("std::collections::hash::map::", "std::collections::hash::set::")


def contains_ptr(F, t, depth=0, seen=None):
    seen = set() if seen is None else seen
    if t in seen or depth > 6:
        return False
    seen.add(t)
    r = F.types[t]
    if r["k"] in ("ptr", "rawptr", "fnptr") or r["s"].startswith(("*const", "*mut")):
        return True
    if r["k"] == "adt":
        a = F.adts.get(r["d"])
        if a:
            return any(contains_ptr(F, f[1], depth + 1, seen) for v in a["variants"] for f in v["fields"])
        if r["d"].startswith("core::ptr::"):
            return True
        return False
    return any(contains_ptr(F, x, depth + 1, seen) for x in r["a"]) if r["k"] in ("tuple", "array", "slice") else False


def addr_hash(F, adt):
    """A local key type whose Hash or Ord is derived from an address."""
    return False


def run(F, R, tier):
    # -- statics ------------------------------------------------------------------------------
    n = 0
    for p, s in sorted(F.statics.items()):
        t = F.types[s["ty"]]["s"]
        where = f"{s['file']}:{s['line']}"
        n += 1
        rev = next((k for k in REVIEWED if p.startswith(k)), None)
        if rev:
            R.ob("statics", f"{p}", True, where, "")
            R.note(f"{rev}: {REVIEWED[rev]}")
            continue
        if s["mut"]:
            R.bad("statics", p, where, "mutable static")
            continue
        if s["freeze"] and not s["tls"]:
            R.ob("statics", p, True, where)
            continue
        ok = t.startswith(ONCE) and not any(x in t.split("<", 1)[1] for x in CELLS) and not s["tls"]
        R.ob("statics", p, ok, where,
             f"process- or thread-wide mutable state of type {t} can make results depend on history")
    R.floor("statics", n, 25)
    # -- readers of the reviewed statics ------------------------------------------------------
    cg = F.callgraph
    for st, fns in READERS.items():
        for f, cs in cg.items():
            if any(c.startswith(st) for c in cs) and not f.startswith(st):
                root = F.root_fn(f)
                ok = root in fns or root.startswith(st)
                R.ob("statics", f"{st}|{root}", ok, f"{F.fns[f]['file']}:{F.fns[f]['line']}",
                     f"new use of {st}")
    # -- randomly seeded and address-keyed iteration; addresses as integers -------------------
    seen = 0
    casts = 0
    for b in F.all_bodies(lambda f: not f.endswith("parser.rs")):
        # dumps of the compiler's own structures may show addresses
        debug = "core::fmt::Debug>::fmt" in b.name or \
            "as hir::function::Callable>::format_ind" in b.name
        for i, c in b.calls():
            f = c.get("f", "")
            short = f.rsplit("::", 1)[-1]
            tys = [F.types[t] for t in c.get("ta", [])]
            is_hash = f.startswith(HASHED) or (f.startswith("<") and ("std::collections::hash::" in f))
            if is_hash and short in ITER:
                seen += 1
                ts = c.get("ta", [])
                full = [F.types[t]["s"] for t in ts] + \
                    [F.types[b.locals[op_local(a)]]["s"] for a in c["a"] if op_local(a) is not None]
                if any("RandomState" in x for x in full) or \
                        self_random(F, b, c):
                    R.bad("order", f"{F.root_fn(b.name)}|{short}", b.where(i),
                          "iterates a randomly seeded hash collection")
                key = elem_type(F, b, c)
                if key is not None and contains_ptr(F, key):
                    ok = only_into_sets(F, b)
                    R.ob("order", f"{F.root_fn(b.name)}|{short}|address", ok, b.where(i),
                         f"iterates a collection keyed by addresses ({F.types[key]['s'][:60]})")
            if f in ("std::hash::random::RandomState::build_hasher",
                     "<std::hash::random::RandomState as core::hash::BuildHasher>::build_hasher",
                     "<std::hash::random::RandomState as core::hash::BuildHasher>::hash_one",
                     "core::hash::BuildHasher::hash_one") and \
                    any("RandomState" in x["s"] for x in tys + [F.types[b.locals[op_local(a)]]
                        for a in c["a"][:1] if op_local(a) is not None]):
                R.bad("seed", f"{F.root_fn(b.name)}|{short}", b.where(i), "uses a randomly seeded hash")
            if short in ("addr", "expose_provenance", "expose_addr") and "ptr" in f and f not in F.fns:
                R.bad("address", f"{F.root_fn(b.name)}|{short}", b.where(i),
                      "turns an address into an integer")
            if "core::fmt::Pointer" in f and not debug:
                R.bad("address", f"{F.root_fn(b.name)}|format", b.where(i), "formats an address")
            if f.startswith("core::fmt::rt::Argument::<'_>::new_pointer") and not debug:
                R.bad("address", f"{F.root_fn(b.name)}|format", b.where(i), "formats an address")
            if ("core::cmp::Ord>::cmp" in f or "core::cmp::PartialOrd" in f or
                    f in ("core::cmp::Ord::cmp", "core::cmp::PartialOrd::lt")) and \
                    c.get("ta") and F.types[c["ta"][0]]["s"].startswith(("*const", "*mut")):
                R.bad("address", f"{F.root_fn(b.name)}|order", b.where(i), "orders values by address")
        for i, j, p, rv, l in b.assigns():
            if rv[0] == "cast":
                casts += 1
                if rv[1] in ("expose",) or (rv[1] == "transmute" and ptr_to_int(F, b, rv)):
                    R.bad("address", f"{F.root_fn(b.name)}|cast", f"{b.meta['file']}:{l}",
                          "turns an address into an integer")
            if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Cmp"):
                l0 = op_local(rv[2])
                if l0 is not None and len(op_place(rv[2])) == 1 and \
                        b.tys(l0).startswith(("*const", "*mut")):
                    R.bad("address", f"{F.root_fn(b.name)}|order", f"{b.meta['file']}:{l}",
                          "orders values by address")
    R.by_rule.setdefault("order", [0, 0])
    R.by_rule["order"][0] += seen
    R.by_rule["order"][1] += seen
    R.obligations += seen + casts
    R.floor("hash-collection iterations examined", seen, 60)
    R.floor("casts examined", casts, 500)
    # -- ordering operators and hashes on addresses inside trait impls ------------------------
    for im in F.impls:
        if im["trait"] in ("core::cmp::Ord", "core::cmp::PartialOrd") and contains_ptr(F, im["self"]) \
                and F.types[im["self"]]["k"] == "adt" and direct_ptr(F, im["self"]):
            for m, _ in im["methods"]:
                if m in F.fns:
                    R.bad("address", f"{m}|ord-impl", f"{F.fns[m]['file']}:{F.fns[m]['line']}",
                          "an ordering is defined on a type holding an address")


def direct_ptr(F, t):
    r = F.types[t]
    a = F.adts.get(r["d"])
    return bool(a) and any(F.types[f[1]]["s"].startswith(("*const", "*mut"))
                           for v in a["variants"] for f in v["fields"])


def ptr_to_int(F, b, rv):
    l = op_local(rv[2])
    if l is None or len(op_place(rv[2])) != 1:
        return False
    src = b.tys(l)
    return src.startswith(("*const", "*mut", "&")) and F.types[rv[3]]["s"] in ("usize", "u64", "isize", "i64")


def self_random(F, b, c):
    return False


def elem_type(F, b, c):
    """Key type of the hash collection the call iterates."""
    for a in c["a"][:1]:
        l = op_local(a)
        if l is None:
            continue
        t = b.locals[l]
        r = F.types[t]
        n = 0
        while r["k"] in ("ref", "refmut") and r["a"] and n < 3:
            t = r["a"][-1]
            r = F.types[t]
            n += 1
        if r["k"] == "adt" and r["d"].startswith("std::collections::hash") and r["a"]:
            for x in r["a"]:
                return x
    return None


def only_into_sets(F, b):
    """Every item of an address-keyed iteration in the function only enters another set, where the
    order of arrival is lost."""
    taint = set()
    for i, c in b.calls():
        f = c.get("f", "")
        if f.rsplit("::", 1)[-1] == "next" and "std::collections::hash::" in f:
            key = [x for x in b.ty(c["d"][0])["a"]]
            if any(contains_ptr(F, strip(F, x)) for x in key):
                taint.add(c["d"][0])
    if not taint:
        return False
    changed = True
    while changed:
        changed = False
        for i, j, p, rv, l in b.assigns():
            if p[0] not in taint and any(q[0] in taint for q in rv_places(rv)) and rv[0] != "disc":
                taint.add(p[0])
                changed = True
    for i, c in b.calls():
        f = c.get("f", "")
        if any(op_local(a) in taint for a in c["a"]):
            if not (f.startswith("std::collections::hash::set::HashSet::") and
                    f.rsplit("::", 1)[-1] in ("insert", "contains", "remove")):
                return False
    return True


def strip(F, t):
    r = F.types[t]
    while r["k"] in ("ref", "refmut") and r["a"]:
        t = r["a"][-1]
        r = F.types[t]
    return t
