"""Ambient authority: compiling and running code touches no file, network, process, clock or stream."""
from facts import *

EXPLANATION = (
    "Effect analysis over the crate's call graph (dynamic dispatch over-approximated by every impl, "
    "function and closure values by their mention, plus drop glue). Every call to an operation of "
    "the host environment (filesystem, network, process, environment, clock, thread, standard "
    "streams, randomness, foreign functions) is located; none may be reachable from code that runs "
    "guest programs, and none from the compilation interface except through the standard-library "
    "snapshot cache consulted while a session is being created.")

# Operations of the host environment, by external path prefix.
AMBIENT = (
    "std::fs::", "std::net::", "std::process::", "std::env::", "std::thread::functions::",
    "std::thread::spawn", "std::thread::sleep", "std::thread::Builder", "std::thread::park", "std::thread::current", "std::thread::scoped",
    "std::time::Instant::now", "std::time::Instant::elapsed", "std::time::SystemTime::",
    "std::io::stdio::", "std::io::Stdin", "std::io::Stdout", "std::io::Stderr", "std::os::",
    "std::sys::", "std::hash::random::RandomState::new", "std::backtrace::", "std::panic::set_hook",
    "std::panicking::set_hook",
    "std::path::Path::exists", "std::path::Path::is_", "std::path::Path::metadata",
    "std::path::Path::canonicalize", "std::path::Path::read_", "std::path::Path::try_exists",
    "std::path::absolute", "libc::", "rand::", "getrandom::", "js_sys::", "web_sys::", "tokio::",
    "instant::", "web_time::", "chrono::", "memmap2::", "tempfile::", "dirs::", "nix::", "rustix::",
    "core::arch::", "ctrlc::",
)
# Thread-local storage plumbing is not an ambient effect.
HARMLESS = ("std::sys::thread_local::",)
# Diagnostics on the host's error stream, not a capability of the guest: (function, callee).
DIAGNOSTIC = {
    ("<hir::function::ScriptFunction as hir::function::Callable>::call", "std::io::stdio::_eprint"),
    ("types::r#type::dump_type_world", "std::io::stdio::_print"),
}


def is_ambient(F, c):
    if c in F.fns:
        return False
    if c.startswith("<"):
        # an impl of a foreign trait on a foreign type: judged by the type
        inner = c[1:]
        return is_ambient_name(inner.lstrip("&'a "))
    return is_ambient_name(c)


def is_ambient_name(c):
    return c.startswith(AMBIENT) and not c.startswith(HARMLESS)


def is_foreign(F, c):
    return c in getattr(F, "foreign", ())


def holders(F):
    """Direct performers of an ambient operation: fn -> [callee]."""
    out = {}
    for f, cs in F.callgraph.items():
        hit = sorted(c for c in cs if is_ambient(F, c))
        hit = [c for c in hit if (F.root_fn(f), c) not in DIAGNOSTIC]
        if hit:
            out[f] = hit
    return out


def guest_roots(F):
    roots = set()
    for i in F.impls:
        if i["trait"] == "hir::function::Callable":
            roots.update(m for m, _ in i["methods"])
    for f, m in F.fns.items():
        if m["kind"] not in ("fn", "closure"):
            continue
        if m["file"] in ("src/eval.rs", "src/mir/interpreter.rs"):
            roots.add(f)
        elif m["file"].startswith("src/std/"):
            roots.add(f)
    return roots


def run(F, R, tier):
    amb = holders(F)
    cg = F.callgraph
    n_ops = sum(len(v) for v in amb.values())
    for f in amb:
        R.fn(f)
    # -- guest code ---------------------------------------------------------------------------
    roots = guest_roots(F)
    # session construction is not guest code, but std/mod.rs hosts the library builder
    reach = F.reach(roots)
    R.floor("guest-side roots", len(roots), 900)
    R.floor("functions reachable from guest-side roots", len(reach), 3000)
    for f in sorted(reach):
        if f in F.fns:
            hit = amb.get(f)
            if hit:
                ch = F.chain(reach, f)
                for c in hit:
                    R.bad("guest", f"{f}|{c}", f"{F.fns[f]['file']}:{F.fns[f]['line']}",
                          f"code that runs guest programs reaches {c}: " + " -> ".join(ch[-6:]))
    R.obligations += len(reach)
    R.by_rule.setdefault("guest", [0, 0])
    R.by_rule["guest"][0] += len(reach)
    R.by_rule["guest"][1] += len(reach)
    # -- the compilation interface ------------------------------------------------------------
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    gates = {f for f in F.fns if f.endswith("::load_or_build_std")}
    R.floor("snapshot-cache gate", len(gates), 1)
    entry = [f for f, m in F.fns.items() if m["kind"] == "fn" and not m["file"].endswith("cache.rs")]
    reach2 = F.reach(entry, stop=gates)
    for f in sorted(amb):
        if f in gates or F.root_fn(f) in gates:
            R.ob("compile", f"{f}|gated", True, f"{F.fns[f]['file']}:{F.fns[f]['line']}")
            continue
        ok = f not in reach2
        R.ob("compile", f"{f}|gated", ok, f"{F.fns[f]['file']}:{F.fns[f]['line']}",
             f"performs {', '.join(amb[f])} outside the snapshot cache: " +
             " -> ".join(F.chain(reach2, f)[-6:]) if not ok else "")
    # the gate itself is only entered while a session is being created
    up = set(gates)
    work = list(gates)
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in up:
                up.add(y)
                work.append(y)
    for f in sorted(up - gates):
        m = F.fns.get(f)
        if m is None:
            continue
        out = F.body(F.root_fn(f)).ty(0)["s"] if F.root_fn(f) in F.fns else ""
        creates = any(x in out for x in ("CompilerSession", "ide::compiler::Compiler", "InitialSession",
                                         "SessionState", "StdBuild", "BuiltStd", "StdArtifacts")) \
            or m["kind"] == "closure" or m["kind"] != "fn" or "session" in m["file"] and m["vis"] != "pub"
        R.ob("gate", f"{f}|creates-session", creates, f"{m['file']}:{m['line']}",
             f"reaches the snapshot cache although it does not create a session (returns {out})")
    R.floor("ambient operations located", n_ops, 15)
