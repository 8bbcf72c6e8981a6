#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   decide one property from /repo's current source.
check.py --setup                          prebuild the analyzer and the facts.
check.py --all                            decide every claimed property (development aid).
"""
import fcntl
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.join(VERIF, "rules"))


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    return r.returncode, r.stdout


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + \
        env.get("PATH", "") + ":/root/.cargo/bin"
    env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUST_MIN_STACK"] = "67108864"
    return env


def files_under(root, skip=(".git", "target", "node_modules")):
    for d, dirs, fs in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(fs):
            yield os.path.join(d, f)


def digest():
    """Hash of everything the analysed crate is built from, and of the extractor."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, x) for x in ("src", "ferlium_macros", "playground/script-api")]
    paths = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs")]
    for r in roots:
        paths.extend(files_under(r))
    paths.extend(files_under(os.path.join(VERIF, "analyzer")))
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode())
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def build_facts():
    """Builds the analyzer and extracts the facts of the current tree; returns the facts prefix."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = digest()
        prefix = os.path.join(BUILD, "facts-" + key)
        if os.path.exists(prefix + ".ok"):
            return prefix
        env = base_env()
        rc, sysroot = sh(["rustc", "--print", "sysroot"], env)
        if rc != 0:
            raise RuntimeError("no nightly toolchain:\n" + sysroot)
        # 1. The extractor.
        e = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "analyzer"))
        rc, out = sh(["cargo", "build", "--release", "--offline"], e, os.path.join(VERIF, "analyzer"))
        if rc != 0:
            raise RuntimeError("analyzer build failed:\n" + out[-4000:])
        # 2. A workspace of links to /repo without the member that cannot be resolved offline.
        ws = os.path.join(BUILD, "ws")
        os.makedirs(ws, exist_ok=True)
        for x in os.listdir(ws):
            p = os.path.join(ws, x)
            if os.path.islink(p):
                os.unlink(p)
        for x in os.listdir(REPO):
            if x not in (".git", "Cargo.toml", "Cargo.lock", "target"):
                os.symlink(os.path.join(REPO, x), os.path.join(ws, x))
        with open(os.path.join(REPO, "Cargo.toml")) as f:
            toml = f.read()
        lines = []
        for l in toml.splitlines(True):
            if l.startswith("members = "):
                l = l.replace(', "fuzz"', "")
            lines.append(l)
        new = "".join(lines)
        tp = os.path.join(ws, "Cargo.toml")
        if not os.path.exists(tp) or open(tp).read() != new:
            with open(tp, "w") as f:
                f.write(new)
        lp = os.path.join(ws, "Cargo.lock")
        if not os.path.exists(lp):
            with open(os.path.join(VERIF, "analyzer", "ferlium.Cargo.lock")) as f:
                data = f.read()
            with open(lp, "w") as f:
                f.write(data)
        # 3. Check the library crate with the extractor as the compiler.
        e = dict(env)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot.strip(), "lib")
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        e["CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL"] = "1"
        e["CARGO_PROFILE_DEV_DEBUG"] = "0"
        e["CARGO_INCREMENTAL"] = "0"
        e["RUSTFLAGS"] = "-Zthreads=8 -Awarnings"
        e["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(BUILD, "analyzer", "release", "ferlium-analyzer")
        e["FACTS_CRATE"] = "ferlium"
        e["FACTS_OUT"] = prefix
        for old in os.listdir(BUILD):
            if old.startswith("facts-"):
                os.unlink(os.path.join(BUILD, old))
        # cargo's freshness test would skip the extractor: drop the crate's fingerprints.
        sh(["cargo", "clean", "--offline", "-p", "ferlium"], e, ws)
        rc, out = sh(["cargo", "check", "--offline", "-p", "ferlium", "--lib"], e, ws)
        if rc != 0 or not os.path.exists(prefix + ".index"):
            raise RuntimeError("the crate does not build under the extractor:\n" + out[-6000:])
        with open(prefix + ".ok", "w") as f:
            f.write("ok\n")
        return prefix


class Report:
    """Obligations, violations and coverage of one run."""

    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.by_rule = {}
        self.violations = []   # (key, where, message)
        self.samples = {}
        self.notes = []
        self.floors = []
        self.functions = set()

    def fn(self, body):
        self.functions.add(getattr(body, "name", body))

    def ob(self, rule, key, ok, where="", msg=""):
        """One obligation; `key` names the construct without line numbers."""
        self.obligations += 1
        c = self.by_rule.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 12:
                s.append(f"{key} @ {where}" if where else key)
        else:
            self.violations.append((f"{rule}|{key}", where, msg))
        return ok

    def bad(self, rule, key, where="", msg=""):
        self.ob(rule, key, False, where, msg)

    def floor(self, what, count, minimum):
        self.floors.append((what, count, minimum))
        if count < minimum:
            self.violations.append((f"floor|{what}", "",
                                    f"only {count} instances of {what} found; {minimum} were "
                                    f"confirmed by hand, so the rule no longer sees its subject"))

    def note(self, text):
        self.notes.append(text)


def load_known():
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                prop = l.split("property=", 1)[1].split()[0]
                key = l.split("key=", 1)[1].split(" :: ")[0].strip()
                text = l.split(" :: ", 1)[1] if " :: " in l else key
                known.setdefault(prop, {})[key] = text
            elif l.startswith("fixed: "):
                fixed.append(l)
    return known, fixed


def decide(prop, tier, facts, quiet=False):
    t0 = time.time()
    R = Report(prop)
    mod = importlib.import_module("p_" + prop.lower())
    mod.run(facts, R, tier)
    known, _ = load_known()
    known = known.get(prop, {})
    found_known, fresh = [], []
    for v in R.violations:
        (found_known if v[0] in known else fresh).append(v)
    wall = time.time() - t0
    rep_dir = os.path.join(BUILD, "reports")
    os.makedirs(rep_dir, exist_ok=True)
    rep = os.path.join(rep_dir, prop + ".txt")
    with open(rep, "w") as f:
        for key, where, msg in fresh:
            f.write(f"{prop}: {where}: [{key}] {msg}\n")
    for key, where, msg in found_known:
        print(f"KNOWN-FINDING: property={prop} {key}: {known[key]}")
    for key, where, msg in fresh:
        print(f"{prop}: {where}: [{key}] {msg}")
    print(f"{prop}: {R.obligations} obligations, {len(fresh)} violations, "
          f"{len(found_known)} known findings, {len(R.functions)} functions, {wall:.1f}s")
    for what, c, m in R.floors:
        if not quiet:
            print(f"{prop}: instances of {what}: {c} (floor {m})")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION,
            "crate": {"functions_with_bodies": len(facts.fns), "adts": len(facts.adts),
                      "impls": len(facts.impls)},
            "functions_analysed": len(R.functions),
            "function_names": sorted(R.functions)[:400],
            "obligations": R.obligations,
            "obligations_by_rule": {k: {"checked": a, "held": b} for k, (a, b) in R.by_rule.items()},
            "instance_floors": [{"what": w, "found": c, "floor": m} for w, c, m in R.floors],
            "sample_obligations": R.samples,
            "known_findings": [k for k, _, _ in found_known],
            "notes": R.notes,
            "source_digest": os.path.basename(facts.prefix),
        },
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    return 0


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    prefix = build_facts()
    if args[0] == "--setup":
        print("facts:", prefix)
        return 0
    import facts as factsmod
    F = factsmod.Facts(prefix)
    if args[0] == "--all":
        props = args[1:] or [c["property"] for c in
                             json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
        rc = 0
        for p in props:
            try:
                rc |= decide(p, "quick", F, quiet=True)
            except Exception:
                traceback.print_exc()
                rc |= 4
        return rc
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    return decide(args[0], tier, F)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
