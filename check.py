#!/usr/bin/env python3
"""check.py <property>   decide one property on /repo's current working tree.

Exit 0: every clause held.  Exit 1 + VIOLATION line: a clause failed.  Anything else: the check
itself could not run.  See DESIGN.md for what is decided by which backend.
"""
import contextlib
import fcntl
import hashlib
import json
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import registry  # noqa: E402


def base_env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WRAPPER"] = ""
    for k in ("CC", "HOST_CC", "HOST_CFLAGS", "RUSTFLAGS"):
        env.pop(k, None)
    env["CFLAGS"] = "-DVP_EXTERN_HASH=h" + tree_hash(["extern"])[:16]
    return env


def tree_hash(parts):
    h = hashlib.sha256()
    for part in parts:
        p = os.path.join(REPO, part)
        files = []
        if os.path.isfile(p):
            files = [p]
        for d, _, fs in os.walk(p):
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def fail(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


@contextlib.contextmanager
def one_at_a_time():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "build.lock"), "w") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        yield


def build_harness(env):
    env = dict(env)
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "harness")
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    d = os.path.join(VERIF, "harness")
    # Never trust file times: rebuild the crate under verification whenever its contents changed.
    stamp = os.path.join(env["CARGO_TARGET_DIR"], "repo.sha")
    h = tree_hash(["src", "extern", "Cargo.toml", "build.rs"])
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        subprocess.run(["cargo", "clean", "--offline", "-p", "scalable_mpc", "-p", "vh"], cwd=d, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--locked", "--offline"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        fail("the contract harness does not build against /repo:\n" + r.stderr[-4000:])
    with open(stamp, "w") as fh:
        fh.write(h)
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "vh")


def build_programs(env):
    """The programs of src/bin, for the properties that start them."""
    env = dict(env)
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "programs")
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    stamp = os.path.join(env["CARGO_TARGET_DIR"], "repo.sha")
    h = tree_hash(["src", "extern", "Cargo.toml", "build.rs"])
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        subprocess.run(["cargo", "clean", "--offline", "-p", "scalable_mpc"], cwd=REPO, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--locked", "--offline", "--bins"], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        fail("the programs of /repo do not build:\n" + r.stderr[-4000:])
    with open(stamp, "w") as fh:
        fh.write(h)
    return os.path.join(env["CARGO_TARGET_DIR"], "debug")


def run_native(vh, prop, env, tier, seed, only=None, budget=None):
    env = dict(env)
    env["VERIF_TIER"] = tier
    env["VERIF_SEED"] = str(seed)
    os.makedirs(TARGET, exist_ok=True)
    prog = os.path.join(TARGET, "progress.%s.%d" % (prop, os.getpid()))
    env["VH_PROGRESS"] = prog
    if budget:
        env["VH_BUDGET_S"] = str(budget)
    limit = 700 if tier == "thorough" else 240
    cmd = [vh, prop] + ([only] if only else [])
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=limit)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    last = open(prog).read() if os.path.exists(prog) else ""
    if os.path.exists(prog):
        os.remove(prog)
    if rc in (0, 1) and out.strip():
        return json.loads(out.strip().split("\n")[-1])
    if isinstance(rc, int) and (rc < 0 or rc > 127) and last:
        n = -rc if rc < 0 else rc - 128
        try:
            name = signal.Signals(n).name
        except ValueError:
            name = "signal %d" % n
        return {"crash": name, "case": last}
    if isinstance(rc, int) and last and rc not in (2, 101):
        return {"crash": "exit status %d" % rc, "case": last}
    return {"error": "native run ended with %s" % rc, "case": last}


def write_replay(prop, tag, body):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, tag))
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path


def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                out.append(line.strip())
    return out


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in registry.PROPS:
        fail("usage: check.py <property>")
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    env = base_env()
    spec = registry.PROPS[prop]

    # 1. Deductive backends on the current source.
    backends = registry.run_backends(prop, spec, REPO, VERIF, TARGET, env, tier)

    # 2. Executable contracts on the real crate (bounded; finds and replays concrete inputs).
    with one_at_a_time():
        vh = build_harness(env)
        if spec.get("programs"):
            env["VH_PROGRAMS"] = build_programs(env)
    nat = run_native(vh, prop, env, tier, seed)
    violations = []
    if "crash" in nat:
        again = run_native(vh, prop, env, tier, seed, only=nat["case"])
        if "crash" in again or again.get("fails"):
            violations.append(("native", nat["case"], "the process died: " + nat["crash"]))
        else:
            fail("native run crashed (%s) in %s but the case alone does not" % (nat["crash"], nat["case"]))
        nat = {"cases": 0, "evaluations": 0, "classes": [], "samples": [nat["case"]], "fails": [], "undecided": []}
    elif "error" in nat:
        fail("%s (last case %s)" % (nat["error"], nat["case"]))
    for f in nat["fails"]:
        violations.append(("native", f["case"], f["message"]))

    failed_units = [b for b in backends if b["status"] == "failed"]
    proved = [b for b in backends if b["status"] == "proved"]
    lost = [b for b in backends if b["status"] == "unavailable"]
    obligations = sum(b["obligations"] for b in backends)
    discharged = sum(b["discharged"] for b in backends)

    level = spec["level"]
    if level == "proof" and (lost or not proved):
        level = "other"
    cov = {
        "evaluations": nat["evaluations"],
        "distinct_nontrivial": len(nat["classes"]),
        "rule": "bounded stand-in: executable contract clauses evaluated on the real crate (%d cases); classes counted "
                "are those with at least one evaluated clause: %s" % (nat["cases"], ", ".join(nat["classes"][:40])),
        "samples": nat["samples"] or ["(none)"],
        "explanation": spec["note"],
        "bounded_undecided": nat.get("undecided", []),
    }
    if backends:
        cov["obligations"] = obligations
        cov["discharged"] = discharged
        cov["checker_cmd"] = "; ".join(b["cmd"] for b in backends)
        cov["trusted_base"] = sorted({t for b in backends for t in b["trusted"]})
        cov["functions_under_contract"] = sorted({f for b in backends for f in b["functions"]})
        cov["backends"] = [{k: b[k] for k in ("backend", "unit", "status", "obligations", "discharged", "solver_s", "label", "detail")}
                           for b in backends]
        if lost:
            cov["fallback"] = "deductive part not available on this tree, decided by the bounded stand-in: " + \
                "; ".join("%s: %s" % (b["unit"], b["detail"][:300]) for b in lost)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []) + sorted({a for b in backends for a in b["assumptions"]}),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations) + len(failed_units)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k[len("known: "):])
    if violations:
        kind, case, msg = violations[0]
        tag = hashlib.sha256(case.encode()).hexdigest()[:10]
        path = write_replay(prop, tag, {
            "property": prop, "found_by": "executable contract on the real crate", "case": case, "message": msg,
            "replay": "cd %s && python3 check.py %s  # or: VERIF_SEED=%d VERIF_TIER=%s %s %s '%s'" % (VERIF, prop, seed, tier, vh, prop, case),
            "all": [{"case": c, "message": m} for _, c, m in violations],
            "failed_obligations": [{"unit": b["unit"], "failed": b["failed"]} for b in failed_units]})
        print("%s: %s: %s" % (prop, case, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if failed_units:
        b = failed_units[0]
        path = write_replay(prop, "obligation-" + b["unit"].replace("/", "_"), {
            "property": prop, "found_by": b["backend"], "unit": b["unit"], "failed_obligations": b["failed"],
            "verifier_output": b["output"][-20000:], "command": b["cmd"]})
        print("%s: %s could not discharge: %s" % (prop, b["backend"], "; ".join(b["failed"])[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        sys.exit(1)
    print("%s: held (%s; %d/%d obligations, %d bounded clause evaluations, %.1f s)" % (
        prop, level, discharged, obligations, nat["evaluations"], time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
