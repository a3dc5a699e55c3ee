"""Deductive backends: Verus on extracted functions, Kani on contracts of dependencies."""
import os
import re
import shutil
import subprocess
import time

import verusunit

# Kani harness crates in kani/<name>: what they cover, and the dependency (with the version pinned in Cargo.toml) they are about.
KANI = {
    "vint": {"functions": ["vint64::encode", "vint64::encoded_len", "vint64::decoded_len", "vint64::decode", "vint64::VInt64::as_ref"],
             "dependency": ("vint64", "1.0.1")},
}


def run_verus(name, repo, verif, target, env):
    return verusunit.run(name, repo, verif, target, env)


def locked_version(repo, crate):
    try:
        with open(os.path.join(repo, "Cargo.lock")) as fh:
            m = re.search(r'name = "%s"\nversion = "([^"]+)"' % re.escape(crate), fh.read())
        return m.group(1) if m else None
    except OSError:
        return None


def run_kani(name, repo, verif, target, env):
    spec = KANI[name]
    res = {"backend": "kani", "unit": "kani/" + name, "status": "unavailable", "obligations": 0, "discharged": 0, "solver_s": 0.0,
           "label": "bit-precise, every value of the inputs, no loop bound", "detail": "", "functions": list(spec["functions"]), "assumptions": [],
           "failed": [], "output": "", "trusted": ["Kani, CBMC and its SAT solver"], "cmd": "cargo kani (in kani/%s)" % name}
    crate, version = spec["dependency"]
    if locked_version(repo, crate) != version:
        res["detail"] = "the repository does not use %s %s" % (crate, version)
        return res
    d = os.path.join(target, "kani", name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(verif, "kani", name), d)
    t = time.time()
    try:
        r = subprocess.run(["cargo", "kani"], cwd=d, env=env, capture_output=True, text=True, timeout=300)
    except (OSError, subprocess.TimeoutExpired) as e:
        res["detail"] = "Kani did not finish: %s" % e
        return res
    out = r.stdout + r.stderr
    res["output"] = out[-20000:]
    m = re.search(r"\*\* (\d+) of (\d+) failed", out)
    s = re.search(r"Verification Time: ([0-9.]+)s", out)
    res["solver_s"] = round(float(s.group(1)) if s else time.time() - t, 2)
    if not m:
        res["detail"] = "no verdict from Kani: " + out[-300:]
        return res
    res["obligations"] = int(m.group(2))
    res["discharged"] = int(m.group(2)) - int(m.group(1))
    if "VERIFICATION:- SUCCESSFUL" in out and r.returncode == 0:
        res["status"] = "proved"
    elif "unwinding assertion" in out:
        res["detail"] = "loop not bounded"
    else:
        res["status"] = "failed"
        res["failed"] = re.findall(r'Status: FAILURE\s+- Description: "([^"]*)"', out)[:8] or ["Kani harness " + name]
        res["detail"] = "; ".join(res["failed"])
    return res
