"""Runs Verus on a generated file and sorts its answers."""
import json
import os
import re
import signal
import subprocess

# Diagnostics that are failed proof obligations; anything else is a tool or front-end error.
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic|possible division|decreases not satisfied|possible bit shift|"
    r"unable to prove|possible overflow|recommendation not met|loop invariant|assert_by|assertion failure|"
    r"might fail|could not prove|function call.*not satisfied|trait method.*requires|ensures.*not satisfied|"
    r"termination|failed this|value may be out of range|constructed value may fail|possible index|loop must have a decreases")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|spinoff|could not finish|timed out|timeout")


def grouped(cmd, cwd, env, timeout):
    """Like subprocess.run; on a timeout the solvers it started are ended with it."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def run(path, rlimit=30, extra=(), timeout=400):
    d = os.path.dirname(path)
    log = path + ".vlog"
    cmd = ["verus", os.path.basename(path), "--output-json", "--time", "--error-format=json", "--multiple-errors", "60",
           "--rlimit", str(rlimit), "--log-dir", log, "--log", "air-final", *extra]
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("RUSTUP_TOOLCHAIN", None)
    r = {"cmd": " ".join(cmd), "ok": False, "status": "error", "failed": [], "front": [], "rlimit": [],
         "functions": 0, "verified": 0, "errors": 0, "obligations": 0, "smt_ms": 0, "total_ms": 0}
    try:
        p = grouped(cmd, d, e, timeout)
    except subprocess.TimeoutExpired:
        r["status"] = "timeout"
        return r
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    t = j.get("times-ms", {})
    r["total_ms"] = t.get("total", 0)
    r["smt_ms"] = t.get("smt", {}).get("smt-run", 0)
    fb = []
    for m in t.get("smt", {}).get("smt-run-module-times", []):
        fb += m.get("function-breakdown", [])
    r["functions"] = len(fb)
    r["breakdown"] = [{"function": f["function"], "mode": f.get("mode:", ""), "ok": f.get("success"),
                       "ms": f.get("time-micros", 0) / 1000.0} for f in fb]
    r["obligations"] = count_obligations(log)
    for line in p.stderr.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        msg = m["message"]
        sp = m.get("spans") or []
        prim = [s for s in sp if s.get("is_primary")] or sp
        ent = {"message": msg, "line": prim[0]["line_start"] if prim else 0,
               "lines": sorted({s["line_start"] for s in sp}),
               "text": " | ".join(x["text"].strip() for s in sp for x in s.get("text", [])[:2])[:300],
               "rendered": m.get("rendered", "")[:1500]}
        if RLIMIT.search(msg):
            r["rlimit"].append(ent)
        elif OBLIGATION.search(msg) and not vr.get("encountered-vir-error"):
            r["failed"].append(ent)
        else:
            r["front"].append(ent)
    if p.returncode == 0 and vr.get("success") and not r["errors"]:
        r["status"] = "ok"
        r["ok"] = True
    elif r["front"] or not vr:
        r["status"] = "front"
        if not r["front"]:
            r["front"].append({"message": p.stderr[-1500:], "line": 0, "lines": [], "text": "", "rendered": p.stderr[-1500:]})
    elif r["failed"]:
        r["status"] = "failed"
    else:
        r["status"] = "rlimit"
    subprocess.run(["rm", "-rf", log], check=False)
    return r


def count_obligations(log):
    """Labelled assertions in the queries Verus sent to its solver for this crate."""
    n = 0
    for root, _, files in os.walk(log):
        for f in files:
            if f.endswith(".air"):
                with open(os.path.join(root, f), encoding="utf-8", errors="replace") as h:
                    for line in h:
                        n += line.strip() == "(location"
    return n


def enclosing_fn(path, line):
    """Name of the fn whose text holds this line of the generated file."""
    name = "?"
    with open(path, encoding="utf-8") as f:
        for i, l in enumerate(f, 1):
            m = re.search(r"\bfn\s+([A-Za-z_][A-Za-z0-9_]*)", l)
            if m and "//" not in l[:m.start()]:
                name = m.group(1)
            if i >= line:
                break
    return name
