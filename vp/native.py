"""Compiles the real code of /repo (a scratch mirror of the workspace) with a harness module appended to one of its
modules, and runs it.  Used to replay failed obligations and as the bounded stand-in, never as the proof."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VP_REPO", "/repo")
TOP = ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml"]
OMIT = ("crates/aquascope/src/interpreter/", "crates/aquascope/tests/interpreter.rs")
# What cannot be compiled without miri (not installed): the same omissions as /opt/vp/sync.py.
EDITS = {
    "crates/aquascope/Cargo.toml": [(r"(?m)^miri *=.*\n", "")],
    "crates/aquascope/src/lib.rs": [(r"(?m)^(#\[allow\(clippy::similar_names\)\]\n)?pub mod interpreter;\n", "")],
    "crates/aquascope/src/test_utils.rs": [
        (r"(?m)^  interpreter::\{self, MTrace\},\n", ""),
        (r"(?ms)^pub fn test_interpreter_in_file\(.*?^\}\n", ""),
        (r"crate::interpreter::override_queries", "borrowck_facts::override_queries"),
    ],
    "crates/aquascope_front/src/plugin.rs": [(r"(?ms)^      Interpreter \{ \.\. \} => \{.*?^      \}\n", "")],
}


def env(scratch):
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="nightly-2024-12-15", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(scratch, "target"),
             VP_VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), INSTA_UPDATE="no", INSTA_FORCE_PASS="0",
             INSTA_WORKSPACE_ROOT=os.path.join(scratch, "ws"))
    for k in ("RUSTFLAGS", "ONLY"):
        e.pop(k, None)
    return e


def mirror(ws):
    rels = [f for f in TOP if os.path.lexists(os.path.join(REPO, f))]
    for root, dirs, files in os.walk(os.path.join(REPO, "crates")):
        dirs[:] = [d for d in dirs if d not in ("target", "node_modules", "bindings")]
        rels += [os.path.relpath(os.path.join(root, f), REPO) for f in files]
    rels = [r for r in rels if not r.startswith(OMIT)]
    keep = set(rels)
    for rel in rels:
        s, d = os.path.join(REPO, rel), os.path.join(ws, rel)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if os.path.islink(s):
            if not os.path.lexists(d):
                os.symlink(os.readlink(s), d)
            continue
        with open(s, "rb") as f:
            data = f.read()
        for pat, rep in EDITS.get(rel, ()):
            data = re.sub(pat.encode(), rep.encode(), data)
        if rel == "Cargo.lock" and os.path.exists(d):
            continue
        write(d, data)
    for root, _, files in os.walk(os.path.join(ws, "crates")):
        if "/bindings" in root:
            continue
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, ws) not in keep:
                os.remove(p)


def write(p, data):
    if os.path.exists(p):
        with open(p, "rb") as f:
            if f.read() == data:
                return
    with open(p, "wb") as f:
        f.write(data)


class Scratch:
    """A scratch directory that is removed at the end (VP_SCRATCH keeps one between runs, for development)."""

    def __init__(self):
        self.keep = os.environ.get("VP_SCRATCH")
        if self.keep:
            os.makedirs(self.keep, exist_ok=True)
            self.dir = self.keep
        else:
            self.dir = tempfile.mkdtemp(prefix="vp-", dir="/tmp")

    def close(self):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)


def parse(out, res):
    for line in out.splitlines():
        m = re.search(r"VP-(STAT|BAD|SAMPLE) (\{.*\})\s*$", line)
        if not m:
            continue
        try:
            d = json.loads(m.group(2))
        except ValueError:
            d = {"raw": m.group(2)}
        {"STAT": lambda: res["stats"].update(d), "BAD": lambda: res["bad"].append(d),
         "SAMPLE": lambda: res["samples"].append(d)}[m.group(1)]()


def run_crate(scratch, pkg, attach, test, tier, seed, timeout=600, extra_env=None):
    """attach: {file below REPO: [(module name, harness file)]}; runs the lib tests whose name contains `test`."""
    res = {"stats": {}, "bad": [], "samples": [], "ok": False, "why": ""}
    ws, tgt = os.path.join(scratch.dir, "ws"), os.path.join(scratch.dir, "target")
    if not os.path.exists(tgt):
        os.makedirs(os.path.join(tgt, "debug"))
        for d in ("build", "deps", ".fingerprint"):
            s = os.path.join("/opt/vp/work/target/debug", d)
            if os.path.exists(s):
                subprocess.run(["cp", "-a", s, os.path.join(tgt, "debug", d)], check=False)
    mirror(ws)
    for rel, mods in attach.items():
        p = os.path.join(ws, rel)
        if not os.path.exists(p):
            res["why"] = f"{rel} is gone"
            return res
        with open(p, "a", encoding="utf-8") as f:
            for name, harness in mods:
                f.write(f"\n#[cfg(test)]\n#[path = \"{harness}\"]\npub(crate) mod {name};\n")
    e = env(scratch.dir)
    e.update(VP_TIER=tier, VP_SEED=str(seed), **(extra_env or {}))
    cmd = ["cargo", "test", "-p", pkg, "--lib", "--offline", "--no-run"]
    try:
        b = subprocess.run(cmd, cwd=ws, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        res["why"] = "building the harness ran out of time"
        return res
    if b.returncode:
        res["why"] = "the harness does not compile against the current source"
        res["log"] = b.stderr[-3000:]
        return res
    cmd = ["cargo", "test", "-p", pkg, "--lib", "--offline", "--", test, "--nocapture", "--test-threads", "4"]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(ws), env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + "\n" + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf-8", "replace")
        rc = None
    parse(out, res)
    if rc is None:
        res["why"] = "the harness ran out of time"
        res["ok"] = False
    elif rc and not res["bad"]:
        res["bad"].append({"key": "crash", "what": "the harness run ended abnormally", "output": out[-1500:]})
    else:
        res["ok"] = bool(res["stats"])
        if not res["ok"]:
            res["why"] = "the harness reported nothing"
    res["cmd"] = " ".join(cmd)
    return res


def run_standalone(scratch, name, source, tier, seed, timeout=300, toolchain="stable", args=(), extra_env=None):
    """Compiles and runs one self-contained file (extracted items plus stubs plus harness)."""
    res = {"stats": {}, "bad": [], "samples": [], "ok": False, "why": ""}
    p = os.path.join(scratch.dir, name + ".rs")
    write(p, source.encode())
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN=toolchain, VP_VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), VP_TIER=tier, VP_SEED=str(seed), **(extra_env or {}))
    exe = os.path.join(scratch.dir, name)
    b = subprocess.run(["rustc", "--edition", "2021", "-O", "-C", "overflow-checks=on", "-A", "warnings", "-o", exe, p, *args],
                       cwd=scratch.dir, env=e, capture_output=True, text=True, timeout=timeout)
    if b.returncode:
        res["why"] = "the harness does not compile against the current source"
        res["log"] = b.stderr[-3000:]
        return res
    try:
        r = subprocess.run([exe], cwd=scratch.dir, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + "\n" + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "replace"), None
    parse(out, res)
    if rc is None:
        res["why"] = "the harness ran out of time"
    elif rc and not res["bad"]:
        res["bad"].append({"key": "crash", "what": "the harness run ended abnormally", "output": out[-1500:]})
    else:
        res["ok"] = bool(res["stats"])
    res["cmd"] = f"rustc -O {name}.rs && ./{name}"
    return res
