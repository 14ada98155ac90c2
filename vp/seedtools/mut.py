"""mut.py LIST.py [name...]: applies each edit to a scratch clone (/tmp/r), runs the property's check on it, says what came of it.  (development tool; no check uses it)
LIST.py defines MUTS = [(name, property, file, old, new), ...]; an edit whose name starts with "ok-" keeps the behaviour."""
import os, re, subprocess, sys, importlib.util
R = "/tmp/r"
sp = importlib.util.spec_from_file_location("l", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
for name, prop, f, old, new in m.MUTS:
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    p = os.path.join(R, f); s = open(p).read()
    if s.count(old) != 1: print(f"{name:32} {prop} DOES NOT APPLY ({s.count(old)})", flush=True); continue
    open(p, "w").write(s.replace(old, new))
    e = dict(os.environ, VP_REPO=R, VP_SCRATCH="/tmp/vm")
    r = subprocess.run(["timeout", "900", "python3", "/verif/vp/check.py", prop], env=e, capture_output=True, text=True)
    o = r.stdout + r.stderr
    open(f"/tmp/m/{name}.log", "w").write(o)
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    n = re.search(r"\[native\] ran:.*?\"failing\": (\d+)", o)
    nat = f"native failing {n.group(1)}" if n else ("native: " + next((l[:110] for l in o.splitlines() if l.startswith("[native]")), "-"))
    fail = [l.strip()[:90] for l in o.splitlines() if "failed:" in l or "structure changed" in l][:1]
    print(f"{name:32} {prop} rc={r.returncode} {'CAUGHT' if v else 'quiet'}{' (no input)' if v and 'no-failing' in v[0] else ''}; {nat}; {fail}", flush=True)
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
