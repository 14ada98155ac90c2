#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current working tree.

exit 0: held; exit 1 with a VIOLATION line: broken; anything else: the check could not answer."""
import importlib.util
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import native  # noqa: E402
import rsx  # noqa: E402
import unit  # noqa: E402
import verus  # noqa: E402


def load(prop):
    p = os.path.join(VERIF, "checks", prop, "check.py")
    sp = importlib.util.spec_from_file_location("chk_" + prop, p)
    m = importlib.util.module_from_spec(sp)
    sys.modules["chk_" + prop] = m
    sp.loader.exec_module(m)
    return m


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.crate = rsx.Crate(native.REPO)
        self.dir = os.path.join(VERIF, "checks", prop)

    def unit(self, name):
        return unit.Unit(name, self.crate)

    def path(self, f):
        return os.path.join(self.dir, f)

    def native_crate(self, pkg, attach, test, **kw):
        at = {rel: [(n, self.path(h)) for n, h in mods] for rel, mods in attach.items()}
        return native.run_crate(self.scratch, pkg, at, test, self.tier, self.seed, **kw)

    def native_standalone(self, name, source, **kw):
        return native.run_standalone(self.scratch, name, source, self.tier, self.seed, **kw)


MARK = "//VPSTART"


def prove(ctx, mod, log):
    """Every Verus unit of the property: extraction, proof, vacuity probes."""
    out = {"units": [], "status": "ok", "structure": [], "failed": [], "reasons": []}
    for name, build in mod.UNITS:
        rec = {"unit": name, "status": "ok"}
        out["units"].append(rec)
        try:
            u = build(ctx)
            text = u.render()
        except rsx.Lost as x:
            rec["status"] = "lost"
            rec["why"] = str(x)
            out["reasons"].append(f"{name}: lost anchor: {x}")
            continue
        except (rsx.LexError, IndexError, KeyError, StopIteration) as x:
            rec["status"] = "lost"
            rec["why"] = repr(x)
            if os.environ.get("VP_TRACE"): import traceback; traceback.print_exc()
            out["reasons"].append(f"{name}: extraction failed: {x!r}")
            continue
        p = os.path.join(ctx.scratch.dir, f"{ctx.prop}_{name}.rs")
        native.write(p, text.encode())
        r = verus.run(p, rlimit=getattr(mod, "RLIMIT", 60))
        rec.update({k: r[k] for k in ("cmd", "status", "verified", "errors", "obligations", "functions", "smt_ms", "total_ms")})
        rec["contracts"] = u.contracts
        rec["extracted"] = u.extracted
        rec["trusted"] = u.trusted
        rec["trusted_scan"] = scan_trusted(text)
        rec["structure"] = u.structure
        rec["breakdown"] = r.get("breakdown", [])
        for f in r["failed"]:
            f["fn"] = verus.enclosing_fn(p, f["line"])
            f["fns"] = sorted({verus.enclosing_fn(p, l) for l in f["lines"]})
        rec["failed"] = r["failed"]
        rec["front"] = r["front"][:6]
        rec["rlimit"] = r["rlimit"][:6]
        log(f"[verus] {name}: {r['status']}, {r['verified']} verified, {r['errors']} failed, "
            f"{r['obligations']} obligations, {r['smt_ms']} ms of solver time")
        for f in r["failed"][:8]:
            log(f"  failed obligation in {f['fn']}: {f['message']}: {f['text'][:160]}")
        for f in r["front"][:4]:
            log(f"  front end: {f['message'][:200]}: {f['text'][:160]}")
        for f in r["rlimit"][:4]:
            log(f"  solver gave up: {f['message'][:200]}")
        for s in u.structure:
            log(f"  structure changed: {s}")
        if r["status"] == "ok":
            if not r["verified"] or not r["obligations"]:
                rec["status"] = "vacuous"
                out["reasons"].append(f"{name}: no obligations were generated")
                continue
            # reachability: with `assert(false)` behind every precondition and loop invariant, each one must fail
            q = os.path.join(ctx.scratch.dir, f"{ctx.prop}_{name}_probe.rs")
            native.write(q, u.render(probe=True).encode())
            pr = verus.run(q, rlimit=getattr(mod, "RLIMIT", 60))
            hit = {f["line"] for f in pr["failed"] if "assertion failed" in f["message"]}
            n = 0
            ls = open(q, encoding="utf-8").read().splitlines()
            want = [i + 1 for i, l in enumerate(ls) if "assert(false);" in l]
            miss = [w for w in want if w not in hit]
            rec["probes"] = {"inserted": len(want), "failed_as_they_must": len(want) - len(miss)}
            log(f"[probe] {name}: {len(want) - len(miss)} of {len(want)} reachability probes fail as they must")
            if miss or not want:
                rec["status"] = "vacuous"
                out["reasons"].append(f"{name}: unreachable probes at lines {miss[:5]} ({pr['status']})")
                for f in pr["front"][:2]:
                    log(f"  probe front end: {f['message'][:200]}")
        elif r["status"] == "failed":
            if u.structure:
                rec["status"] = "reshaped"
                out["reasons"].append(f"{name}: the proof does not carry over: {u.structure[0]}")
            else:
                out["failed"] += [dict(f, unit=name) for f in r["failed"]]
        elif r["status"] == "front":
            out["reasons"].append(f"{name}: outside the verifier's reach: {r['front'][0]['message'][:200]}")
        else:
            out["reasons"].append(f"{name}: solver gave up ({r['status']})")
    if any(r["status"] != "ok" for r in out["units"]):
        out["status"] = "failed" if out["failed"] else "undecided"
    return out


def scan_trusted(text):
    """Mechanical scan for everything Verus takes on trust in the generated file."""
    out = []
    for pat, what in ((r"\bassume\s*\(", "assume"), (r"\badmit\s*\(", "admit"),
                      (r"assume_specification", "assume_specification"), (r"external_body", "external_body"),
                      (r"external_type_specification", "external_type_specification"),
                      (r"external_trait_specification", "external_trait_specification"),
                      (r"\bbroadcast axiom|\baxiom fn", "axiom"), (r"#\[verifier::external\]", "external"),
                      (r"exec_allows_no_decreases_clause", "exec_allows_no_decreases_clause"),
                      (r"uninterp spec fn", "uninterpreted spec fn")):
        n = len(re.findall(pat, re.sub(r"//.*", "", text)))
        if n:
            out.append(f"{what} x{n}")
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VP_TIER") or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = native.Scratch()
    try:
        return decide(prop, tier, seed, scratch, t0)
    finally:
        scratch.close()


def decide(prop, tier, seed, scratch, t0):
    mod = load(prop)
    ctx = Ctx(prop, tier, seed, scratch)

    def log(s):
        print(s, flush=True)
    pr = prove(ctx, mod, log)
    nat = {"stats": {}, "bad": [], "samples": [], "ok": False, "why": "no native run"}
    if os.environ.get("VP_NO_NATIVE"):
        nat["why"] = "switched off"
    elif hasattr(mod, "native_run"):
        try:
            nat = mod.native_run(ctx)
        except Exception as x:  # the replay is not the proof: report it, do not die of it
            nat["why"] = "replay machinery failed: " + "".join(traceback.format_exception_only(type(x), x)).strip()
        log(f"[native] {'ran' if nat['ok'] else 'did not answer: ' + nat['why']}: {json.dumps(nat['stats'])[:600]}")
        if nat.get("log"):
            log(nat["log"][-1500:])
    kf = known(prop)
    bad, seen_known = [], {}
    for b in nat["bad"]:
        hit = [k for k in kf if k[0] == b.get("key")]
        if hit:
            seen_known[hit[0][0]] = hit[0][1]
        else:
            bad.append(b)
    for k, what in seen_known.items():
        log(f"KNOWN-FINDING: property={prop} {what}")
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".json")
    if os.path.exists(rpath):
        os.remove(rpath)
    rc, verdict = 0, "held"
    if bad:
        rc, verdict = 1, "violated"
        json.dump({"property": prop, "failing_inputs": bad[:20], "failed_obligations": pr["failed"][:20],
                   "replay_cmd": nat.get("cmd"), "how": "each failing input was run on the code compiled from /repo"},
                  open(rpath, "w"), indent=1)
        for b in bad[:5]:
            log("  failing input: " + json.dumps(b)[:400])
        for f in pr["failed"][:3]:
            log(f"  failed obligation: {f['fn']}: {f['message']}")
        log(f"VIOLATION property={prop} replay={rpath}")
    elif pr["status"] == "failed":
        rc, verdict = 1, "violated"
        json.dump({"property": prop, "failed_obligations": pr["failed"][:20], "verifier": "verus",
                   "searched": nat["stats"], "note": "the verifier gives no model; the search found no failing input"},
                  open(rpath, "w"), indent=1)
        log(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")
    elif pr["status"] == "ok":
        verdict = "proved"
    elif nat["ok"]:
        verdict = "bounded"
        log(f"[bounded] the proof could not be redone on this tree ({'; '.join(pr['reasons'])[:300]}); "
            "the bounded stand-in ran on the real code and found nothing. This is not a proof.")
    else:
        rc, verdict = 2, "no answer"
        log(f"no answer: {'; '.join(pr['reasons'])}; {nat['why']}")
    evidence(prop, tier, seed, mod, pr, nat, verdict, bad, seen_known, time.time() - t0)
    log(f"{prop}: {verdict} ({time.time() - t0:.1f} s)")
    return rc


def evidence(prop, tier, seed, mod, pr, nat, verdict, bad, seen_known, wall):
    us = pr["units"]
    ob = sum(u.get("obligations", 0) for u in us)
    nfail = sum(len(u.get("failed", [])) + len(u.get("rlimit", [])) for u in us)
    cov = {
        "verdict": verdict,
        "obligations": ob,
        "discharged": max(0, ob - nfail) if all(u["status"] in ("ok", "failed", "reshaped") for u in us) else
        sum(u.get("obligations", 0) for u in us if u["status"] == "ok"),
        "checker_cmd": "; ".join(u.get("cmd", "-") for u in us),
        "trusted_base": sorted(set(getattr(mod, "TRUSTED", [])) | {t for u in us for t in u.get("trusted", [])}
                               | {f"in the generated file {u['unit']}: {t}" for u in us for t in u.get("trusted_scan", [])}),
        "back_end": "Verus 0.2026.09.13.671956e with its bundled Z3",
        "functions_under_contract": sorted({c for u in us for c in u.get("contracts", [])}),
        "functions_checked": sum(u.get("verified", 0) for u in us),
        "solver_ms": sum(u.get("smt_ms", 0) for u in us),
        "reachability_probes": {u["unit"]: u.get("probes") for u in us},
        "extracted": [e for u in us for e in u.get("extracted", [])],
        "per_function_ms": [dict(b, unit=u["unit"]) for u in us for b in u.get("breakdown", []) if b["mode"] == "exec"],
        "undecided": pr["reasons"],
        "failed_obligations": [{k: f[k] for k in ("unit", "fn", "message", "text")} for f in pr["failed"][:20]],
        "native_stand_in": {"ran": nat["ok"], "why_not": nat["why"], "cmd": nat.get("cmd"), "measured": nat["stats"],
                            "samples": nat["samples"][:5], "label": "bounded, never counted as proved",
                            "covers": getattr(mod, "BOUNDED", "")},
        "known_findings": seen_known,
    }
    level = "proof" if verdict in ("proved", "held", "violated") or not us else "other"
    if level == "other":
        cov["explanation"] = "the proof could not be redone on this tree; a bounded stand-in decided: " + "; ".join(pr["reasons"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(bad) or (1 if pr["status"] == "failed" else 0)}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
