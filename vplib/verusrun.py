"""Runs verus on a generated file and attributes what it says to functions."""
import json, os, re, subprocess, time

OBLIG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed",
         "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
         "decreases not satisfied", "possible bit shift underflow/overflow", "loop invariant not",
         "unable to prove", "index out of bounds", "could not prove termination", "termination",
         "assert_by_compute", "constructed value may fail", "requires not satisfied", "might not be allowed",
         "cannot show")
LIMIT = ("Resource limit", "rlimit", "timed out", "canceled")

def run(path, rlimit=None, timeout=600, extra=(), threads=8):
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", "30", f"--num-threads={threads}", "--triggers-mode", "silent"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra) + ["--edition=2024", "--", "--error-format=json"]
    t0 = time.time()
    r = {"cmd": " ".join(cmd), "errors": [], "verified": 0, "nerrors": None, "ok": False, "tool": None, "seconds": 0, "smt_ms": 0}
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        r["tool"] = f"verus ran into its {timeout} s limit"
        r["seconds"] = time.time() - t0
        return r
    r["seconds"] = round(time.time() - t0, 2)
    r["rc"] = p.returncode
    for ln in p.stderr.split("\n"):
        ln = ln.strip()
        if not ln.startswith("{"):
            continue
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        spans = [(s["line_start"], s.get("label") or "", s.get("is_primary")) for s in m.get("spans", [])]
        msg = m["message"]
        if msg.startswith("aborting due to"):
            continue
        kind = "obligation" if any(x in msg for x in OBLIG) else "limit" if any(x in msg for x in LIMIT) else "front"
        r["errors"].append({"msg": msg, "spans": spans, "kind": kind, "rendered": m.get("rendered") or msg, "code": (m.get("code") or {}).get("code") if m.get("code") else None})
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
        v = j.get("verification-results", {})
        r["verified"] = v.get("verified", 0)
        r["nerrors"] = v.get("errors")
        r["vir_error"] = v.get("encountered-vir-error")
        r["ok"] = bool(v.get("success")) and p.returncode == 0
        t = j.get("times-ms", {})
        r["smt_ms"] = (t.get("smt") or {}).get("total", 0)
        r["total_ms"] = t.get("total", 0)
        r["version"] = j.get("verus", {}).get("version")
    except (ValueError, AttributeError) as e:
        r["tool"] = f"no verus report: {p.stderr[-400:]}"
    for e in r["errors"]:
        # `postcondition not satisfied` points with the primary span at the clause and labels the exit
        pass
    return r

def owner(g, err):
    """Functions of the generated file the error's spans touch, body first."""
    hit = []
    for ln, lab, prim in err["spans"]:
        for f in g.fns:
            if f.lo <= ln <= f.hi:
                hit.append((f, prim, lab))
    return hit
