#!/usr/bin/env python3
"""vp.py check ID | setup | replay FILE | show ID | manifest"""
import hashlib, json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vplib import rustsrc, extract, verusrun, harness
from vplib.props import PROPS

REPO = harness.REPO
GEN = f"{harness.BUILD}/gen"
OBL_ERR = "obligation"

def expand(path):
    """Template text with //@include lines resolved, written to GEN."""
    s = open(path, encoding="utf-8").read()
    def inc(m):
        return open(f"{HERE}/specs/{m[1]}", encoding="utf-8").read()
    while re.search(r"(?m)^//@include (\S+)$", s): s = re.sub(r"(?m)^//@include (\S+)$", inc, s)
    return s

ASSUME_RX = [r"\bassume\s*\(", r"\badmit\s*\(", r"external_body", r"assume_specification", r"\baxiom\b", r"\buninterp\b", r"external_type_specification", r"external_fn_specification", r"exec_allows_no_decreases_clause", r"verifier::external\b"]

def scan_assumptions(text):
    out = []
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        if ln.strip().startswith("//") or "/*proved elsewhere*/" in ln:
            continue
        for rx in ASSUME_RX:
            if re.search(rx, ln):
                nxt = ln.strip() if len(ln.strip()) > 40 else (ln.strip() + " " + (lines[i + 1].strip() if i + 1 < len(lines) else ""))
                out.append(nxt[:160])
                break
    return out

class Proof:
    """One template: generate, run verus, degrade what the front end rejects, run vacuity probes."""
    def __init__(self, pid, spec, deep):
        self.pid, self.spec, self.deep = pid, spec, deep
        self.undecided = []        # (function, reason)
        self.failed = []           # (function, message, rendered)
        self.obl = self.dis = 0
        self.fns = []
        self.assumptions = []
        self.dropped = []
        self.smt_ms = 0
        self.seconds = 0
        self.cmd = ""
        self.vacuous = []
        self.probes = 0
        self.error = None

    def run(self):
        try:
            self._run()
        except rustsrc.Lost as e:
            self.undecided.append((self.spec, f"lost anchor: {e}"))
        except Exception as e:                                     # noqa: BLE001
            self.error = f"{type(e).__name__}: {e}"

    def _run(self):
        os.makedirs(GEN, exist_ok=True)
        tp = f"{GEN}/{self.spec}.tpl"
        open(tp, "w", encoding="utf-8").write(expand(f"{HERE}/specs/{self.spec}.rs"))
        tpl = extract.Template(tp)
        degrade = {}
        rl = tpl.opts.get("rlimit")
        if self.deep and rl:
            rl = str(int(rl) * 3)
        t0 = time.time()
        for rnd in range(8):
            g = extract.generate(REPO, tpl, degrade)
            path = f"{GEN}/{self.spec}.rs"
            open(path, "w", encoding="utf-8").write(g.text)
            r = verusrun.run(path, rl, timeout=420)
            self.cmd = r["cmd"]
            self.smt_ms += r.get("smt_ms", 0)
            if r["tool"]:
                self.undecided.append((self.spec, r["tool"]))
                self.g, self.fns = g, g.fns
                self.seconds = time.time() - t0
                return
            front = [e for e in r["errors"] if e["kind"] == "front"]
            if not front:
                break
            new = {}
            for e in front:
                for f, prim, lab in verusrun.owner(g, e):
                    if f.name not in degrade and not f.degraded:
                        new[f.name] = e["msg"][:300]
            if not new:
                # nothing to blame: everything in this template is undecided
                self.undecided.append((self.spec, "verus front end: " + front[0]["msg"][:300]))
                self.g, self.fns = g, g.fns
                self.front = front
                self.seconds = time.time() - t0
                return
            degrade.update(new)
        else:
            self.undecided.append((self.spec, "verus front end rejects the extraction"))
        self.g, self.fns = g, g.fns
        self.dropped = g.dropped
        for nm, why in g.lost:
            self.undecided.append((nm, "lost anchor: " + why))
        for nm, why in degrade.items():
            self.undecided.append((nm, "verus front end: " + why))
        self.assumptions = scan_assumptions(g.text)
        nerr = r["nerrors"] or 0
        self.obl = r["verified"] + nerr
        self.dis = r["verified"]
        for e in r["errors"]:
            own = verusrun.owner(g, e)
            names = [f.name for f, p, l in own] or [self.spec + " (lemma)"]
            # the body that fails is where the exit/call/assert is
            body = [f for f, p, l in own if "precondition" not in l and "failed precondition" not in l]
            nm = (body or [x[0] for x in own] or [None])[0]
            name = nm.name if nm else names[0]
            if e["kind"] == "limit":
                self.undecided.append((name, "solver limit: " + e["msg"][:200]))
            elif e["kind"] == "obligation":
                if nm is not None and nm.unknown_calls:
                    self.undecided.append((name, f"calls {sorted(set(nm.unknown_calls))}, which have no contract here; its obligation '{e['msg']}' cannot be decided modularly"))
                else:
                    self.failed.append((name, e["msg"], e["rendered"]))
        # vacuity: every function and loop body must be reachable under its precondition
        gp = extract.generate(REPO, tpl, degrade, probe=True)
        pp = f"{GEN}/{self.spec}.probe.rs"
        open(pp, "w", encoding="utf-8").write(gp.text)
        if not self.failed:
            rp = verusrun.run(pp, rl, timeout=300)
            lines = {ln for e in rp["errors"] for ln, _, _ in e["spans"]}
            for i, ln in enumerate(gp.text.split("\n"), 1):
                if "/*probe*/" in ln:
                    self.probes += 1
                    if i not in lines and rp["tool"] is None and not any(e["kind"] == "front" for e in rp["errors"]):
                        f = [x.name for x in gp.fns if x.lo <= i <= x.hi]
                        fo = f[0] if f else "?"
                        if fo not in tpl.opts.get("unreachable", "").split():
                            self.vacuous.append(fo)
        self.seconds = time.time() - t0

def load_known():
    p = f"{HERE}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}

def check(pid, tier=None):
    t0 = time.time()
    P = PROPS[pid]
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deep = tier == "thorough"
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    proofs = [Proof(pid, s, deep) for s in P["specs"]]
    hb = {}
    def build():
        try:
            hb["exes"], hb["err"] = harness.build([h.partition(":")[0] for h in P["harness"]])
        except Exception as e:                                     # noqa: BLE001
            hb["exes"], hb["err"] = {}, f"{type(e).__name__}: {e}"
    th = threading.Thread(target=build)
    th.start()
    for p in proofs:
        p.run()
    th.join()
    hres = {}
    for h in P["harness"]:
        n, _, only = h.partition(":")
        if n in hb["exes"]:
            hres[n] = harness.run(hb["exes"][n], 3000 if deep else 420, seed=seed, tier=tier, only=only or None, prop=pid)
    # ---- judge
    known = [k for k in load_known()["known"] if k["property"] == pid]
    viol, lines, herr = [], [], []
    rdir = f"{harness.BUILD}/replay"
    os.makedirs(rdir, exist_ok=True)
    seen_known = set()
    ncases = 0
    samples = []
    for h, r in hres.items():
        if r["done"] is None:
            sig = r["rc"] if isinstance(r["rc"], int) else 0
            if sig in (-6, -11, -4, -7, 134, 139):
                r["fails"].append({"group": "crash", "input": f"harness {h}, seed {seed}", "what": f"the process died: {r['stderr'][-300:]}", "key": "crash"})
            else:
                herr.append(f"harness {h}: ended with {r['rc']} and no result")
        else:
            ncases += r["done"].get("cases", 0)
        for f in r["fails"]:
            k = next((k for k in known if k.get("group") == f["group"] and re.search(k["match"], f["input"] + " :: " + f["what"])), None)
            if k:
                if k["id"] not in seen_known:
                    seen_known.add(k["id"])
                    lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
                continue
            viol.append(("input", h, f))
    for h in [h.partition(":")[0] for h in P["harness"]]:
        if h not in hb["exes"]:
            herr.append(f"harness {h} does not build: {hb['err'][:1500]}")
    undecided, failed, perr, vac = [], [], [], []
    for p in proofs:
        undecided += p.undecided
        failed += p.failed
        vac += p.vacuous
        if p.error:
            perr.append(f"{p.spec}: {p.error}")
        if not p.fns and not p.error and not p.undecided:
            perr.append(f"{p.spec}: no function extracted")
        if p.obl == 0 and not p.undecided and not p.error:
            perr.append(f"{p.spec}: no obligation generated")
    for k in known:       # findings visible only to the verifier
        if k.get("obligation"):
            keep = [f for f in failed if not (f[0] == k["function"] and re.search(k["obligation"], f[2]))]
            if len(keep) != len(failed) and k["id"] not in seen_known:
                seen_known.add(k["id"])
                lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
            failed = keep
    rc = 0
    if viol:
        h, f = viol[0][1], viol[0][2]
        rp = f"{rdir}/{pid}.json"
        json.dump({"property": pid, "kind": "failing-input", "harness": h, "group": f["group"], "input": f["input"], "what": f["what"],
                   "all": [v[2] for v in viol], "seed": seed, "tier": tier, "failed_obligations": [(a, b) for a, b, _ in failed],
                   "verifier_output": [c for _, _, c in failed][:10],
                   "replay": f"cd {HERE} && VERIF_SEED={seed} VERIF_TIER={tier} python3 vp.py replay {rp}"}, open(rp, "w"), indent=1)
        for v in viol[:8]:
            lines.append(f"  failing input [{v[2]['group']}] {v[2]['input'][:300]} -> {v[2]['what'][:300]}")
        for a, b, _ in failed[:8]:
            lines.append(f"  failed obligation: {a}: {b}")
        lines.append(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    elif failed:
        rp = f"{rdir}/{pid}.json"
        json.dump({"property": pid, "kind": "failed-obligation", "failed_obligations": [(a, b) for a, b, _ in failed],
                   "verifier_output": [c for _, _, c in failed], "checker_cmd": [p.cmd for p in proofs],
                   "seed": seed, "tier": tier}, open(rp, "w"), indent=1)
        for a, b, _ in failed[:8]:
            lines.append(f"  failed obligation: {a}: {b}")
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        rc = 1
    elif herr or perr or vac:
        for x in herr + perr + [f"vacuous: {v} is unreachable under its contract" for v in vac]:
            lines.append("ERROR " + x)
        rc = 2
    if rc == 0 and undecided:
        for a, b in undecided:
            lines.append(f"UNDECIDED-PROOF {a}: {b}")
        lines.append(f"  the bounded stand-in ({ncases} cases on the real code) found nothing; not counted as proved")
    obl, dis = sum(p.obl for p in proofs), sum(p.dis for p in proofs)
    fns = sorted({f.name + " @ " + f"{f.src}:{f.line}" for p in proofs for f in p.fns if not f.degraded})
    und_names = sorted({a for a, _ in undecided})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"],
          "coverage": {"obligations": obl, "discharged": dis, "checker_cmd": "; ".join(p.cmd for p in proofs),
                       "back_end": "Verus 0.2026.09.13 / Z3", "solver_ms": sum(p.smt_ms for p in proofs),
                       "functions_under_contract": fns, "undecided": [{"function": a, "reason": b} for a, b in undecided],
                       "failed": [{"function": a, "obligation": b} for a, b, _ in failed],
                       "vacuity_probes": sum(p.probes for p in proofs), "vacuous": vac,
                       "extraction_drops": ["comments, attributes, log macros, visibility"] + sorted({d for p in proofs for d in p.dropped}),
                       "trusted_base": sorted({a for p in proofs for a in p.assumptions}) + ["Verus, vstd specifications, Z3, rustc front end", "the extractor vplib/extract.py and the rewrites under extraction_drops"],
                       "bounded_stand_in": {"label": "bounded, not proved", "harness": P["harness"], "evaluations": ncases,
                                            "seconds": sum(r["seconds"] for r in hres.values()), "rule": P.get("bounded", "")}},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {P['title']}: {dis}/{obl} obligations discharged over {len(fns)} functions, {sum(p.smt_ms for p in proofs)} ms solver; "
          f"bounded stand-in {ncases} cases; {time.time() - t0:.1f} s", flush=True)
    for ln in lines:
        print(ln, flush=True)
    return rc

def replay(path):
    j = json.load(open(path))
    if j["kind"] == "failing-input":
        exes, err = harness.build([j["harness"]])
        if not exes:
            print(err); return 2
        r = harness.run(exes[j["harness"]], 3000, only=None if j["group"] == "crash" else j["group"], seed=j["seed"], tier=j["tier"], prop=j["property"])
        hit = [f for f in r["fails"] if f["group"] == j["group"]]
        for f in hit[:5]:
            print("reproduced:", f["input"], "->", f["what"])
        return 1 if hit else 0
    print("\n".join(j["verifier_output"]))
    return 1

def show(spec, probe=False):
    p = Proof("-", spec, False)
    p.run()
    for nm, why in p.undecided:
        print("UNDECIDED", nm, why)
    for e in getattr(p, "front", []):
        print(e["rendered"])
    for a, b, c in p.failed:
        print("FAILED", a, c)
    print("error", p.error, "obl", p.obl, "dis", p.dis, "probes", p.probes, "vacuous", p.vacuous, "smt", p.smt_ms, "s", round(p.seconds, 1), [(f.name, f.unknown_calls) for f in p.fns if f.unknown_calls])
    print("assumptions:", *p.assumptions, sep="\n  ")

def manifest():
    sys.path.insert(0, HERE)
    from vplib.props import write_all
    write_all(HERE)
    from vplib import design
    design.write(HERE)

def main():
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        sys.exit(check(a[1]))
    if a[:1] == ["setup"]:
        exes, err = harness.build(harness.harness_names())
        print("built", sorted(exes), err[:2000])
        # a harness that does not build is the business of the check that needs it
        sys.exit(0)
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["show"]:
        show(a[1]); return
    if a[:1] == ["manifest"]:
        manifest(); return
    if a[:1] == ["harness"]:       # build and run one harness, print
        exes, err = harness.build([a[1]])
        if err: print(err)
        if a[1] in exes:
            r = harness.run(exes[a[1]], 3000, only=a[2] if len(a) > 2 else None)
            for f in r["fails"]: print("FAIL", f)
            print(r["done"], r["rc"], r["stderr"][-500:])
        return
    print(__doc__); sys.exit(2)

if __name__ == "__main__":
    main()
