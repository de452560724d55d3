#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution
of the real code.  Exit 0: holds within the bounds; 1: violated (with a replayed
counterexample); anything else: the check could not decide."""
import json, os, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vc
from props import PROPS, STUB_NOTES

def known_findings(pid):
    p = os.path.join(vc.VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid:
                    out.append(d)
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    P = PROPS[pid]
    runs = list(P["quick"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    outdir = os.path.join(vc.OUT, pid)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.remove(os.path.join(outdir, f))
    groups = sorted(set(r["group"] for r in runs))
    try:
        with ThreadPoolExecutor(8) as ex:
            fe = ex.submit(vc.build_engine)
            fi = {g: ex.submit(vc.build_ir, g) for g in groups}
            fn = {g: ex.submit(vc.build_native, g) for g in groups}
            engine = fe.result()
            ir = {g: f.result() for g, f in fi.items()}
            nat = {g: f.result() for g, f in fn.items()}
    except vc.ToolError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    build_s = time.time() - t0
    print("built engine, IR %s and native harness in %.0f s" % (", ".join("%s (%d KB)" % (g, ir[g][1]["ir_bytes"] // 1024) for g in groups), build_s))
    def go(r):
        d = vc.symex(engine, ir[r["group"]][0], r["entry"], r["params"], threads=r.get("j", 6), time_s=r.get("t", 400 if tier == "quick" else 3000), extra=r.get("extra", P.get("extra", ())))
        d["group"] = r["group"]
        if d["status"] == "ok" and len(d.get("witnesses", [])) < 4:
            c = vc.symex(engine, ir[r["group"]][0], r["entry"], r["params"], threads=1, time_s=60, extra=["--concrete", "64"])
            d["witnesses"] = d.get("witnesses", []) + c.get("witnesses", [])
        d["want_reach"] = r.get("reach", [1])
        confirm(d)
        print("%-9s %-14s %-18s paths=%s queries=%s solver=%.1fs wall=%.1fs %s" % (d["status"], r["entry"], ",".join(map(str, r["params"])), d.get("paths"), d.get("queries"), d.get("solver_s", 0), d.get("wall_s", 0), "; ".join(d["errors"][:2])[:300]), flush=True)
        return d
    # counterexamples are replayed on the real code before they are reported
    viols, bad = [], []
    def confirm(d):
        for i, v in enumerate(d.get("violations", [])):
            f = os.path.join(outdir, "%s-%s-%d.model" % (d["entry"], "_".join(map(str, d["params"])), i))
            vc.write_model(f, d["entry"], d["params"], v["model"], "property %s\nharness %s/src/%s.rs\nengine: %s\nreplay: %s %s" % (pid, vc.harness_src(), d["group"], v["kind"], nat[d["group"]], f))
            code, out = vc.replay(nat[d["group"]], f)
            if code in (0, 77, 2, -999):
                bad.append("counterexample does not reproduce (%s): %s %s" % (code, f, v["kind"]))
            else:
                viols.append((f, v["kind"], out.strip()[-600:]))
                vc.STOP.set()
    with ThreadPoolExecutor(P.get("par", 3)) as ex:
        res = list(ex.map(go, runs))
    # witnesses: the native code must agree with the encoding
    nwit = 0
    samples = []
    for d in res:
        for i, w in enumerate(d.get("witnesses", [])[:12]):
            f = os.path.join(outdir, "w.model")
            vc.write_model(f, d["entry"], d["params"], w["model"])
            code, out = vc.replay(nat[d["group"]], f)
            o = [l for l in out.splitlines() if l.startswith("obs")]
            if code != 0 or not o or [int(x) for x in o[0].split()[1:]] != w["obs"]:
                if not viols:
                    g = os.path.join(outdir, "witness-%s-%d.model" % (d["entry"], i))
                    os.rename(f, g)
                    bad.append("native run disagrees with the encoding on a witness (%s): %s" % (code, g))
                continue
            nwit += 1
            if i == 0:
                samples.append({"entry": d["entry"], "params": d["params"], "model": w["model"][:40], "observed": w["obs"][:20]})
    for d in res:
        if d["status"] in ("error", "crash", "timeout"):
            bad.append("%s %s: %s %s" % (d["entry"], d["params"], d["status"], "; ".join(d["errors"])[:500]))
        elif d["status"] == "ok":
            for r in d["want_reach"]:
                if not d.get("reach", {}).get(str(r)):
                    bad.append("%s %s: vacuous, point %s never reached" % (d["entry"], d["params"], r))
    S = lambda k: sum(d.get(k, 0) or 0 for d in res)
    fns = sorted(set(f for d in res for f in d.get("functions", []) if "topogeo" in f))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("instrs"), "traces_validated_against_impl": nwit, "samples": samples[:6],
            "explanation": "states: symbolic paths run to completion; transitions: IR instructions executed symbolically; traces validated: path models re-run on the natively compiled crate with equal observations",
            "bounds": P["bounds"], "outside": P.get("outside", ""),
            "functions_encoded": fns,
            "runs": [{k: d.get(k) for k in ("entry", "params", "status", "paths", "killed", "forks", "queries", "sat", "unsat", "solver_s", "max_query_s", "asserts", "checks", "reach", "wall_s")} for d in res],
            "queries": S("queries"), "unsat": S("unsat"), "sat": S("sat"), "assertions_checked": S("asserts"), "solver_s": round(S("solver_s"), 2),
            "solvers": "z3-new 5.3.2 (incremental), then z3-new / cvc5 / cvc5 --solve-bv-as-int=sum in parallel",
        },
        "assumptions": P.get("assumptions", []) + STUB_NOTES,
        "wall_s": round(time.time() - t0, 1), "violations": len(viols),
    }
    evdir = os.environ.get("VC_EVIDENCE", os.path.join(vc.VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for k in known_findings(pid):
        if k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viols:
        for f, kind, out in viols:
            print("counterexample: %s\n  engine: %s\n  native: %s" % (f, kind, out.replace("\n", "\n          ")))
        print("VIOLATION property=%s replay=%s" % (pid, viols[0][0]))
        return 1
    if bad:
        for b in bad:
            print("ERROR: " + b)
        return 3
    print("OK property=%s paths=%d assertions=%d queries=%d solver=%.1fs witnesses=%d wall=%.0fs" % (pid, S("paths"), S("asserts"), S("queries"), S("solver_s"), nwit, time.time() - t0))
    return 0

if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 4
    sys.exit(code)
