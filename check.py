#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Rebuilds the LLVM IR of /repo's current tree together with the property's
harnesses, symbolically executes each harness with rvsym (every input a solver
variable), and lets the SAT/bit-vector solver decide every assertion, panic,
overflow and out-of-bounds condition for all input values within the bounds.
A counterexample is replayed natively against the real code before it is
reported.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

from props import PROPS

V = "/verif"
RV = f"{V}/target/engine/release/rvsym"
REPLAY = f"{V}/target/native/debug/replay"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def load():
    return {p["id"]: p for p in PROPS}


def panic_lines(out):
    ls = out.strip().splitlines()
    for i, l in enumerate(ls):
        if "panicked at" in l:
            return [x.strip() for x in ls[i:i + 4] if "RUST_BACKTRACE" not in x][:3]
    return ls[:4]


def build_replay(feature):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg rav1e_verif -A warnings")
    return sh(["cargo", "build", "--offline", "-q", "--bin", "replay", "--no-default-features", "--features", feature,
               "--target-dir", f"{V}/target/native"], cwd=f"{V}/harness", env=env)


def run_one(h, tier, ll, tmp):
    t = h["time"] if tier == "quick" else h.get("thorough_time", h["time"] * 4)
    cmd = [RV, "--ll", ll, "--entry", h["name"], "--time", str(t), "--tmp", tmp] + h.get("opts", [])
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=t + 60)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired:
        out, rc = "", 2
    try:
        d = json.loads(out.strip().splitlines()[-1])
    except Exception:
        d = {"entry": h["name"], "result": "inconclusive", "what": f"engine ended with status {rc}"}
    d["wall_s"] = round(time.time() - t0, 2)
    return d


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = load()[pid]
    t0 = time.time()
    os.makedirs(f"{V}/evidence", exist_ok=True)
    work = f"{V}/work/{pid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ll = f"{work}/code.ll"
    feat = spec["feature"]
    if not os.path.exists(RV):
        r = sh(["bash", f"{V}/build_engine.sh"])
        if r.returncode:
            print(r.stdout[-3000:])
            return 2
    r = sh(["bash", f"{V}/build_ir.sh", ll, feat])
    build_s = time.time() - t0
    if r.returncode:
        print("ERROR: cannot build the harnesses against /repo's tree:")
        print(r.stdout[-4000:])
        return 2
    hs = [h for h in spec["harnesses"] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    # longest first
    hs.sort(key=lambda h: -h.get("cost", h["time"]))
    known = [k for k in json.load(open(f"{V}/known_findings.json"))["findings"]
             if k["property"] == pid and k["status"] == "known"]
    res, viol, found = [], None, []
    jobs = int(os.environ.get("RV_JOBS", "6"))
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(run_one, h, tier, ll, work): h for h in hs}
        for f in cf.as_completed(futs):
            h, d = futs[f], f.result()
            res.append((h, d))
            if d["result"] == "violation" and viol is None:
                k = [k for k in known if k["harness"] == h["name"] and re.search(k["match"], d["what"] + " " + d.get("where", ""))]
                if k:
                    found.append(k[0])
                    continue
                viol = (h, d)
                for g in futs:
                    g.cancel()
                sh(["pkill", "-f", f"{RV} --ll {ll}"])
                break
    violations = 0
    rc = 0
    if viol:
        h, d = viol
        path = f"{work}/{h['name']}.replay"
        with open(path, "w") as f:
            f.write(f"# property {pid} harness {h['name']}: {d['what']} at {d.get('where','')}\n")
            f.write(f"# replay: /verif/replay.sh {feat} {h['name']} {path}\n")
            for b in d["inputs"]:
                f.write(",".join(str(x) for x in b) + "\n")
        b = build_replay(feat)
        if b.returncode:
            print(b.stdout[-3000:])
            return 2
        p = sh([REPLAY, h["name"], path], timeout=120)
        tail = p.stdout[-1500:]
        if p.returncode in (0, 3, 4, 5):
            print(f"ERROR: the solver's counterexample for {h['name']} ({d['what']}) does not reproduce natively (exit {p.returncode})")
            print(tail)
            rc = 2
        else:
            with open(path, "a") as f:
                for l in tail.splitlines():
                    f.write(f"# native: {l}\n")
            print(f"harness {h['name']}: {d['what']} {d.get('where','')}")
            print("native replay against the real code:", " | ".join(panic_lines(p.stdout)))
            print(f"VIOLATION property={pid} replay={path}")
            violations, rc = 1, 1
    for k in found:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    dec = [x for x in res if x[1]["result"] == "holds" or (x[1]["result"] == "violation")]
    und = [x for x in res if x[1]["result"] == "inconclusive"]
    for h, d in und:
        print(f"UNDECIDED {h['name']}: {d['what']}")
    if rc == 0 and not dec:
        print("ERROR: nothing was decided")
        rc = 2
    S = lambda k: sum(x[1].get(k) or 0 for x in res)
    fns = {}
    for _, d in res:
        for n, c in d.get("functions", []):
            fns[n] = fns.get(n, 0) + c
    own = sorted(n for n in fns if "rav1e" in n)
    ob = S("obligations")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the LLVM IR compiled from /repo's current tree; every panic, overflow, "
                           "bounds and assertion condition reached is a solver obligation over all input values within the bounds.",
            "harnesses": [{"name": h["name"], "bounds": h.get("bounds", ""), "result": d["result"], "what": d.get("what", ""),
                           "paths": d.get("paths"), "paths_completed": d.get("completed"), "forks": d.get("forks"), "merges": d.get("merges"),
                           "instructions": d.get("steps"), "obligations": d.get("obligations"),
                           "solver_queries_path": d.get("path_queries"), "solver_queries_external": d.get("ext_queries"),
                           "cnf_clauses": d.get("ext_clauses"),
                           "solver_s": round((d.get("path_solver_s") or 0) + (d.get("ext_solver_s") or 0), 3), "wall_s": d["wall_s"]} for h, d in res],
            "harnesses_decided": len(dec), "harnesses_undecided": [h["name"] for h, _ in und],
            "obligations": ob, "discharged": ob if violations == 0 and not und else None,
            "paths": S("paths"), "instructions_executed": S("steps"), "queries": S("path_queries") + S("ext_queries"),
            "solver_s": round(S("path_solver_s") + S("ext_solver_s"), 3),
            "functions_encoded": own[:400], "functions_encoded_count": len(own), "functions_executed_total": len(fns),
            "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""),
            "samples": [{"harness": h["name"], "observed": d.get("observed", [])[:8], "witness_satisfiable": d.get("witness")} for h, d in res[:3]],
        },
        "assumptions": spec.get("assumptions", []) + [
            "rvsym interprets LLVM IR faithfully (it is differentially tested by native replay of its models)",
            "x86-64, pure-Rust code paths (no asm feature), memory allocation always succeeds"],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    if ev["coverage"]["discharged"] is None:
        del ev["coverage"]["discharged"]
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for f in os.listdir(work):
        if f.endswith(".ll") or f.endswith(".cnf"):
            os.remove(f"{work}/{f}")
    if rc == 0:
        print(f"{pid} {tier}: {len(dec)} harnesses decided, {ob} obligations, {S('paths')} paths, {S('path_queries')+S('ext_queries')} queries, "
              f"solver {S('path_solver_s')+S('ext_solver_s'):.1f}s, build {build_s:.0f}s, total {time.time()-t0:.0f}s")
    return rc


sys.exit(main())
