#!/usr/bin/env python3
"""Decide one property of ishikawa/seiren by symbolic execution of its real code.

usage: check.py Cxx [--thorough] [--only HARNESS[,HARNESS..]]

Builds the engine (symir) and the harness crate against /repo's working tree, executes the harnesses of
the property symbolically, writes evidence/<id>.json, and exits 0 (held on everything explored),
1 (violation, confirmed on the native build) or 2 (the check itself failed)."""
import fcntl, json, os, shutil, subprocess, sys, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT / "tools"))
from plan import PLAN, COMMON_ASSUMPTIONS, LIMITS  # noqa: E402

B = ROOT / ".build"


def say(*a):
    print(*a, flush=True)


def fail(msg):
    say("CHECK-ERROR", msg)
    sys.exit(2)


def build(crate="harness"):
    """Engine and harness crate, side by side; returns (engine, ir, native)."""
    src, tgt, obj = ROOT / crate, B / {"harness": "h", "cli": "c"}[crate], B / f"rt-{crate}.o"
    B.mkdir(exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
    env.pop("RUSTFLAGS", None)
    eng = subprocess.Popen(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", str(B / "e")],
                           cwd=ROOT / "symir", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        subprocess.run(["gcc", "-O1", "-c", "rt.c", "-o", str(obj)], cwd=src, check=True)
    except subprocess.CalledProcessError as e:
        fail(f"rt.c: {e}")
    deps = tgt / "release/deps"
    for f in deps.glob("harness-*.ll") if deps.exists() else []:
        f.unlink()
    # the harness crate is compiled anew every time, so that the IR always comes from this build
    (src / "src/main.rs").touch()
    har = subprocess.run(["cargo", "rustc", "--offline", "--locked", "--quiet", "--release", "--bin", "harness", "--target-dir", str(tgt), "--",
                          "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", f"link-arg={obj}", "--cap-lints=allow"],
                         cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out, _ = eng.communicate()
    if eng.returncode:
        fail("engine does not build:\n" + out[-3000:])
    if har.returncode:
        fail("harness does not build against /repo:\n" + har.stdout[-3000:])
    ll = sorted(deps.glob("harness-*.ll"), key=lambda p: p.stat().st_mtime)
    if not ll:
        fail("no IR written")
    return B / "e/release/symir", ll[-1], tgt / "release/harness"


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not args or args[0] not in PLAN:
        fail("usage: check.py Cxx [--thorough]")
    pid = args[0]
    thorough = "--thorough" in sys.argv or ("--quick" not in sys.argv and os.environ.get("VERIF_TIER") == "thorough")
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    if only:
        args = [a for a in args if a not in only]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    B.mkdir(exist_ok=True)
    lock = open(B / "lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    engine, ir, native = build(plan.get("crate", "harness"))
    build_s = time.time() - t0
    hs = []
    for h in plan["harnesses"]:
        name, q, t = h[0], h[1], h[2] if len(h) > 2 else (h[1] or 60) * 4
        secs = t if thorough else q
        if (only and name in only) or (not only and secs):
            hs.append((name, secs or t))
    replays = ROOT / "evidence/replays" / pid
    shutil.rmtree(replays, ignore_errors=True)
    replays.mkdir(parents=True)
    out = B / f"out-{pid}.json"
    out.unlink(missing_ok=True)
    total = LIMITS["thorough" if thorough else "quick"] - build_s
    cmd = [str(engine), str(ir), ",".join(f"{n}:{s}" for n, s in hs), "--native", str(native), "--replays", str(replays), "--out", str(out),
           "--workers", str(os.cpu_count() or 4), "--total", f"{total:.0f}", "--samples", str(plan.get("samples", 8)), "--max-insn", str(plan.get("max_insn", 400_000_000)),
           "--query-ms", "20000"]
    known = json.loads((ROOT / "known_findings.json").read_text())
    listed = [f for f in known["findings"] if f["property"] == pid]
    if not listed:
        cmd.append("--first")  # one confirmed violation decides
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=B)
    say(p.stdout.rstrip())
    if p.returncode not in (0, 1, 2) or not out.exists():
        fail(f"engine ended with {p.returncode}")
    rep = json.loads(out.read_text())
    res = [r for r in rep["results"] if r["status"] != "skipped"]
    skipped = [r["harness"] for r in rep["results"] if r["status"] == "skipped"]
    bad, hits = [], []
    for r in res:
        for v in r["violations"]:
            k = next((f for f in listed if f["harness"] == r["harness"] and f["message"] == v["msg"] and f.get("inputs") == v["inputs"]), None)
            (hits if k else bad).append((r["harness"], v))
    broken = []
    for r in res:
        for v in r["unconfirmed"]:
            broken.append(f"{r['harness']}: counterexample not reproduced natively: {v['kind']} {v['msg']} ({v['native']})")
        for m in r["mismatches"]:
            broken.append(f"{r['harness']}: engine and native build differ: {m}")
    done = sum(r["paths"] for r in res)
    s = lambda k: sum(r[k] for r in res)
    want = set(plan.get("reach", []))
    reached = set(x for r in res for x in r["reach"])
    fns = sorted(set(f for r in res for f in r["functions"]))
    unexplored = {f"{r['harness']}: {k}": n for r in res for d in (r["errors"], r["limits"]) for k, n in d.items()}
    cov = {
        "states": done + s("pruned") + s("cut"),
        "transitions": s("branches"),
        "traces_validated_against_impl": s("validated"),
        "samples": [f"{r['harness']} inputs {x}" for r in res for x in r["samples"][:2]][:40],
        "exhaustive": all(r["status"] == "exhausted" for r in res) and not skipped,
        "paths_completed": done,
        "symbolic_forks": s("forks"),
        "instructions_executed": s("instructions"),
        "queries_discharged": s("queries"),
        "queries_sat": s("sat"),
        "queries_unsat": s("unsat"),
        "queries_unknown": s("unknown"),
        "query_cache_hits": s("cache_hits"),
        "solver_seconds": round(s("solver_seconds"), 2),
        "byte_table_verdicts": s("table_verdicts"),
        "byte_table_verdicts_confirmed_by_z3": s("table_verdicts_confirmed_by_z3"),
        "assertions_decided": s("assertions"),
        "assertions_over_symbolic_values": s("assertions_symbolic"),
        "concretised_values": s("concretised"),
        "harnesses": [{k: r[k] for k in ("harness", "status", "seconds", "paths", "pruned", "cut", "forks", "instructions", "queries", "unsat", "solver_seconds", "assertions", "assertions_symbolic", "max_path_instructions", "max_inputs")} | {"bounds": plan["bounds"].get(r["harness"], "")} for r in res],
        "skipped_for_time": skipped,
        "outside_exploration": unexplored,
        "functions_encoded": fns,
        "functions_encoded_count": len(fns),
        "ir_functions": rep["ir_functions"],
        "reach_marks": sorted(reached),
        "build_seconds": round(build_s, 1),
        "known_findings_hit": len(hits),
    }
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": plan.get("level", "model_checking"), "coverage": cov,
          "assumptions": plan.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / f"evidence/{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for f in listed:
        say(f"KNOWN-FINDING: property={pid} {f['what']}")
    if bad:
        for h, v in bad[:3]:
            say(f"{h}: {v['kind']}: {v['msg']} [{v['native']}]")
        say(f"VIOLATION property={pid} replay={bad[0][1]['replay']}")
        sys.exit(1)
    if broken:
        fail("; ".join(broken[:3]))
    if not done:
        fail("no path completed: " + "; ".join(f"{k} x{n}" for k, n in list(unexplored.items())[:4]))
    if not only and not want <= reached and not unexplored and not skipped:
        fail(f"vacuous: not reached {sorted(want - reached)}")
    n = sum(r["status"] == "exhausted" for r in res)
    say(f"property {pid} held on everything explored: {n} of {len(res) + len(skipped)} harnesses exhausted, {done} paths, {s('queries')} queries, {time.time() - t0:.0f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
