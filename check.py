#!/usr/bin/env python3
"""check.py <property>  -- decides one property of /repo with the symbolic executor in engine/ (tier: VERIF_TIER)."""
import fcntl, hashlib, json, os, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from spec import SPEC, UNIVERSAL_ASSUMPTIONS  # noqa: E402

ENGINE = os.path.join(B, "engine/release/symex")
REPLAY = os.path.join(B, "replay/debug/replay")
LL = os.path.join(B, "ir/prog.ll")


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["TZ"] = "UTC"
    e.update(kw)
    return e


def build(what=("engine", "ir", "replay")):
    """(re)builds the engine, the IR of /repo's current tree and the native replay binary; returns error text or None"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cmds = {
        "engine": (["cargo", "+stable", "build", "--release", "--offline", "-q", "--target-dir", os.path.join(B, "engine")], os.path.join(ROOT, "engine"), env()),
        "ir": ([os.path.join(ROOT, "build_ir.sh")], ROOT, env()),
        "replay": (["cargo", "+stable", "build", "--offline", "-q", "--bin", "replay", "--target-dir", os.path.join(B, "replay")], os.path.join(ROOT, "harness"), env(RUSTFLAGS="--cap-lints=allow")),
    }
    errs = []

    def run(k):
        c, d, e = cmds[k]
        p = subprocess.run(c, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            errs.append("%s: exit %d\n%s" % (k, p.returncode, p.stdout[-3000:]))

    ts = [threading.Thread(target=run, args=(k,)) for k in what]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    lock.close()
    return "\n".join(errs) or None


def csv(v):
    return ",".join(str(x) for x in v) or "-"


def native(h, params, inputs, timeout=20, verbose=True):
    try:
        p = subprocess.run([REPLAY, h, csv(params), csv(inputs)] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env(), text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def known(prop):
    """open findings listed in known_findings.txt: 'known: property=P.. harness=h params=.. kind=.. | what fails'"""
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: "):
                head, _, what = l[7:].strip().partition(" | ")
                d = dict(x.split("=", 1) for x in head.split())
                if d.get("property") == prop:
                    out.append((d, what))
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sp = SPEC[prop]
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    err = build()
    if err:
        print("ERROR: build failed\n" + err)
        return 2
    t_build = time.time() - t0
    jobs = [j for j in sp["jobs"] if tier == "thorough" or j.tier == "quick"]
    run = os.path.join(B, "run")
    os.makedirs(run, exist_ok=True)
    jf = os.path.join(run, prop + ".jobs")
    of = os.path.join(run, prop + ".out.json")
    if os.path.exists(of):
        os.remove(of)
    with open(jf, "w") as f:
        for i, j in enumerate(jobs):
            f.write("%s %s %d %s\n" % ("j%d" % i, j.harness, j.secs, " ".join(str(p) for p in j.params)))
    total = sp.get("total", {}).get(tier, 420 if tier == "quick" else 3000)
    cmd = [ENGINE, LL, jf, of, "threads=8", "total=%d" % total, "findings=2", "samples=16", "seed=%d" % seed]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0 or not os.path.exists(of):
        print("ERROR: engine failed (exit %s)\n%s" % (p.returncode, p.stdout[-3000:]))
        return 2
    res = json.load(open(of))
    problems, violations, incomplete, knownhits = [], [], [], []
    kn = known(prop)
    tot = {k: 0 for k in "paths completed assumed_away instructions forks decisions fast_decisions audited asserts symbolic_asserts queries sat unsat unknown query_cache_hits".split()}
    solver_s = 0.0
    executed, per_job, samples, validated = set(), [], [], 0
    nrep = 0
    for j, r in zip(jobs, res["jobs"]):
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        executed.update(r["executed"])
        where = "%s%s" % (j.harness, tuple(j.params))
        viol_here = False
        for f in r["findings"] + r["hangs"]:
            hang = f in r["hangs"]
            rc, out = native(j.harness, j.params, f["inputs"], timeout=20)
            if hang:
                ok = rc == "timeout" or (isinstance(rc, int) and rc < 0)
            else:
                ok = rc == 3 or (isinstance(rc, int) and (rc < 0 or rc in (101, 134))) or rc == "timeout"
            if not ok:
                problems.append("%s: a %s found symbolically (inputs %s) does not reproduce natively (exit %s)\n%s" % (where, f["kind"], f["inputs"], rc, out[-800:]))
                continue
            viol_here = True
            k = next((w for d, w in kn if d.get("harness") == j.harness and d.get("kind", f["kind"]).replace("_", " ") == f["kind"] and d.get("inputs", csv(f["inputs"])) == csv(f["inputs"])), None)
            if k is not None:
                knownhits.append(k)
                continue
            nrep += 1
            rp = os.path.join(ROOT, "evidence", "replay", "%s-%d.txt" % (prop, nrep))
            with open(rp, "w") as fo:
                fo.write("property: %s\n%s\n\nharness: %s params: %s\nfailure: %s\ninputs: %s\nreplay (after a check has built it): %s %s %s %s -v\n\nnative run: exit %s\n%s\n\nsymbolic stack:\n%s\n" % (
                    prop, sp["title"], j.harness, csv(j.params), f["kind"], csv(f["inputs"]), REPLAY, j.harness, csv(j.params), csv(f["inputs"]), rc, out[-6000:], "\n".join(f["stack"])))
            violations.append((rp, where, f["kind"]))
        for e in r["errors"]:
            problems.append("%s: %s" % (where, e))
        complete = not r.get("cut_short", False)
        if not complete and not viol_here:
            incomplete.append(where)
        if complete and not viol_here and not r["errors"]:
            if j.covers & ~r["covers"]:
                problems.append("%s: vacuous: expected witnesses not reached (covers %x, want %x)" % (where, r["covers"], j.covers))
            if r["inexact_paths"] == 0 and abs(r["mass"] - 1.0) > 1e-6:
                problems.append("%s: explored paths cover a fraction %.9f of the input space, expected all of it" % (where, r["mass"]))
        # native validation of sampled paths
        if r["samples"]:
            sf = os.path.join(run, "%s.%s.samples" % (prop, r["name"]))
            with open(sf, "w") as fo:
                for s in r["samples"]:
                    fo.write("%s %s %s\n" % (j.harness, csv(j.params), csv(s["inputs"])))
            try:
                q = subprocess.run([REPLAY, "@" + sf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120, env=env())
                lines = [l for l in q.stdout.split("\n") if l]
            except subprocess.TimeoutExpired:
                lines = []
            for i, s in enumerate(r["samples"]):
                want = "ok %s %s %d" % (s["digest"], s["covers"], s["asserts"])
                got = lines[i] if i < len(lines) else "(no output)"
                if want != got:
                    problems.append("%s: path with inputs %s: engine says '%s', native run says '%s'" % (where, s["inputs"], want, got))
                    break
                validated += 1
            if len(samples) < 12:
                s = r["samples"][len(r["samples"]) // 2]
                samples.append({"harness": j.harness, "params": j.params, "inputs": s["inputs"], "native_digest": s["digest"]})
        per_job.append({k: r[k] for k in ("harness", "params", "wall_s", "paths", "completed", "assumed_away", "forks", "instructions", "queries", "unsat", "sat", "solver_s", "solver_max_s", "mass", "inexact_paths", "covers", "inputs")})
        per_job[-1]["bound"] = j.note
        per_job[-1]["complete"] = complete
    fns = sorted(executed)
    own = [f for f in fns if "icalendar" in f]
    cov = {
        "states": tot["paths"] + tot["forks"],
        "transitions": tot["instructions"],
        "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": not incomplete and not problems,
        "bounds": sp["bounds"],
        "outside_the_bounds": sp["outside"],
        "paths": tot["paths"],
        "paths_completed": tot["completed"],
        "paths_cut_by_assumption": tot["assumed_away"],
        "symbolic_branch_decisions": tot["decisions"],
        "assertions_on_paths": tot["asserts"],
        "queries_discharged": tot["queries"],
        "queries_sat": tot["sat"],
        "queries_unsat": tot["unsat"],
        "queries_unknown": tot["unknown"],
        "queries_answered_from_cache": tot["query_cache_hits"],
        "solver": "z3 " + res["z3"],
        "solver_s": round(solver_s, 3),
        "functions_in_ir": res["functions"],
        "functions_encoded": len(fns),
        "icalendar_functions_encoded": own[:400],
        "ir_sha256": hashlib.sha256(open(LL, "rb").read()).hexdigest(),
        "build_s": round(t_build, 1),
        "jobs": per_job,
        "incomplete_jobs": incomplete,
        "explanation": "states = symbolic path states (paths plus fork points); transitions = LLVM instructions executed symbolically; every branch on symbolic data is decided by z3 over the path condition (answers for identical queries are cached); traces = explored paths whose concrete witness was re-run natively with identical observable output",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": UNIVERSAL_ASSUMPTIONS + sp.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s (%s): %d jobs, %d paths, %d IR instructions, %d z3 queries (+%d cached), %.1fs solver, %d traces replayed natively, build %.0fs, total %.0fs" % (
        prop, tier, len(jobs), tot["paths"], tot["instructions"], tot["queries"], tot["query_cache_hits"], solver_s, validated, t_build, time.time() - t0))
    for w in incomplete:
        print("note: %s was not explored to the end within its time" % w)
    if violations:
        for rp, where, kind in violations:
            print("%s: %s" % (where, kind))
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        for x in problems:
            print("note: " + x)
        return 1
    if problems:
        for x in problems:
            print("ERROR: " + x)
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        e = build()
        if e:
            print(e)
        sys.exit(1 if e else 0)
    sys.exit(main())
