#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: decide one property on /repo's current tree.

1. builds /verif/harness: the repository's crates linked against the
   instrumented copies of ark-ff/ark-ec/sha2/rand in /verif/shadow;
2. runs the property's scenarios: concolic execution, every branch and
   identity decided by z3 (finite-field theory);
3. replays every failing path on /verif/native (same scenarios, the original
   libraries) before reporting it.
Exit 0: held on everything explored; 1: VIOLATION (confirmed natively);
2: the check itself could not give an answer.
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPLAYS = os.path.join(HERE, "replays")


def build(which):
    r = subprocess.run([os.path.join(HERE, "shadow/build.sh"), which], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stderr[-4000:])
        print(f"CHECK-ERROR: {which} does not build")
        sys.exit(2)
    return os.path.join(HERE, which, "target/release", which)


def replay(native, f, seed):
    """labels failing in the real code under this assignment"""
    os.makedirs(REPLAYS, exist_ok=True)
    a, o = f["path"] + ".assign", f["path"] + ".out"
    with open(a, "w") as h:
        for n, fid, v in f["vals"]:
            h.write(f"{n} {fid} {v}\n")
    bad = []
    if os.path.exists(o):
        os.remove(o)
    try:
        subprocess.run([native, "replay", "--scenario", f["scenario"], "--assign", a, "--salt", str(f["salt"]),
                        "--seed", str(seed), "--out", o], capture_output=True, timeout=240)
        for l in open(o):
            if l.startswith("FAIL "):
                bad.append(l[5:].strip())
    except (subprocess.TimeoutExpired, OSError):
        pass
    for p in (a, o):
        if os.path.exists(p):
            os.remove(p)
    return bad


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        f = json.load(open(sys.argv[2]))
        f["path"] = sys.argv[2]
        bad = replay(build("native"), f, f["seed"])
        print("\n".join("fails: " + b for b in bad) or "does not fail")
        sys.exit(1 if bad else 0)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build("harness")
    tb = time.time() - t0
    out = os.path.join(HERE, "harness", f"out-{prop}-{os.getpid()}.json")
    budget = (560 if tier == "quick" else 760) - tb
    try:
        r = subprocess.run([exe, "run", "--prop", prop, "--tier", tier, "--seed", str(seed), "--jobs", "8",
                            "--budget", str(int(budget)), "--out", out],
                           capture_output=True, text=True, timeout=budget + 100)
    except subprocess.TimeoutExpired:
        print("CHECK-ERROR: exploration did not end in time")
        sys.exit(2)
    if r.returncode != 0 or not os.path.exists(out):
        sys.stdout.write(r.stderr[-3000:])
        print(f"CHECK-ERROR: harness failed ({r.returncode})")
        sys.exit(2)
    reps = json.load(open(out))
    os.remove(out)
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))
             if k["property"] == prop and k["status"] == "open"]
    cand = []
    for rep in reps:
        for f in rep["failures"]:
            f["scenario"] = rep["name"]
            cand.append(f)
    native = build("native") if cand else None
    violations, unconfirmed, seen = [], [], set()
    for i, f in enumerate(cand[:24]):
        os.makedirs(REPLAYS, exist_ok=True)
        f["path"] = os.path.join(REPLAYS, f"{prop}-{i}.json")
        bad = replay(native, f, seed)
        k = next((k for k in known if k["scenario"] == f["scenario"] and re.fullmatch(k["label"], f["label"])), None)
        if not bad:
            unconfirmed.append(f)
        elif k is not None and all(any(re.fullmatch(q["label"], b) for q in known if q["scenario"] == f["scenario"])
                                   for b in bad):
            if k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            f["seed"], f["property"], f["fails"] = seed, prop, bad
            with open(f["path"], "w") as h:
                json.dump(f, h, indent=1)
            violations.append(f)
            print(f"  {f['scenario']}: {f['label']}  when {f['why'] or 'any input'}")
            print(f"VIOLATION property={prop} replay={f['path']}")

    S = lambda *p: sum(_get(x, p) for x in reps)
    empty = [x["name"] for x in reps if x["paths"] - x["discarded"] <= 0 or not x["checks"]]
    notrun = [x["name"] for x in reps if x["paths"] == 0]
    props = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        if l.strip():
            p = json.loads(l)
            props[p["id"]] = p
    anchors = props.get(prop, {}).get("anchors", {})
    checks = {}
    for x in reps:
        for k, (a, b) in x["checks"].items():
            c = checks.setdefault(k, [0, 0])
            c[0] += a
            c[1] += b
    ident = {k: S("ident", k) for k in ("total", "full", "cut", "pinned", "normal", "unknown")}
    flips = {k: S("flips", k) for k in ("total", "infeasible", "negligible", "taken", "unresolved", "skipped")}
    merges = {k: S("merges", k) for k in ("entailed", "path", "unknown")}
    samples = [f"{x['name']}: {s}" for x in reps for s in x["samples"][:2]][:24]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": S("paths") - S("discarded"),
            "transitions": flips["total"],
            "traces_validated_against_impl": S("paths"),
            "rule": "states = distinct execution paths of the real code whose path condition was built symbolically; "
                    "transitions = branch alternatives decided by the solver (keyed by the structure of their "
                    "expressions); every path is itself a run of the compiled repository code",
            "samples": samples or [x["name"] for x in reps][:8],
            "explanation": "Concolic execution of the compiled repository code; see /verif/DESIGN.md. A path is one "
                           "execution whose inputs are symbolic field elements; the solver decides for all values whether "
                           "each other branch can be taken (taken = a model was found and executed).",
            "functions_encoded": [m["where"] for m in anchors.get("mechanism", [])],
            "files": anchors.get("files", []),
            "scenarios": [
                {"name": x["name"], "paths": x["paths"], "discarded": x["discarded"], "depth": x["max_depth"],
                 "symbolic_variables": x["vars"], "expression_nodes": x["nodes"], "hash_calls": x["hashes"],
                 "field_operations": x["ops"], "queries": x["queries"], "solver_s": x["solver_s"],
                 "truncated": x["truncated"], "wall_s": x["wall"]} for x in reps],
            "bounds": "sizes are those in the scenario names; paths: at most the number of branch flips given by 'depth' "
                      "away from the generic path, at most the path/time budget ('truncated')",
            "checks": {k: {"held": a, "failed": b} for k, (a, b) in sorted(checks.items())},
            "paths": S("paths"),
            "identities": ident,
            "branch_decisions": flips,
            "path_equalities": merges,
            "concretised_values": S("leaks"),
            "queries": {"total": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("q_unknown")},
            "solver_seconds": round(S("solver_s"), 2),
            "unresolved_branches": [u for x in reps for u in x["unresolved"]][:20],
            "engine_notes": [f"{x['name']}: {e}" for x in reps for e in x["errors"]][:20],
            "unconfirmed": [f"{f['scenario']}: {f['label']}" for f in unconfirmed],
            "not_run": notrun,
        },
        "assumptions": [
            "group elements are algebraic: an adversary forms them from the SRS (discrete logs tracked exactly)",
            "hash outputs are independent random field elements, equal only for equal inputs; random values are "
            "sampled at 3 and 8 points to tell negligible events from possible ones",
            "the pairing is bilinear and non-degenerate; the curve arithmetic of ark-ec is correct",
            "z3's finite-field theory is sound",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "violation_list": [{"what": f"{f['scenario']}: {f['label']}", "replay": f["path"]} for f in violations],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(f"{prop} {tier}: {len(reps)} scenarios, {S('paths')} paths, {S('queries')} queries "
          f"({S('q_unknown')} unknown), solver {S('solver_s'):.1f}s, wall {time.time()-t0:.0f}s")
    if violations:
        sys.exit(1)
    if not reps or empty:
        print(f"CHECK-ERROR: scenarios without any executed check: {empty}")
        sys.exit(2)
    if unconfirmed:
        for f in unconfirmed:
            print(f"CHECK-ERROR: not confirmed by the real code: {f['scenario']}: {f['label']} when {f['why']}")
        sys.exit(2)
    sys.exit(0)


def _get(x, p):
    for k in p:
        x = x[k]
    return x


main()
