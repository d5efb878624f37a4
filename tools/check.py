#!/usr/bin/env python3
"""Runs the simulation of one property against /repo's current tree, writes its evidence and reports.

usage: check.py PROP quick|thorough      (environment: VERIF_SEED, VERIF_JOBS, VERIF_SCALE, VERIF_SECS)
exit 0: the property held on everything explored; 1: VIOLATION line printed; 3: the check could not run.
"""
import json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# builds each property runs in, with the share of the runs
BUILDS = {
    "C05": [("full", 100), ("lean", 50)],
    "C14": [("full", 100), ("lean", 25)],
    "C17": [("full", 100), ("lean", 60)],
    "C04": [("full", 100), ("lean", 20)],
    "C16": [("full", 100), ("lean", 20)],
    "C19": [("full", 100), ("lean", 100), ("par", 100), ("ser", 100)],
}
COMPONENTS = {
    "real": ["parcode (all modules, feature set of the named build)", "parcode-derive output", "rayon and rayon-core work stealing, crossbeam deques",
             "std::fs, std::thread, std::sync, BufWriter, HashMap", "memmap2", "bincode", "lz4_flex", "glibc malloc"],
    "stub": ["thread scheduling, futex, clock, sleep, CPU count, getrandom", "open/read/write/stat/mmap of files under /simfs (in-memory file system)",
             "allocation failure (a byte limit in the global allocator)"],
}

def known_findings():
    """(property, id) -> text, from known_findings.txt; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(V, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
        if m:
            out[(m[1], m[2])] = m[3]
    return out

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
    scale = int(os.environ.get("VERIF_SCALE", "100" if tier == "quick" else "4000"))
    secs = int(os.environ.get("VERIF_SECS", "240" if tier == "quick" else "3600"))
    t0 = time.time()
    builds = BUILDS.get(prop, [("full", 100)])
    if prop == "C19":
        shutil.rmtree(os.path.join(V, "target", "port"), ignore_errors=True)
    r = subprocess.run([os.path.join(V, "tools/build.sh")] + [b for b, _ in builds])
    if r.returncode:
        print("ERROR: building the simulator against /repo failed", file=sys.stderr)
        return 3
    res = []
    for b, share in builds:
        out = os.path.join(V, "target", f"out-{prop}-{b}.json")
        if os.path.exists(out):
            os.remove(out)
        rd = os.path.join(V, "replays")
        os.makedirs(rd, exist_ok=True)
        cmd = [os.path.join(V, "target/bin/psim-" + b), "check", "--prop", prop, "--tier", tier, "--seed", str(seed),
               "--jobs", str(jobs), "--secs", str(secs), "--scale", str(max(1, scale * share // 100)), "--out", out, "--replays", rd]
        r = subprocess.run(cmd)
        if not os.path.exists(out):
            print(f"ERROR: simulator ({b}) ended with status {r.returncode} and no result", file=sys.stderr)
            return 3
        d = json.load(open(out))
        res.append(d)
        if d["violations"]:
            break
    return report(prop, tier, seed, res, t0)

def report(prop, tier, seed, res, t0):
    n, known, samples, viol, errs, per = {}, {}, [], [], [], {}
    distinct = 0
    for d in res:
        for k, x in d["n"].items():
            n[k] = max(n.get(k, 0), x) if k.startswith("max_") else n.get(k, 0) + x
        for k, x in d["known"].items():
            known[k] = known.get(k, 0) + x
        samples += d["samples"][:4]
        viol += d["violations"]
        errs += d["errors"]
        distinct += d["distinct"]
        per[d["build"]] = {"runs": d["n"].get("runs", 0), "wall_s": round(d["wall_s"], 2)}
    runs = n.get("runs", 0)
    simwall = sum(d["wall_s"] for d in res) or 1e-9
    kf = known_findings()
    faults = {k[6:]: x for k, x in n.items() if k.startswith("fault.")}
    faults.update({k[12:]: x for k, x in n.items() if k.startswith("probe.fault.")})
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": distinct,
        "rule": "One evaluation is one simulated run: a workload, schedule and fault sequence derived from one seed, executed by the real library in its own process. "
                "A run is non-trivial if threads were switched more than twice or a fault was injected; two runs are distinct if the hash over all "
                "scheduling, futex, file-system and workload events differs.",
        "samples": samples or ["(none)"],
        "oracle_checks": n.get("oracle_evaluations", 0),
        "runs_per_hour": int(runs / simwall * 3600),
        "simulated_seconds": round(n.get("simulated_ns", 0) / 1e9, 3),
        "scheduling_points": n.get("steps", 0),
        "context_switches": n.get("switches", 0),
        "preemptions": n.get("preemptions", 0),
        "threads_started": n.get("threads", 0),
        "max_threads_in_a_run": n.get("max_threads_in_a_run", 0),
        "io_operations": {k[3:]: x for k, x in n.items() if k.startswith("io.")},
        "faults_injected": faults,
        "probes": {k[6:]: x for k, x in n.items() if k.startswith("probe.") and not k.startswith("probe.fault.")},
        "runs_by_scenario": {k[5:]: x for k, x in n.items() if k.startswith("runs.")},
        "runs_by_build": per,
        "components": COMPONENTS,
        "known_findings_seen": known,
        "stopped_early_workers": n.get("stopped_early", 0),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "Seeded search: a clean batch is evidence over the explored schedules and faults, not a proof.",
            "Interleavings are sequentially consistent at the granularity of atomic operations, lock, futex, thread and file-system calls.",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", f".{prop}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(V, "evidence", f"{prop}.json"))
    bad = False
    for k in sorted(known):
        if (prop, k) in kf:
            print(f"KNOWN-FINDING: property={prop} {k}: {kf[(prop, k)]} (seen in {known[k]} runs)")
    for v in viol:
        bad = True
        print(f"class={v['class']} phase={v['phase']} scenario={v['scenario']} seed={v['seed']} choices={v['choices']} schedule={v['schedule']} exact={v['exact']}")
        print(f"  {v['message']}")
        print(f"  case: {v['case']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    print(f"{prop} {tier}: {runs} runs, {distinct} distinct, {cov['scheduling_points']} steps, faults {faults}, {ev['wall_s']} s")
    if bad:
        return 1
    if errs:
        for e in errs:
            print("ERROR:", e, file=sys.stderr)
        return 3
    return 0

if __name__ == "__main__":
    sys.path.insert(0, os.path.join(V, "tools"))
    sys.exit(main())
