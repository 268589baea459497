#!/usr/bin/env python3
"""Entry point of every check.

  python3 run.py C01 quick|thorough     decide one property on /repo's working tree
  python3 run.py --replay FILE          run the recorded failing case again
  python3 run.py --setup                build everything once
"""
import json, os, resource, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B
from checks import CHECKS, build_check

VERIF = B.VERIF
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:hard_rss_limit_mb=3500:quarantine_size_mb=8:abort_on_error=0:"
                    "allocator_may_return_null=1:handle_abort=1",
    "LC_ALL": "C",
}


def deep_stack():
    """Terms of 65538 characters need a deep stack where the library recurses over them."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 1 << 29
    resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % prop):
                r.append(line[len("finding: property=%s " % prop):])
    return r


def run_check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    exe, args = build_check(prop)
    tb = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rundir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    report = os.path.join(rundir, "report.json")
    replay = os.path.join(VERIF, "replays", "%s.txt" % prop)
    if os.path.exists(replay):
        os.remove(replay)
    budget = c.get("budget", {}).get(tier, 600 if tier == "quick" else 20000)
    env = dict(os.environ, **ENV)
    env["VERIF_KNOWN"] = os.path.join(VERIF, "known-findings.txt")
    cmd = [exe, "--prop", prop, "--tier", tier, "--out", report, "--replay-out", replay, "--rundir", rundir,
           "--workers", str(min(os.cpu_count() or 8, 16)), "--budget", str(budget), *args]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, preexec_fn=deep_stack)
        if p.returncode not in (0, 1) or not os.path.exists(report):
            print(p.stdout[-4000:])
            print("check %s could not decide: harness ended with %d" % (prop, p.returncode))
            return 2
        r = json.load(open(report))
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    cov = {"rule": c["rule"]}
    if c["level"] == "fault_enumeration":
        cov.update({"evaluations": r["traces"], "distinct_nontrivial": r["nontrivial"], "states": r["states"],
                    "transitions": r["transitions"]})
    else:
        cov.update({"states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["traces"],
                    "nontrivial_observations": r["nontrivial"]})
    cov.update({
        "enumerated_cases": r["evaluations"],
        "exhaustive": not r["capped"] and not r["violation"] and not r.get("n_scenarios_cut_off"),
        "samples": r["samples"][:24],
        "families": r["families"],
        "build_s": round(tb, 2),
    })
    if r.get("states_saturated"):
        cov["states_note"] = "the table of distinct states filled up; states is a lower bound"
    for k, v in r.items():
        if k.startswith("n_"):
            cov[k] = v
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": c["level"],
          "coverage": cov, "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": 1 if r["violation"] else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, l in enumerate(known_findings(prop)):
        if r.get("known_%d" % k):
            print("KNOWN-FINDING: property=%s %s" % (prop, l))
    print("%s %s: %d cases, %d states, %d transitions, %.1f s (build %.1f s)%s" % (
        prop, tier, r["evaluations"], r["states"], r["transitions"], time.time() - t0, tb,
        ", budget reached" if r["capped"] else ""))
    if r["violation"]:
        print("  case: " + r["case"])
        print("  " + r["message"].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def run_replay(path):
    prop = None
    for line in open(path):
        if line.startswith("property "):
            prop = line.split()[1]
    exe, args = build_check(prop)
    rundir = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        return subprocess.run([exe, "--prop", prop, "--replay", os.path.abspath(path), "--rundir", rundir, *args], preexec_fn=deep_stack,
                              env=dict(os.environ, **ENV)).returncode
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def main(argv):
    if argv[1:2] == ["--setup"]:
        for prop in CHECKS:
            try:
                build_check(prop)
            except B.BuildError as e:
                print("setup: %s: %s" % (prop, e))
        return 0
    if argv[1:2] == ["--replay"]:
        return run_replay(argv[2])
    try:
        return run_check(argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except B.BuildError as e:
        print(e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
