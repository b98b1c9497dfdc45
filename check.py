#!/usr/bin/env python3
"""Decides one property of xprs: check.py <Cxx> [quick|thorough].

1. proof stage   (proof.py): the code's functions, extracted mechanically from
                 /repo as expanded by rustc, against their contracts.
2. bounded stage (oracle/): the compiled library against an independent
                 reference; validates what the proof trusts, and looks for the
                 concrete input when an obligation fails.
"""
import json, os, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import harvest
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"

ALL = [(t, f) for t in ("stable", "nightly") for f in ("pemdas,opt", "pemdas", "pejmdas,opt", "pejmdas")]
SYN = [("stable", "pemdas,opt"), ("stable", "pemdas"), ("stable", "pejmdas,opt"), ("stable", "pejmdas")]
OPT = [("stable", "pemdas,opt"), ("nightly", "pemdas,opt"), ("stable", "pejmdas,opt"), ("nightly", "pejmdas")]
TWO = [("stable", "pemdas,opt"), ("nightly", "pejmdas"), ("stable", "pejmdas")]

# bounded stage: configurations and scale of the quick tier
PROPS = {
    "C01": (SYN, 5), "C02": (SYN, 5), "C03": (TWO, 5), "C04": (SYN, 8),
    "C05": (TWO, 5), "C06": (OPT, 5), "C07": (OPT, 8), "C08": (OPT, 8),
    "C09": (TWO, 5), "C10": (OPT, 5), "C11": (TWO, 5), "C12": (TWO, 4),
    "C13": (SYN, 5), "C14": (SYN, 5), "C15": (OPT, 5), "C16": (TWO, 20),
    "C17": (OPT, 4), "C18": (TWO, 8),
    "C19": (SYN, 40),
}


def env_for(tc):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = STABLE if tc == "stable" else NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build_oracle(cfg):
    tc, feats = cfg
    d = os.path.join(BUILD, "oracle-%s-%s" % (tc, feats.replace(",", "-")))
    e = env_for(tc)
    e["CARGO_TARGET_DIR"] = d
    p = subprocess.run(
        ["cargo", "build", "--release", "--offline", "--quiet", "--features", feats,
         # the library as in a debug build, and optimised: functions' addresses are compared
         "--config", "profile.release.package.xprs.opt-level=%d" % (tc != "stable"),
         "--manifest-path", os.path.join(ROOT, "oracle", "Cargo.toml")],
        env=e, capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    return os.path.join(d, "release", "oracle"), ""


def run_oracle(cfg, binary, prop, seed, scale, timeout):
    """-> dict(evals, nontrivial, samples, fails)"""
    cmd = [binary, prop, str(seed), str(scale)]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(cfg=cfg, evals=0, nontrivial=0, samples=[], fails=[], note="stopped after %d s" % timeout)
    out = p.stdout
    r = dict(cfg=cfg, evals=0, nontrivial=0, samples=[], fails=[], note="")
    done = False
    cur = None
    for line in out.splitlines():
        if line.startswith("SAMPLE "):
            r["samples"].append(line[7:])
        elif line.startswith("FAIL "):
            cur = line[5:]
            r["fails"].append(cur)
        elif line.startswith("DONE "):
            done = True
            kv = dict(x.split("=") for x in line.split()[1:])
            r["evals"], r["nontrivial"] = int(kv["evals"]), int(kv["nontrivial"])
        elif r["fails"] and not done:
            r["fails"][-1] += "\n" + line
    if not done:
        # the process died: find out on which input
        trace = os.path.join(BUILD, "trace-%s-%s-%s" % (prop, cfg[0], cfg[1].replace(",", "-")))
        try:
            q = subprocess.run(cmd + [trace], capture_output=True, text=True, errors="replace", timeout=min(timeout * 4, 300))
            rc = q.returncode
        except subprocess.TimeoutExpired:
            rc = p.returncode
        what = open(trace, errors="replace").read() if os.path.exists(trace) else "?"
        r["fails"].append("%s\n    the process was ended by signal or exit code %s" % (what, rc))
    return r


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    configs, scale = PROPS[prop]
    os.environ["ORACLE_DICT"] = harvest.dictionary(REPO)
    if tier == "thorough":
        configs, scale = ALL, scale * 20

    pool = ThreadPoolExecutor(max_workers=16)
    builds = {c: pool.submit(build_oracle, c) for c in configs}
    try:
        import proof
        proof_job = pool.submit(proof.run, prop, tier)
    except ImportError:
        proof_job = None

    bins = {}
    for c, j in builds.items():
        b, err = j.result()
        if b is None:
            print("the reference harness does not build against /repo (%s %s):\n%s" % (c[0], c[1], err))
            return 2
        bins[c] = b
    limit = 200 if tier == "quick" else 3000

    def bounded(seed, scale, limit):
        jobs = [pool.submit(run_oracle, c, bins[c], prop, seed, scale, limit) for c in configs]
        return [j.result() for j in jobs]

    runs = bounded(seed, scale, limit)
    pr = proof_job.result() if proof_job else None
    if pr and (pr["failed"] or pr["coverage"]["undecided"]) and not any(r["fails"] for r in runs):
        # an obligation fails or is not decided: look harder for a concrete input
        os.environ["VERIF_INPUTS"] = ",".join(pr.get("inputs", []))
        left = 780 - (time.time() - t0)
        if tier != "quick" or left > 20:
            runs += bounded(seed + 1000, scale * 12, int(min(240, left)) if tier == "quick" else 3000)

    known = known_findings(prop)
    fails = []
    seen_known = set()
    for r in runs:
        for f in r["fails"]:
            k = next((k for k in known if f.startswith(k.split(" :: ")[0])), None)
            if k:
                seen_known.add(k)
            else:
                fails.append((r["cfg"], f))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    evals = sum(r["evals"] for r in runs)
    nontriv = sum(r["nontrivial"] for r in runs)
    samples = []
    for r in runs:
        for s in r["samples"][:2]:
            samples.append("%s %s: %s" % (r["cfg"][0], r["cfg"][1], s[:300]))
    violated = bool(fails) or bool(pr and pr["failed"])
    cov = dict(
        evaluations=evals, distinct_nontrivial=nontriv,
        rule="bounded validation of the trusted parts: generated and enumerated cases against the independent reference in oracle/ "
             "(oracle/src/checks.rs, %s); non-trivial as decided there (in scope, more than one token or node); same seed, same cases" % prop.lower(),
        samples=samples[:8] or ["(none)"],
        bounded_configurations=["%s %s" % r["cfg"] for r in runs],
        bounded_notes=[r["note"] for r in runs if r["note"]],
    )
    level = "exploration"
    assumptions = []
    if pr:
        cov.update(pr["coverage"])
        assumptions = pr["assumptions"]
        if pr["proved"]:
            level = "proof"
        cov["proof_status"] = pr["status"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 1), violations=len(fails) + (len(pr["failed"]) if pr else 0))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if pr:
        print("%s: %s" % (prop, pr["status"]))
    print("%s: bounded stage: %d cases, %d non-trivial, %d failures, %.0f s" % (prop, evals, nontriv, len(fails), time.time() - t0))
    if not violated:
        return 0
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    rp = os.path.join(ROOT, "replay", prop + ".txt")
    with open(rp, "w") as f:
        f.write("property %s violated\n" % prop)
        if pr:
            for x in pr["failed"]:
                f.write("\nfailed obligation: %s\n%s\n" % (x["name"], x["output"]))
        for cfg, x in fails:
            f.write("\nfailing case on the real code (toolchain %s, features %s):\n%s\n" % (cfg[0], cfg[1], x))
            f.write("replay: cd /verif/oracle && ORACLE_DICT='%s' RUSTUP_TOOLCHAIN=%s cargo run --release --offline --features %s -- %s %d %d\n"
                    % (os.environ["ORACLE_DICT"], STABLE if cfg[0] == "stable" else NIGHTLY, cfg[1], prop, seed, scale))
    if pr:
        for x in pr["failed"]:
            print("failed obligation: %s" % x["name"])
    for cfg, x in fails[:3]:
        print("failing case (%s %s): %s" % (cfg[0], cfg[1], x))
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fails else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
