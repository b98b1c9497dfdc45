#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: validates planted bugs in a scratch copy and writes seeded/<id>/.

SPEC.py defines BUGS: list of dict(id, property, edits=[(file, old, new)], needs, breaks,
demo (main.rs text), features). Scratch copy: /tmp/plant (removed at the end).
"""
import json, os, subprocess, sys, shutil
SCR = "/tmp/plant"
CONFIGS = [(t, f) for t in ("stable-x86_64-unknown-linux-gnu", "nightly-2026-08-21-x86_64-unknown-linux-gnu")
           for f in ("pemdas compile-time-optimizations", "pemdas", "pejmdas compile-time-optimizations", "pejmdas")]
DEMO = """#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
xprs = { path = "$repo", default-features = false, features = [%s] }
miette = { version = "7.2.0", features = ["fancy-no-backtrace"] }
T
export RUSTUP_TOOLCHAIN=%s CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" && cargo build --offline --quiet && timeout 60 "$d/target/debug/demo"
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", **kw)


def tests(tree):
    bad = []
    n = 0
    ps = []
    for t, f in CONFIGS:
        e = dict(os.environ, RUSTUP_TOOLCHAIN=t, CARGO_TARGET_DIR=SCR + "/t_" + (t + f).replace(" ", "_"), CARGO_NET_OFFLINE="true")
        ps.append(subprocess.Popen(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked", "--no-default-features", "--features", f],
                                   cwd=tree, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"))
    for p in ps:
        o, err = p.communicate()
        n += sum(1 for l in o.splitlines() if l.startswith("test ") and l.endswith("... ok"))
        bad += [l for l in o.splitlines() if l.startswith("test ") and "FAILED" in l]
        if p.returncode and not bad:
            bad.append("build: " + err[-1500:])
    return n, bad


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    os.makedirs(SCR, exist_ok=True)
    tree = SCR + "/repo"
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        shutil.rmtree(tree, ignore_errors=True)
        sh("git clone -q /repo %s" % tree)
        ok = True
        for f, old, new in b["edits"]:
            p = tree + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches", s.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", tree).stdout
        # changed lines must be lines of the original repository
        for f in sorted(set(f for f, _, _ in b["edits"])):
            base = set(sh("git show ef77110:" + f, tree).stdout.splitlines())
            removed = [l[1:] for l in sh("git diff -- " + f, tree).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            if [l for l in removed if l.strip() and l not in base]:
                print(b["id"], "NOTE changes lines of our own commits:", [l for l in removed if l not in base][:3])
        n, bad = tests(tree)
        if bad or n < 328:
            print(b["id"], "TESTS", n, bad[:4]); continue
        out = SCR + "/out"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.rs", "w").write(b["demo"])
        feats = ", ".join('"%s"' % x for x in b.get("features", "pemdas compile-time-optimizations").split())
        open(out + "/demo.sh", "w").write(DEMO % (feats, b.get("toolchain", CONFIGS[0][0])))
        shutil.copy("/verif/tools/demo.lock", out + "/Cargo.lock")
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % out, tree)
        r0 = sh("bash %s/demo.sh" % out, "/repo")
        if r1.returncode == 0 or r0.returncode != 0:
            print(b["id"], "DEMO patched rc", r1.returncode, "clean rc", r0.returncode, (r0.stderr + r0.stdout)[-800:], (r1.stderr + r1.stdout)[-300:]); continue
        if "error" in r1.stderr and "could not compile" in r1.stderr:
            print(b["id"], "DEMO does not compile", r1.stderr[-800:]); continue
        dst = "/verif/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(b["id"], "kept;", n, "tests pass; demo:", (r1.stderr + r1.stdout).strip().splitlines()[-1:])


main()
