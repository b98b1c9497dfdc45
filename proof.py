"""Proof stage: every function a property depends on, as rustc expands it from
/repo's current source, against its contract in contracts/, by Verus (z3).

run(prop, tier) -> dict(failed=[{name, output}], coverage, assumptions, proved, status) or None.
An obligation that Verus refutes or cannot show is reported as failed; whatever
keeps Verus from deciding (an extraction problem, a construct it does not take, a
resource limit, code no contract is anchored on) is reported as undecided, never as failed.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
C = os.path.join(ROOT, "contracts")
sys.path.insert(0, C)
import ieee
BUILD = os.path.join(ROOT, ".build")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
SPEC = sorted(f for f in os.listdir(os.path.join(C, "spec")) if f.endswith(".rs"))

SCONFIGS = [("stable", "pemdas,opt"), ("stable", "pemdas"), ("stable", "pejmdas,opt"), ("stable", "pejmdas")]
NCONFIGS = [("nightly", f) for _, f in SCONFIGS]
ACONFIGS = SCONFIGS + NCONFIGS

# functions of the unchanged tree without a contract (no verified function calls them)
KNOWN = set(open(os.path.join(C, "uncontracted.lst")).read().split()) if os.path.exists(os.path.join(C, "uncontracted.lst")) else set()
# property -> (modules verified, configurations, what is proved)
PROPS = {}
exec(open(os.path.join(C, "plan.py")).read())


def flags_of(cfg):
    tc, f = cfg
    fl = []
    if "opt" in f.split(","):
        fl.append("OPT")
    if "pemdas" in f.split(","):
        fl.append("PEMDAS")
    if tc == "nightly":
        fl.append("NIGHTLY")
    return fl


def ppif(text, flags):
    out, st = [], []
    for l in text.splitlines(True):
        t = l.strip()
        if t.startswith("#if "):
            st.append(any(all((f.strip()[1:] not in flags) if f.strip().startswith("!") else f.strip() in flags
                              for f in alt.split("&&")) for alt in t[4:].split("||")))
        elif t == "#else":
            st.append(not st.pop())
        elif t == "#endif":
            st.pop()
        elif all(st):
            out.append(l)
    return "".join(out)


def sh(cmd, env=None, cwd=ROOT, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def build_extractor():
    e = dict(os.environ, RUSTUP_TOOLCHAIN=STABLE, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "extract"))
    e.pop("RUSTFLAGS", None)
    rc, _, err = sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(C, "extract", "Cargo.toml")], e)
    return (os.path.join(BUILD, "extract", "release", "extract"), "") if rc == 0 else (None, err[-2000:])


def expand(cfg):
    tc, f = cfg
    name = "%s-%s" % (tc, f.replace(",", "-"))
    e = dict(os.environ, RUSTUP_TOOLCHAIN=STABLE if tc == "stable" else NIGHTLY, CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=os.path.join(BUILD, "expand-" + name))
    e.pop("RUSTFLAGS", None)
    if tc == "stable":
        e["RUSTC_BOOTSTRAP"] = "1"
    feats = ",".join("compile-time-optimizations" if x == "opt" else x for x in f.split(","))
    rc, out, err = sh(["cargo", "rustc", "--offline", "--quiet", "--lib", "--profile", "dev", "--no-default-features", "--features", feats,
                       "--manifest-path", "/repo/Cargo.toml", "--", "-Zunpretty=expanded"], e)
    if rc != 0 or "mod " not in out:
        return None, err[-2000:]
    p = os.path.join(BUILD, "expanded-%s.rs" % name)
    open(p, "w").write(out)
    return p, ""


DEFINITE = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                      r"possible (arithmetic )?(under|over)flow|possible division by zero|decreases not satisfied|"
                      r"unwrap|index out of bounds|termination|unreachable|loop invariant not satisfied")
GIVEUP = re.compile(r"resource limit|rlimit|canceled|timed out|timeout|incomplete")


def verify(cfg, extractor, expanded, modules, rlimit):
    """one configuration -> dict"""
    tc, f = cfg
    fl = flags_of(cfg)
    name = "%s_%s" % (tc, f.replace(",", "_"))
    work = os.path.join(BUILD, "verus-" + name)
    os.makedirs(work, exist_ok=True)
    code = os.path.join(work, "code.rs")
    cts = [os.path.join(C, x) for x in sorted(os.listdir(C)) if x.endswith(".txt")]
    rc, rep, err = sh([extractor, expanded, ",".join(cts), code] + fl)
    r = dict(cfg=cfg, undecided=[], failed=[], verified=0, errors=0, smt_ms=0, fns=[], dropped=[], renamed=[], wall=0.0, text="")
    if rc != 0:
        r["undecided"].append("extraction: " + (err or rep)[-500:])
        return r
    problems, anchors = [], []
    for l in rep.splitlines():
        if l.startswith("PROBLEM "):
            problems.append(l[8:])
        elif l.startswith("UNUSED "):
            anchors.append(l[7:])
        elif l.startswith("DROPPED "):
            r["dropped"].append(l[8:])
        elif l.startswith("RENAMED "):
            r["renamed"].append(l[8:])
        elif l.startswith("FN "):
            r["fns"].append(l[3:])
    body = open(code).read()
    pre = "".join(ppif(open(os.path.join(C, "spec", s)).read(), fl) for s in SPEC)
    r["text"] = pre + body
    full = os.path.join(work, "full.rs")
    text = pre + body + "} fn main(){}\n"
    open(full, "w").write(text)
    lines = text.split("\n")
    # where each function is, for the obligations' names
    where, cur, mod = [], "specification", ""
    steps, inside = set(), False  # lines holding proof steps of ours
    grp = {}
    for n, l in enumerate(lines):
        inside = l == "//@h{" or inside and l != "//@h}"
        if inside:
            steps.add(n + 1)
        m = re.match(r"//@@ (fn|type|-module|-end module|-end) ?(\S*)(?: group=(\S*))?", l)
        if m:
            if m.group(1) == "fn":
                cur = m.group(2)
                grp[cur] = m.group(3)
            elif m.group(1) == "type":
                cur = "type " + m.group(2)
            else:
                cur = "specification"
        where.append(cur)
    r["groups"] = grp
    want = set(m[2:] for m in modules if m.startswith("g_"))
    for p in problems:
        k = p.split(":")[0] if "::" not in p else re.match(r"((?:[^:]|::)+)", p).group(1)
        if grp.get(k.strip()) in want or grp.get(k.strip()) is None:
            r["undecided"].append("extraction: " + p)
    for a in anchors:
        k, g = a.split(" group=")
        if g in want:
            r["undecided"].append("contract without its function: " + k)
    cmd = ["verus", full, "--triggers-mode", "silent", "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "5", "--num-threads", "4"]
    for m in modules:
        if m == "":
            cmd += ["--verify-root"]
        else:
            cmd += ["--verify-only-module", m]
    t0 = time.time()
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_BOOTSTRAP"):
        e.pop(k, None)
    try:
        rc, out, err = sh(cmd, e, cwd=work, timeout=480)
    except subprocess.TimeoutExpired:
        r["undecided"].append("Verus did not finish")
        return r
    r["wall"] = round(time.time() - t0, 1)
    r["cmd"] = " ".join(cmd)
    try:
        j = json.loads(out)
        v = j["verification-results"]
        r["verified"], r["errors"] = v.get("verified", 0), v.get("errors", 0)
        r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        ok = v.get("success", False)
        vir = v.get("encountered-vir-error", False)
    except Exception:
        ok, vir = False, True
    first = []
    for l in err.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        at = None
        for s in d.get("spans", []):
            if os.path.basename(s["file_name"]) == "full.rs":
                w = where[min(s["line_start"] - 1, len(where) - 1)]
                if at is None or s["is_primary"] and "postcondition" not in d["message"]:
                    at = (w, s["line_start"])
                if w != "specification" and at[0] == "specification":
                    at = (w, s["line_start"])
        # the obligation belongs to the function whose body raises it
        bodies = [where[s["line_start"] - 1] for s in d.get("spans", []) if os.path.basename(s["file_name"]) == "full.rs"
                  and ("precondition" in d["message"]) == bool(s["is_primary"])]
        k = next((b for b in bodies if b != "specification"), at[0] if at else "?")
        item = dict(name="%s [%s %s]: %s" % (k, tc, f, d["message"].split("\n")[0]), fn=k, output=d.get("rendered", "")[:3000])
        item["step"] = ("precondition" in d["message"] or "assert" in d["message"]) and any(
            s["is_primary"] and s["line_start"] in steps for s in d.get("spans", []) if os.path.basename(s["file_name"]) == "full.rs")
        if GIVEUP.search(d["message"]) and k == "specification" and "canary_" in item["output"]:
            r["failed"].append(item)  # not proved, as it must be
        elif GIVEUP.search(d["message"]):
            r["undecided"].append("%s: %s" % (k, d["message"][:160]))
        elif vir or not DEFINITE.search(d["message"]):
            r["undecided"].append("not accepted by Verus, %s: %s" % (k, d["message"][:200]))
        else:
            r["failed"].append(item)
    if not ok and not r["failed"] and not r["undecided"]:
        r["undecided"].append("Verus stopped: " + (err or out)[-300:])
    if vir:
        r["failed"] = []
    # canaries: what must not be provable
    return r


# Kani: cfg flags and features of the two quick configurations; thorough runs all
KANI = [("stable", "pemdas"), ("nightly", "pejmdas,opt")]


def kani(cfg, modules):
    """contracts/kani, the harnesses of these modules -> dict; harnesses named canary_* must fail"""
    tc, f = cfg
    r = dict(cfg=cfg, ok=[], failed=[], undecided=[], canaries=[], checks=0, inputs=[], wall=0.0, solver_s=0.0)
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "kani-%s-%s" % (tc, f.replace(",", "-"))), CARGO_NET_OFFLINE="true")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_BOOTSTRAP", "RUSTFLAGS"):
        e.pop(k, None)
    if tc == "nightly":
        e["RUSTFLAGS"] = "--cfg NIGHTLY"
    feats = ",".join("compile-time-optimizations" if x == "opt" else x for x in f.split(","))
    base = ["cargo", "kani", "--manifest-path", os.path.join(C, "kani", "Cargo.toml"), "--no-default-features", "--features", feats,
            "-Z", "function-contracts", "-Z", "unstable-options", "--harness-timeout", "180s"]
    cmd = base + ["--output-format", "terse", "-j", "4"]
    for m in modules:
        cmd += ["--harness", m + "::"]
    t0 = time.time()
    try:
        rc, out, err = sh(cmd, e, cwd=os.path.join(C, "kani"), timeout=480)
    except subprocess.TimeoutExpired:
        r["undecided"].append("Kani did not finish")
        return r
    r["wall"], r["cmd"] = round(time.time() - t0, 1), " ".join(cmd)
    # one worker's lines follow each other
    cur, text, who = {}, {}, "0"
    for l in out.splitlines():
        m = re.match(r"Thread (\d+):(.*)", l)
        if m:
            who, l = m.group(1), m.group(2).strip()
        m = re.match(r"Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[who] = m.group(1)
            text[m.group(1)] = []
        elif who in cur and not l.startswith(("Manual Harness Summary", "Verification failed for", "Complete -")):
            text[cur[who]].append(l)
    bad = re.findall(r"^Verification failed for - (\S+)", out, re.M)
    if not text or "Complete - " not in out:
        r["undecided"].append("Kani does not take the code: " + (err + out)[-600:])
        return r
    for h, ls in text.items():
        t = "\n".join(x for x in ls if x)
        m = re.search(r"\*\* (\d+) of (\d+) failed", t)
        s = re.search(r"Verification Time: ([\d.]+)s", t)
        r["solver_s"] += float(s.group(1)) if s else 0.0
        if "canary_" in h:
            (r["canaries"] if h in bad and m and int(m.group(1)) > 0 else r["undecided"]).append(h + " is proved, which it must not be")
        elif h not in bad:
            r["ok"].append(h)
            r["checks"] += int(m.group(2)) if m else 0
        elif m and int(m.group(1)) > 0 and "unwinding assertion" not in t and "is not currently supported" not in t:
            what = re.findall(r"Failed Checks: (.*)", t)
            r["failed"].append(dict(name="%s [%s %s]: %s" % (h, tc, f, "; ".join(what)[:300]), fn=h, output=t[:3000], kani=True))
        else:
            r["undecided"].append("%s: Kani did not decide it: %s" % (h, t[-200:]))
    # the solver's counterexample, as bit patterns
    for x in sorted(r["failed"], key=lambda x: "contract" not in x["fn"])[:3]:
        if r["inputs"] or time.time() - t0 > 300:
            break
        try:
            _, o, _ = sh(base + ["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", x["fn"]], e, cwd=os.path.join(C, "kani"), timeout=150)
        except subprocess.TimeoutExpired:
            break
        for v in re.findall(r"vec!\[((?:\d+, ){7}\d+)\]", o):
            r["inputs"].append("%016x" % int.from_bytes(bytes(int(b) for b in v.split(", ")), "little"))
        if r["inputs"]:
            x["output"] += "\ncounterexample (bit patterns of the values): " + ", ".join(r["inputs"])
    return r


def assumptions_of(text):
    """mechanical scan of what Verus was given for everything it takes on trust"""
    ext = re.findall(r"#\[verifier::external_body\][^\n]*?\n?[^\n]*?\b(?:fn|struct) (\w+)", text)
    asm = re.findall(r"assume_specification(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]", text)
    ax = re.findall(r"axiom fn (\w+)", text)
    un = re.findall(r"uninterp spec fn (\w+)", text)
    adm = re.findall(r"\b(?:admit|assume)\s*\(", text)
    u = lambda x: ", ".join(sorted(set(x)))
    return ["external_body (specified, not verified): " + u(ext), "assume_specification (std): " + u(asm),
            "axioms: " + u(ax), "uninterpreted functions: " + u(un), "assume/admit statements: %d" % len(adm)]


_reach = {}


def new_helpers(r, modules):
    """functions of the verified modules without a contract (a helper extracted by an edit, say)"""
    out = []
    want = set(m[2:] for m in modules if m.startswith("g_"))
    for l in r["fns"]:
        p = l.split()
        if "contract=false" in p and p[0] not in KNOWN and not p[0].startswith("__clo_"):
            out.append(p[0])
    return out


def run(prop, tier):
    if prop not in PROPS:
        return None
    plan = PROPS[prop]
    modules = plan["modules"]
    configs = plan["quick"] if tier == "quick" else plan.get("thorough", ACONFIGS)
    pool = ThreadPoolExecutor(max_workers=8)
    kconf = (KANI if tier == "quick" else ACONFIGS) if plan.get("kani") else []
    jk = [pool.submit(kani, c, plan["kani"]) for c in kconf]
    ji = pool.submit(ieee.check, os.path.join(BUILD, "ieee-" + prop))
    jx = pool.submit(build_extractor)
    je = {c: pool.submit(expand, c) for c in configs}
    ex, err = jx.result()
    undecided, results = [], []
    if ex is None:
        undecided.append("the extractor does not build: " + err)
    else:
        jobs = []
        for c in configs:
            p, err = je[c].result()
            if p is None:
                undecided.append("rustc does not expand %s: %s" % (c, err))
            else:
                jobs.append(pool.submit(verify, c, ex, p, modules, plan.get("rlimit", 30)))
        results = [j.result() for j in jobs]
    failed = []
    for r in results:
        cfg = "%s %s" % r["cfg"]
        undecided += ["[%s] %s" % (cfg, u) for u in r["undecided"]]
        canary_bad = []
        seen = set()
        helpers = new_helpers(r, modules)
        renamed = set(x.split()[0] for x in r["renamed"])
        real = set(x["fn"] for x in r["failed"] if not x.get("step"))
        for x in r["failed"]:
            if x["fn"].startswith("specification") and "canary" in x["output"]:
                seen.update(re.findall(r"\bcanary_\w+", x["output"]))
                continue
            used = [h for h in helpers if calls(r["text"], x["fn"], h)]
            if used:
                undecided.append("[%s] %s calls %s, which has no contract" % (cfg, x["fn"], ", ".join(used)))
            elif x["fn"] in renamed:
                undecided.append("[%s] %s: %s, with its locals taken for the contract's by their order" % (cfg, x["fn"], x["name"].split(": ", 1)[1]))
            elif x["fn"] != "specification" and x["fn"] not in real:
                undecided.append("[%s] %s: a step of its proof fails, and nothing it guarantees or requires" % (cfg, x["fn"]))
            else:
                failed.append(x)
        r["canaries"] = sum(x["fn"].startswith("specification") and "canary" in x["output"] for x in r["failed"])
        missing = set(plan.get("canaries", [])) - seen
        if missing and not r["undecided"]:
            undecided.append("[%s] the specification proves what it must not: %s" % (cfg, ", ".join(sorted(missing))))
    kres = [j.result() for j in jk]
    for r in kres:
        undecided += ["[Kani %s %s] %s" % (r["cfg"] + (u,)) for u in r["undecided"]]
        failed += r["failed"]
    axioms, ax_trusted, ax_bad = ji.result()
    undecided += ["an axiom about f64 is not discharged: " + x for x in ax_bad]
    # an undecided configuration decides nothing: its failures may be artefacts
    bad = set(u.split("]")[0] for u in undecided)
    want = set(m[2:] for m in modules if m.startswith("g_"))
    fns = sorted(set(l.split()[0] for r in results for l in r["fns"] if "contract=true" in l and r.get("groups", {}).get(l.split()[0]) in want))
    ncan = sum(r["canaries"] for r in results)
    kok = sum(len(r["ok"]) for r in kres)
    disch = sum(r["verified"] for r in results) + kok + len(axioms)
    obl = disch + sum(r["errors"] for r in results) - ncan + sum(len(r["failed"]) + len(r["undecided"]) for r in kres) + len(ax_bad)
    proved = not undecided and not failed and bool(results) and disch > 0
    status = ("proved: %d of %d proof units (functions, lemmas, harnesses, axioms) discharged in %d configurations, %d functions under contract" % (disch, obl, len(results), len(fns))
              if proved else
              "%d obligations failed" % len(failed) if failed else "undecided: " + "; ".join(undecided)[:600])
    cov = dict(obligations=obl, discharged=disch,
               checker_cmd=results[0].get("cmd", "verus") if results else "verus",
               backend="Verus 0.2026.09.13 with its bundled z3" + ("; Kani 0.68.0 (CBMC 6.11.0) for contracts/kani" if kres else "") + "; cvc5 and z3's theory of floating point for the axioms about f64",
               solver_ms=sum(r["smt_ms"] for r in results) + int(1000 * (sum(r["solver_s"] for r in kres) + sum(axioms.values()))),
               axioms_discharged_by_cvc5_or_z3=sorted(axioms), axioms_trusted=ax_trusted,
               proof_configurations=["%s %s: %d discharged, %d failed, %.1f s" % (r["cfg"][0], r["cfg"][1], r["verified"], r["errors"] - r["canaries"], r["wall"]) for r in results],
               functions_under_contract=fns, vacuity_canaries=ncan,
               proved_statement=plan["says"], not_proved=plan.get("rest", ""),
               undecided=undecided,
               dropped_by_extraction=sorted(set(d for r in results for d in r["dropped"])),
               trusted_base=["Verus, z3, rustc's macro expansion, the extraction in contracts/extract",
                             "the specifications of std and of the two dependencies in contracts/spec/30_shims.rs"])
    assumptions = assumptions_of(results[0]["text"]) if results else []
    assumptions += plan.get("assumes", [])
    if kres:
        cov["kani"] = ["%s %s: %d harnesses, %d checks, %.1f s; %d canaries refuted" % (r["cfg"] + (len(r["ok"]), r["checks"], r["wall"], len(r["canaries"]))) for r in kres]
        cov["kani_harnesses"] = sorted(set(h for r in kres for h in r["ok"]))
        cov["kani_cmd"] = kres[0].get("cmd", "cargo kani")
    return dict(failed=failed, inputs=sorted(set(i for r in kres for i in r["inputs"])), coverage=cov, assumptions=assumptions, proved=proved and plan.get("level", "proof") == "proof", status=status)


def calls(text, fn, helper):
    """whether fn's text mentions helper, directly or through functions without a contract"""
    m = re.search(r"//@@ fn %s group=.*?\n(.*?)(?=\n//@@ )" % re.escape(fn), text, re.S)
    if not m:
        return False
    short = helper.split("::")[-1]
    return re.search(r"\b%s\b" % re.escape(short), m.group(1)) is not None
