#!/usr/bin/env python3
"""check.py ID: decides one property for /repo's current tree (see DESIGN.md).

1. extracts the functions under contract from /repo and has Verus discharge every obligation
   (plus a vacuity probe: with an unknown proposition as an extra postcondition, every function must fail);
2. runs the real crate on generated cases (replay/): looks for a failing input for a failed
   obligation, covers what the contracts assume, and stands in, bounded, for functions whose
   contracts could not be re-established.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, UNITS

BUILD = os.path.join(HERE, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
RUSTENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
RUSTENV["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + RUSTENV["PATH"]
START = time.time()


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -1, "", "timeout after %s s" % timeout


def cargo_build(crate, features=None):
    env = dict(RUSTENV, CARGO_TARGET_DIR=os.path.join(BUILD, crate + ("-" + features if features else "")))
    cmd = ["cargo", "build", "--offline", "--quiet"]
    if features:
        cmd += ["--features", features]
    return sh(cmd, cwd=os.path.join(HERE, crate), env=env, timeout=600)


def build_extract():
    return cargo_build("extract")


EXTRACT = os.path.join(BUILD, "extract/debug/extract")
def replay_bin(features):
    return os.path.join(BUILD, "replay" + ("-" + features if features else ""), "debug/replay")


class Unit:
    def __init__(self, name):
        self.name = name
        self.failed = []        # (function, obligation)
        self.undecided = []     # (function or unit, reason)
        self.verified = 0
        self.errors = 0
        self.report = []
        self.funcs = {}
        self.times = {}
        self.rlimits = {}
        self.smt_ms = 0
        self.output = ""
        self.cmd = ""
        self.probe_ok = None
        self.vacuous = []
        self.trusted = []

    def fns(self):
        return [x for x in self.report if x.get("fn")]


def verus(path, extra, timeout):
    cmd = ["verus", "--crate-type", "lib", os.path.basename(path), "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "4"] + extra
    rc, out, err = sh(cmd, cwd=os.path.dirname(path), timeout=timeout)
    try:
        res = json.loads(out)
    except ValueError:
        res = None
    diags = []
    for line in err.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("$message_type") == "diagnostic":
            diags.append(d)
    return rc, res, diags, err, " ".join(cmd)


def fn_at(report, line):
    for x in report:
        o = x.get("out_lines")
        if x.get("fn") and o and o[0] <= line <= o[1]:
            return x
    return None


def fn_of(report, d):
    spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
    for s in spans:
        x = fn_at(report, s["line_start"])
        if x:
            return x, s
    return None, (spans[0] if spans else None)


def run_unit(name):
    cfg = UNITS[name]
    u = Unit(name)
    rlimit = cfg.get("rlimit", 60)
    tmpl = os.path.join(HERE, "contracts", name + ".rs")
    outdir = os.path.join(BUILD, "units")
    os.makedirs(outdir, exist_ok=True)
    src, rep = os.path.join(outdir, name + ".rs"), os.path.join(outdir, name + ".json")
    degrade = []
    extra = []
    still, fails = None, []
    for attempt in range(10):
        cmd = [EXTRACT, "--repo", REPO, "--template", tmpl, "--out", src, "--report", rep]
        if degrade:
            cmd += ["--degrade", ",".join(degrade)]
        rc, out, err = sh(cmd, timeout=60)
        if rc != 0:
            u.undecided.append((name, "extraction failed: " + (err or out)[-600:]))
            return u
        u.report = json.load(open(rep))
        rc, res, diags, raw, vcmd = verus(src, ["--rlimit", str(rlimit), "--multiple-errors", "8"] + extra, cfg.get("timeout", 300))
        u.cmd = " ".join(cmd) + " && " + vcmd
        u.output = "\n".join(d.get("rendered") or d.get("message", "") for d in diags if d["level"] == "error")[:20000] or raw[-2000:]
        errors = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting due to")]
        if res is None or res["verification-results"].get("encountered-vir-error") or (res["verification-results"].get("encountered-error") and not res["verification-results"].get("verified") and not any(is_obligation(d) for d in errors)):
            # the verifier's front end does not accept the text: set the functions it names aside
            new = []
            for d in errors:
                x, _ = fn_of(u.report, d)
                if x and x["fn"] not in degrade and x["fn"] not in new:
                    new.append(x["fn"])
            if new:
                degrade += new
                still, fails = None, []
                for f in new:
                    why = [d["message"] for d in errors if (fn_of(u.report, d)[0] or {}).get("fn") == f][0]
                    u.undecided.append((f, "not accepted by the verifier: " + why))
                continue
            u.undecided.append((name, "not accepted by the verifier: " + u.output[:800]))
            return u
        u.verified = res["verification-results"]["verified"]
        u.errors = res["verification-results"]["errors"]
        u.smt_ms = res["times-ms"]["smt"]["total"]
        for m in res["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                u.times[f["function"].split("::", 1)[-1]] = round(f["time"] / 1000.0, 3)
        failed, limits, odd = [], [], []
        for d in errors:
            x, s = fn_of(u.report, d)
            who = x["fn"] if x else None
            if "rlimit" in d["message"] or "Resource limit" in d["message"]:
                limits.append((who or name, d["message"]))
            elif who is None:
                odd.append((name, "proof text: " + d["message"] + " " + (s["text"][0]["text"].strip() if s and s["text"] else "")))
            else:
                prim = [t for t in d["spans"] if t["is_primary"]] or d["spans"]
                txt = marked(prim[0])[:300] if prim else ""
                lab = "; ".join("%s: `%s`" % (t["label"], marked(t)[:300]) if not t["is_primary"] and "failed" in t["label"] else t["label"] for t in d["spans"] if t.get("label"))
                failed.append((who, "%s: `%s`%s" % (d["message"], txt, " (%s)" % lab if lab else "")))
        # a function accepted in one try is proved: what counts is what fails in every try (more room, other seeds),
        # so that an unstable proof is not a violation
        bad = {w for w, _ in failed + limits + odd}
        still = bad if still is None else still & bad
        fails.append((failed, limits, odd))
        if still and len(fails) < 3:
            extra = ["--smt-option", "smt.random_seed=%d" % (7 * len(fails)), "--smt-option", "sat.random_seed=%d" % (3 * len(fails))]
            rlimit *= 2 if len(fails) == 1 else 1
            continue
        # (the count is that of the last try)
        u.verified += len({w for w, _ in fails[-1][0] + fails[-1][1] + fails[-1][2]} - still)
        u.errors = len(still)
        for w in sorted(still):
            # an obligation that fails is told from one that is not decided: failing once within the limits counts
            for f, l, o in reversed(fails):
                hit = [x for x in f if x[0] == w]
                if hit:
                    u.failed += hit
                    break
            else:
                u.undecided += [x for x in fails[-1][1] + fails[-1][2] if x[0] == w]
        break
    for x in u.report:
        if x["status"] in ("missing", "unsupported", "anchor-lost"):
            u.undecided.append((x.get("fn") or x.get("item"), x["status"] + ": " + str(x.get("why", ""))))
    return u


def marked(span):
    """the marked text of a span"""
    return " ".join(t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1].strip() for t in span["text"][:12])


def concerns(cfg, unit, fn, obligation):
    """Does this failed obligation bear on the property? Some functions have postconditions of several properties."""
    fns = cfg.get("functions", {}).get(unit)
    if fns is not None and not any(re.fullmatch(p, fn) for p in fns):
        return False
    if obligation.startswith("postcondition"):
        clause = fn + ": " + (obligation.split(" (failed this postcondition", 1)[0] if " (failed this postcondition" in obligation else obligation)
        keep, skip = cfg.get("keep", {}).get(unit), cfg.get("skip", {}).get(unit)
        if keep is not None and not re.search(keep, clause):
            return False
        if skip is not None and re.search(skip, clause):
            return False
    return True


def is_obligation(d):
    m = d["message"]
    return any(k in m for k in ("not satisfied", "assertion failed", "possible arithmetic", "possible division", "rlimit", "decreases", "termination", "unreachable", "might not", "invariant"))


def probe(u):
    """Every function must fail when something about which nothing is known is added to what it ensures."""
    outdir = os.path.join(BUILD, "units")
    src, rep = os.path.join(outdir, u.name + "_probe.rs"), os.path.join(outdir, u.name + "_probe.json")
    cmd = [EXTRACT, "--repo", REPO, "--template", os.path.join(HERE, "contracts", u.name + ".rs"), "--out", src, "--report", rep, "--probe"]
    rc, out, err = sh(cmd, timeout=60)
    if rc != 0:
        return
    report = json.load(open(rep))
    rc, res, diags, raw, _ = verus(src, ["--rlimit", str(UNITS[u.name].get("probe_rlimit", 30)), "--multiple-errors", "0"], 300)
    if res is None or res["verification-results"].get("encountered-vir-error") or res["verification-results"]["verified"] + res["verification-results"]["errors"] == 0:
        return
    hit = set()
    for d in diags:
        for s in d.get("spans", []):
            x = fn_at(report, s["line_start"])
            if x and d["level"] == "error":
                hit.add(x["fn"])
    fns = [x["fn"] for x in report if x.get("fn") and x["status"] == "ok"]
    u.vacuous = [f for f in fns if f not in hit]
    u.probe_ok = (len(fns), len(fns) - len(u.vacuous))


def elsewhere(x):
    """the unit in which the contract used here as an assumption is proved"""
    m = re.match(r"contract proved in unit (\w+)", str(x.get("why", "")))
    return m.group(1) if m else None


def scan_trusted(u):
    """assume, admit, external_body, uninterp and axioms in the text that was verified"""
    src = open(os.path.join(BUILD, "units", u.name + ".rs")).read().splitlines()
    out = []
    for i, l in enumerate(src):
        x = fn_at(u.report, i + 1)
        if x and elsewhere(x):
            continue
        if "external_body" in l or "assume_specification" in l:
            j = i
            sig = l.split("]")[-1].strip() if "external_body] " in l else ""
            while not re.search(r"\b(fn|struct|trait)\b", sig) and j + 1 < len(src) and j < i + 5:
                j += 1
                sig = src[j].strip()
            m = re.search(r"\b(fn|struct)\s+(\w+)", sig)
            out.append("external_body %s %s" % (m.group(1), m.group(2)) if m else sig[:80])
        elif re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            out.append("assume: " + l.strip()[:100])
        elif re.search(r"\baxiom\b", l) and "fn" in l:
            out.append("axiom: " + l.strip()[:100])
    for x in u.report:
        if x["status"] == "assumed" and not elsewhere(x):
            out.append("assumed contract: " + str(x.get("fn")))
    return sorted(set(out))


def run_replay(pid, secs, seed, out, binary):
    if os.path.exists(out):
        os.unlink(out)
    tmp = tempfile.mkdtemp(prefix="vxcheck-")  # everything the cases write to disk goes below this directory
    errf = os.path.join(BUILD, pid + ".replay.err")
    try:
        with open(errf, "w") as ef:
            rc = subprocess.run([binary, pid, "--seed", str(seed), "--secs", str(secs), "--out", out], timeout=secs + 120,
                                env=dict(os.environ, RUST_BACKTRACE="0", TMPDIR=tmp), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef).returncode
    except subprocess.TimeoutExpired:
        rc = "a timeout"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    e = open(errf, errors="replace").read()[-2000:]
    try:
        return json.load(open(out)), e
    except (OSError, ValueError):
        return None, "replay ended with %s: %s" % (rc, e)


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        # every check builds what it needs; this only finds out early whether that works
        os.makedirs(BUILD, exist_ok=True)
        for rc, out, err in (build_extract(), cargo_build("replay"), cargo_build("replay", "http"), cargo_build("replay", "client-http")):
            if rc != 0:
                print(err[-3000:])
                sys.exit(1)
        return
    cfg = PROPS[pid]
    for u in cfg["units"]:
        for d in UNITS[u].get("uses", []):
            assert d in cfg["units"], "unit %s uses contracts of unit %s, which %s does not check" % (u, d, pid)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    feats = cfg.get("features")

    box = {}
    def bg():
        box["replay"] = cargo_build("replay", feats)
    th = threading.Thread(target=bg)
    th.start()
    rc, out, err = build_extract()
    if rc != 0:
        print("cannot build the extractor: " + err[-3000:])
        sys.exit(2)

    units = []
    threads = []
    def one(i, n):
        units[i] = run_unit(n)
        if not units[i].failed and not units[i].undecided:
            probe(units[i])
    for i, n in enumerate(cfg["units"]):
        units.append(None)
        t = threading.Thread(target=one, args=(i, n))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    th.join()
    rc, out, err = box["replay"]
    if rc != 0:
        print("cannot build the replay harness against /repo: " + err[-3000:])
        sys.exit(2)

    failed, undecided = [], []
    for u in units:
        for f, o in u.failed:
            (failed if concerns(cfg, u.name, f, o) else undecided).append((u.name, f, o))
        for f, r in u.undecided:
            undecided.append((u.name, f, r))
        if not u.failed and not u.undecided and not u.probe_ok:
            undecided.append((u.name, u.name, "the vacuity probe could not be run"))
        for f in u.vacuous:
            undecided.append((u.name, f, "the probe did not fail: its contract may be vacuous"))
        if u.verified + u.errors == 0 and not u.undecided:
            undecided.append((u.name, u.name, "no obligations were generated"))

    secs = cfg.get("secs", 20)
    if failed or undecided:
        secs = max(secs * 4, 90)
    if TIER == "thorough":
        secs = max(secs, 240)
    spent = time.time() - START
    if TIER == "quick":
        secs = int(max(15, min(secs, 840 - spent - 60)))
    res, note = run_replay(pid, secs, SEED, os.path.join(BUILD, pid + ".replay.json"), replay_bin(feats))
    if res is None:
        print("the replay harness gave no result: " + note)
        sys.exit(2)
    violation = res["violation"]
    # the contracts assumed of other crates and of std, sampled on the real things: this can put the trusted base in
    # doubt, it says nothing about /repo and so does not decide the property
    deps, _ = run_replay("deps", 3, SEED, os.path.join(BUILD, pid + ".deps.json"), replay_bin(feats)) if units else (None, "")
    if deps and deps["violation"]:
        print("note: an assumed library contract does not hold on a sample: " + deps["violation"]["what"][:600])

    proved = not failed and not undecided
    for u in units:
        u.trusted = scan_trusted(u) if os.path.exists(os.path.join(BUILD, "units", u.name + ".rs")) else []
    dropped = sorted({w for u in units for x in u.report for w in x.get("rewrites", [])})
    coverage = {
        "obligations": sum(u.verified + u.errors for u in units),
        "discharged": sum(u.verified for u in units),
        "obligation_unit": "one per function or loop body and lemma, as counted by Verus (each covers all its postconditions, call preconditions, invariants, overflow, bounds and termination checks)",
        "back_end": "Verus 0.2026.09.13 / Z3",
        "checker_cmd": " ;; ".join(u.cmd for u in units) or "none",
        "solver_seconds": round(sum(u.smt_ms for u in units) / 1000.0, 2),
        "functions_under_contract": [
            {"unit": u.name, "function": x["fn"], "source": "%s:%d-%d" % (x["src"], x["src_lines"][0], x["src_lines"][1]) if x.get("src_lines") else None,
             "status": x["status"], "seconds": u.times.get(re.sub(r"^.* for ", "", x["fn"]))}
            for u in units for x in u.fns() if not elsewhere(x)],
        "contracts_used_from_other_units": {u.name: ["%s (proved in unit %s)" % (x["fn"], elsewhere(x)) for x in u.fns() if elsewhere(x)] for u in units if any(elsewhere(x) for x in u.fns())},
        "vacuity_probe": {u.name: ({"functions": u.probe_ok[0], "failed_as_required": u.probe_ok[1]} if u.probe_ok else "not run") for u in units},
        "trusted_base": sorted({u.name + ": " + t for u in units for t in u.trusted}) + ["the extractor's rewrites: " + ", ".join(dropped)] if units else ["replay harness only"],
        "failed_obligations": ["%s: %s: %s" % f for f in failed],
        "not_re_established": ["%s: %s: %s" % f for f in undecided],
        "bounded_cases": {"note": "bounded: real crate on generated cases, never counted as proved", "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "seconds": res["secs"], "samples": [s[:600] for s in res["samples"][:4]]},
        "assumed_contracts_sampled": {
            "note": "bounded: the contracts assumed of std, buf_redux, twoway, safemem, httparse, mime and tempfile, on generated cases against the real libraries; not part of the verdict",
            "evaluations": deps["evaluations"], "distinct_nontrivial": deps["distinct_nontrivial"],
            "counterexample": deps["violation"]["what"][:600] if deps["violation"] else None} if deps else "not run",
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": cfg.get("rule", ""),
        "samples": [s[:600] for s in res["samples"][:4]],
    }
    level = cfg.get("level", "proof")
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": level if (proved and units) or level != "proof" else "other",
        "coverage": coverage,
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - START, 1),
        "violations": 1 if (violation or failed) else 0,
    }
    if ev["level"] == "other":
        coverage["explanation"] = "the contracts could not all be re-established on this tree; the generated cases are a bounded stand-in" if units else cfg.get("explanation", "")
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for f in failed:
        print("failed obligation: %s: %s: %s" % f)
    for f in undecided:
        print("not re-established: %s: %s: %s" % f)
    if violation or failed:
        path = os.path.join(BUILD, "%s.violation.txt" % pid)
        with open(path, "w") as f:
            if violation:
                f.write("failing input on the real code (replay: %s %s --seed %d --case %d)\n%s\n\n" % (replay_bin(feats), pid, SEED, violation["case"], violation["what"]))
            for x in failed:
                f.write("failed obligation: %s: %s: %s\n" % x)
            for u in units:
                if u.failed:
                    f.write("\n--- verifier output, unit %s (%s)\n%s\n" % (u.name, u.cmd, u.output))
        if violation:
            print("case %s: %s" % (violation["case"], violation["what"][:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        sys.exit(1)
    print("%s: %d obligations discharged, %d functions under contract, %d cases, %.0f s%s" % (pid, coverage["discharged"], len(coverage["functions_under_contract"]), res["evaluations"], time.time() - START, "" if proved else " (bounded: some contracts not re-established)"))


if __name__ == "__main__":
    main()
