#!/usr/bin/env python3
"""check.py ID: decides one property on the current tree of /repo.

1. extracts the functions under contract from /repo/src and has Verus discharge every obligation
   of the property's units (the deciding step);
2. runs the real crate on inputs (the executable form of the same specification), which finds the
   failing input to report when an obligation fails, and is the bounded stand-in, labelled so, for
   a function that the extraction or the verifier cannot follow.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CFGV_REPO", "/repo")
BUILD = os.path.join(V, "build")
STABLE = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never", CFGV_SPECS=os.path.join(V, "specs"))
VERUS_TOOLCHAIN = "1.98.1"
T0 = time.time()
BUDGET = 840.0


def left():
    return BUDGET - (time.time() - T0)


def sh(cmd, timeout, env=None, cwd=None, stdin=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(5, timeout), env=env, cwd=cwd, input=stdin)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode("utf-8", "replace"), "timed out\n" + (e.stderr or b"").decode("utf-8", "replace")


class Lock:
    """One build at a time when several checks run at once."""
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        import fcntl
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_extract():
    with Lock("extract"):
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "--quiet"], left() - 30, STABLE, os.path.join(V, "extract"))
        if rc:
            raise SystemExit("building the extractor failed:\n" + e)
        rlib = os.path.join(BUILD, "libsmallvec.rlib")
        if not os.path.exists(rlib):
            rc, o, e = sh(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "smallvec", "-o", rlib,
                           os.path.join(V, "specs/stub/smallvec.rs")], 120, dict(STABLE, RUSTUP_TOOLCHAIN=VERUS_TOOLCHAIN))
            if rc:
                raise SystemExit("building the smallvec stub failed:\n" + e)
        rlib = os.path.join(BUILD, "libtarget_lexicon.rlib")
        if not os.path.exists(rlib):
            src, target = os.path.join(BUILD, "lexicon-src"), os.path.join(BUILD, "lexicon-target")
            shutil.copytree(os.path.join(V, "specs/stub/lexicon"), src, dirs_exist_ok=True)
            rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 200, dict(STABLE, RUSTUP_TOOLCHAIN=VERUS_TOOLCHAIN, CARGO_TARGET_DIR=target), src)
            found = glob.glob(os.path.join(target, "debug/deps/libtarget_lexicon-*.rlib"))
            if rc or len(found) != 1:
                raise SystemExit("building target-lexicon for the verifier failed:\n" + e)
            shutil.copy2(found[0], rlib + ".new")
            os.replace(rlib + ".new", rlib)
            shutil.rmtree(src, ignore_errors=True)
            shutil.rmtree(target, ignore_errors=True)


def build_harness(res):
    """The harness links the real crate from /repo's working tree."""
    with Lock("harness"):
        env = dict(STABLE)
        cmd = ["cargo", "build", "--offline", "--release", "--quiet"]
        src, target = os.path.join(V, "harness"), os.path.join(V, "harness/target")
        if REPO != "/repo":  # development: a scratch copy of the repository
            src, target = os.path.join(res["dir"], "h"), os.path.join(BUILD, "harness-scratch")
            shutil.copytree(os.path.join(V, "harness"), src, ignore=shutil.ignore_patterns("target"))
            for f in ("Cargo.toml", "Cargo.lock"):
                t = open(os.path.join(src, f)).read().replace('"/repo', '"' + REPO)
                open(os.path.join(src, f), "w").write(t)
            env["CARGO_TARGET_DIR"] = target
        rc, o, e = sh(cmd, left() - 30, env, src)
        if rc:
            res["error"] = "the harness does not build against /repo:\n" + e
            return
        # a private copy, so that another check's rebuild cannot change it under our feet
        res["bin"] = os.path.join(res["dir"], "harness")
        shutil.copy2(os.path.join(target, "release/harness"), res["bin"])


def run_harness(pid, seed, secs, thorough, res):
    build_harness(res)
    if "bin" not in res:
        return
    # the contracts taken for granted on std, tried on the real std
    out = os.path.join(res["dir"], "assume.json")
    sh([res["bin"], "assume", "--seed", str(seed), "--seconds", "60" if thorough else "2", "--out", out], left() - 60, STABLE)
    if os.path.exists(out):
        res["assume"] = json.load(open(out))
    out = os.path.join(res["dir"], "harness.json")
    cmd = [res["bin"], "check", pid, "--seed", str(seed), "--seconds", str(secs), "--out", out] + (["--thorough"] if thorough else [])
    res["cmd"] = " ".join(cmd)
    rc, o, e = sh(cmd, left() - 60, STABLE)
    if rc in (0, 1) and os.path.exists(out):
        res["result"] = json.load(open(out))
        return
    # The process died: look for the input that kills it.
    trace = os.path.join(res["dir"], "trace")
    if os.path.exists(out):
        os.remove(out)
    rc2, o2, e2 = sh(cmd + ["--trace", trace], max(30, left() - 20), STABLE)
    text = open(trace, encoding="utf-8", errors="replace").read() if os.path.exists(trace) else None
    if rc2 in (0, 1) and os.path.exists(out):
        res["result"] = json.load(open(out))
    elif text is not None and rc2 not in (2, -99):
        res["result"] = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "", "samples": [], "fails": [
            {"property": pid, "kind": "text", "input": text, "expected": "the call returns", "got": "the process dies (exit %d) %s" % (rc2, e2[-300:])}]}
    else:
        res["error"] = "the harness ended with %d, then %d\n%s" % (rc, rc2, e[-2000:])


def verus_cmd(unit):
    """The verifier's command line for a unit; an optional feature is on if the unit says so."""
    cmd = ["verus", "--crate-type", "lib", "--edition", "2024", "lib.rs", "--triggers-mode", "silent",
           "--extern", "smallvec=" + os.path.join(BUILD, "libsmallvec.rlib"), "--output-json", "--error-format=json"]
    for l in open(os.path.join(V, "specs/units", unit + ".unit")):
        if l.startswith("feature "):
            cmd += ["--cfg", 'feature="%s"' % l.split()[1]]
            if l.split()[1] == "targets":
                cmd += ["--extern", "target_lexicon=" + os.path.join(BUILD, "libtarget_lexicon.rlib")]
    return cmd


UNDECIDED = ("Resource limit (rlimit) exceeded", "while loop: Resource limit")


def run_unit(unit, d, res, extra=()):
    """Extract one unit and have Verus discharge it."""
    out = os.path.join(d, unit)
    os.makedirs(out, exist_ok=True)
    rc, o, e = sh([os.path.join(V, "extract/target/release/extract"), os.path.join(REPO, "src"), os.path.join(V, "specs"),
                   os.path.join(V, "specs/units", unit + ".unit"), out], 120)
    rep = {}
    p = os.path.join(out, "report.json")
    if os.path.exists(p):
        rep = json.load(open(p))
    r = res[unit] = {"report": rep, "state": None, "verified": 0, "errors": 0, "fails": [], "why": "", "smt_ms": 0}
    if rc == 3:
        r["state"], r["why"] = "unreachable", "extraction: " + e.strip()[-600:]
        return
    if rc == 4:
        r["state"], r["why"] = "unreachable", "; ".join(rep.get("lost", []))[:800]
        return
    if rc:
        raise RuntimeError("extractor: " + e)
    cmd = verus_cmd(unit) + ["--multiple-errors", "10", "--time-expanded"] + list(extra)
    r["cmd"] = " ".join(cmd)
    for attempt, more in enumerate(([], ["--rlimit", "40", "--smt-option", "smt.random_seed=7"])):
        rc, o, e = sh(cmd + more, min(500, left() - 40), cwd=out)
        r.update(parse_verus(rc, o, e, out))
        if r["state"] in ("proved", "unreachable") or left() < 200:
            break
    unc = [u["what"] for u in rep.get("uncontracted", [])]
    if r["state"] == "failed" and unc:
        r["state"] = "unreachable"
        r["why"] = "functions without a contract: %s; obligations that fail with them: %s" % (", ".join(unc), "; ".join(f["message"] + " in " + f["at"] for f in r["fails"]))[:800]


def label(cwd, file, line):
    """The item and function of the extracted text that a line belongs to."""
    item, fn = file, ""
    try:
        for n, l in enumerate(open(os.path.join(cwd, file), encoding="utf-8"), 1):
            if n > line:
                break
            if l.startswith("//@item "):
                item, fn = l[8:].strip(), ""
            m = re.search(r"\b(?:fn|exec const) (\w+)", l)
            if m and not l.lstrip().startswith("//"):
                fn = m.group(1)
    except OSError:
        pass
    return "%s :: %s" % (item, fn)


LEMMA = re.compile(r"^\s*(?:\w+::)*(?:lemma|theorem|axiom|broadcast)_\w*")


def tags(cwd, x):
    """What a failed obligation is about: the properties its clause is marked with (`// #C01`), or
    `#safety` if the code itself might panic, overflow or loop there, or `#step` for a step of a
    proof that bears no mark."""
    def lines(s):
        try:
            return open(os.path.join(cwd, s["file_name"]), encoding="utf-8").read().split("\n")[s["line_start"] - 1:s["line_end"]]
        except OSError:
            return []
    msg, spans = x.get("message", ""), x.get("spans", [])
    clause = [s for s in spans if re.search(r"failed this (postcondition|invariant)", s.get("label") or "")]
    if "invariant" in msg or "postcondition" in msg:
        found = sorted({t for s in clause or [s for s in spans if s.get("is_primary")] for l in lines(s) for t in re.findall(r"#C\d\d", l)})
        return found or ["#step"]
    if "overflow" in msg or "underflow" in msg or "divi" in msg or "decreases" in msg or "terminat" in msg:
        return ["#safety"]
    if "precondition" in msg:
        own = [l for s in spans if s.get("is_primary") for l in lines(s)]
        return ["#step"] if own and LEMMA.match(own[0]) else ["#safety"]
    return ["#step"]


def scoped(r, scope):
    """Of a unit's failed obligations, those of functions the property is not about leave it
    without the contracts it relies on: then the unit is not proved, but it is not violated."""
    if r["state"] != "failed" or not scope:
        return r
    inside = [f for f in r["fails"] if any(re.search(p, l) for p in scope for l in f["labels"])]
    outside = [f for f in r["fails"] if f not in inside]
    if inside:
        return dict(r, fails=inside)
    return dict(r, state="unreachable", fails=[], why="contracts it relies on do not hold: " + "; ".join(f["message"] + " at " + f["at"] for f in outside)[:600])


def parse_verus(rc, o, e, cwd="."):
    r = {"verified": 0, "errors": 0, "fails": [], "why": "", "smt_ms": 0, "functions": [], "rc": rc}
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    errs = [x for x in diags if x.get("level") == "error" and not x.get("message", "").startswith("aborting due to")]
    try:
        j = json.loads(o)
    except ValueError:
        j = None
    if rc == -99 or j is None:
        r["state"], r["why"] = "unreachable", "verus: " + (e[-600:] if rc != -99 else "timed out")
        return r
    vr = j["verification-results"]
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    smt = j.get("times-ms", {}).get("smt", {})
    r["smt_ms"] = smt.get("smt-run", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r["functions"].append((f["function"].replace("lib::", "", 1), f.get("mode:", "?"), f.get("success")))
    for x in errs:
        sp = sorted(x.get("spans", []), key=lambda s: not s.get("is_primary"))
        at = sp[0]["file_name"] + ":" + str(sp[0]["line_start"]) if sp else "?"
        own = [label(cwd, s["file_name"], s["line_start"]) for s in sp if s.get("is_primary")] or [label(cwd, s["file_name"], s["line_start"]) for s in sp[:1]]
        if "postcondition" in x["message"]:  # the clause may stand in the trait
            own = [label(cwd, s["file_name"], s["line_start"]) for s in sp]
        mark = tags(cwd, x)
        own = [" ".join([l] + mark) for l in own]
        r["fails"].append({"message": x["message"], "at": at + " (%s)" % own[0] if own else at, "labels": own, "text": x.get("rendered", "")})
    if vr.get("success") and rc == 0 and r["errors"] == 0 and r["verified"] > 0:
        r["state"] = "proved"
    elif r["errors"] == 0 or vr.get("encountered-vir-error"):
        r["state"], r["why"] = "unreachable", "verus cannot take the code: " + "; ".join(f["message"] + " at " + f["at"] for f in r["fails"])[:700]
    else:
        real = [f for f in r["fails"] if not any(u in f["message"] for u in UNDECIDED)]
        if real:
            r["state"], r["fails"] = "failed", real
        else:
            r["state"], r["why"] = "unreachable", "undecided within the resource limit: " + "; ".join(f["at"] for f in r["fails"])
    return r


CANARY = """
use vstd::prelude::*;
verus! {
// Must not verify: with it, the assumptions would be contradictory.
pub proof fn canary() ensures false { %s }
}
"""


def run_canary(unit, d, res):
    """The assumptions of a unit are not contradictory: `false` does not follow from them."""
    src, out = os.path.join(d, unit), os.path.join(d, unit + "-canary")
    spec = json.load(open(os.path.join(V, "specs/canary.json")))
    for _ in range(2):
        if os.path.exists(os.path.join(src, "lib.rs")):
            break
        time.sleep(1)
    shutil.copytree(src, out)
    lib = open(os.path.join(out, "lib.rs")).read()
    body = " ".join(s["use"] for s in spec if all(("pub mod %s;" % m) in lib for m in s["needs"]))
    open(os.path.join(out, "canary.rs"), "w").write(CANARY % body)
    open(os.path.join(out, "lib.rs"), "a").write("pub mod canary;\n")
    cmd = verus_cmd(unit) + ["--verify-module", "canary"]
    rc, o, e = sh(cmd, min(200, left() - 40), cwd=out)
    try:
        vr = json.loads(o)["verification-results"]
    except (ValueError, KeyError):
        vr = {}
    ok = vr.get("errors") == 1 and not vr.get("encountered-vir-error")
    res[unit + "-canary"] = {"refuted": ok, "detail": "" if ok else e[-1500:]}


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = json.load(open(os.path.join(V, "specs/checks.json")))[pid]
    if thorough:
        globals()["BUDGET"] = 3 * 3600.0
    d = tempfile.mkdtemp(prefix="cfgv-")
    try:
        return decide(pid, conf, thorough, seed, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(pid, conf, thorough, seed, d):
    units, uerr = {}, []
    hres = {"dir": d}
    secs = conf.get("thorough_seconds", 900) if thorough else conf.get("seconds", 25)
    ht = threading.Thread(target=run_harness, args=(pid, seed, secs, thorough, hres))
    ht.start()
    build_extract()
    unit_names = conf["units"]

    def guarded(f, *a):
        try:
            f(*a)
        except Exception as x:  # noqa: BLE001
            uerr.append("%s: %r" % (a[0], x))

    # at most three verifiers at once
    sem = threading.Semaphore(3)

    def unit_job(u):
        with sem:
            guarded(run_unit, u, d, units)
            if units.get(u, {}).get("state") == "proved" and os.path.exists(os.path.join(V, "specs/canary.json")):
                guarded(run_canary, u, d, units)

    ts = [threading.Thread(target=unit_job, args=(u,)) for u in unit_names]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ht.join()

    if uerr:
        print("check error: " + "; ".join(uerr), file=sys.stderr)
        return 2
    bad_canary = [u for u in units if u.endswith("-canary") and not units[u]["refuted"]]
    if bad_canary:
        print("check error: the assumptions of %s are contradictory or the canary did not run: %s" % (bad_canary, units[bad_canary[0]]["detail"]), file=sys.stderr)
        return 2
    if hres.get("assume", {}).get("fails"):
        print("check error: std does not meet a contract that the proofs take for granted: %s" % hres["assume"]["fails"], file=sys.stderr)
        return 2
    real = {u: scoped(units[u], conf.get("scope", {}).get(u)) for u in unit_names}
    failed = [u for u in real if real[u]["state"] == "failed"]
    lost = [u for u in real if real[u]["state"] == "unreachable"]
    hfails = hres.get("result", {}).get("fails", [])
    known = load_known(pid)
    if (failed or lost) and not hfails and "result" in hres and not thorough and left() > 300:
        # not proved, and no input so far: search for longer, from another seed
        more = min(90.0 if lost else 60.0, left() - 200)
        out = os.path.join(d, "more.json")
        rc, _, _ = sh([hres["bin"], "check", pid, "--seed", str(seed + 1000), "--seconds", str(more), "--out", out], more + 90, STABLE)
        if rc in (0, 1) and os.path.exists(out):
            m = json.load(open(out))
            hres["result"]["evaluations"] += m["evaluations"]
            hres["result"]["distinct_nontrivial"] += m["distinct_nontrivial"]
            hres["result"]["fails"] = hfails = m["fails"]
    listed = [k for k in known if any(k["input"] == f["input"] and k["kind"] == f["kind"] for f in hfails)]
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    hfails = [f for f in hfails if not any(k["input"] == f["input"] and k["kind"] == f["kind"] for k in known)]

    if "result" not in hres and not failed:
        print("check error: " + hres.get("error", "no result from the harness"), file=sys.stderr)
        if lost or not os.path.exists(os.path.join(REPO, "src")):
            return 2

    verdict = 0
    replay = None
    if hfails or failed:
        verdict = 1
        replay = write_replay(pid, seed, secs, thorough, hfails, real, failed, d)
    write_evidence(pid, conf, thorough, seed, real, units, lost, failed, hres, hfails)
    for u in unit_names:
        r = real[u]
        print("%s: unit %s: %s (%d verified, %d errors) %s" % (pid, u, r["state"], r["verified"], r["errors"], r["why"]))
    if "result" in hres:
        print("%s: %d inputs tried on the real crate, %d fail" % (pid, hres["result"]["evaluations"], len(hfails)))
    if lost and not verdict:
        print("%s: BOUNDED, not proved, for the units %s" % (pid, ", ".join(lost)))
    if verdict:
        for f in hfails[:3]:
            print("  input %s\n  expected %s\n  got %s" % (json.dumps(f["input"])[:300], f["expected"][:300], f["got"][:300]))
        for u in failed:
            for f in real[u]["fails"][:5]:
                print("  obligation of unit %s: %s at %s" % (u, f["message"], f["at"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if hfails else " no-failing-input-found"))
    print("%s: %.1f s" % (pid, time.time() - T0))
    return verdict


def load_known(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["open"] if k["property"] == pid]


def write_replay(pid, seed, secs, thorough, hfails, real, failed, d):
    rd = os.path.join(BUILD, "replay")
    os.makedirs(rd, exist_ok=True)
    body = {"property": pid, "seed": seed, "seconds": secs, "thorough": thorough, "fails": hfails,
            "obligations": [{"unit": u, "message": f["message"], "at": f["at"], "text": f["text"]} for u in failed for f in real[u]["fails"]],
            "how": "python3 replay.py FILE runs the failing input on the real crate, or the failed unit through the verifier again"}
    name = "%s-%s.json" % (pid, hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12])
    p = os.path.join(rd, name)
    json.dump(body, open(p, "w"), indent=1)
    return p


def write_evidence(pid, conf, thorough, seed, real, units, lost, failed, hres, hfails):
    assumed = json.load(open(os.path.join(V, "specs/assumptions.json")))
    ob = sum(r["verified"] + r["errors"] for r in real.values())
    ok = sum(r["verified"] for r in real.values())
    h = hres.get("result", {})
    tb, seen = [], set()
    for u in real:
        ghosts = open(os.path.join(V, "specs/units", u + ".unit")).read().split("\n")
        ghosts = [g for l in ghosts if l.startswith("ghost ") for g in l.split()[1:]]
        for a in assumed["units"].get(u, []) + [a for g in ghosts for a in assumed["ghost"].get(g, [])] + assumed["common"]:
            if a not in seen:
                seen.add(a)
                tb.append(a)
    cov = {
        "obligations": ob,
        "discharged": ok,
        "checker_cmd": next((r["cmd"] for r in real.values() if "cmd" in r), ""),
        "trusted_base": tb,
        "back_end": "Verus 0.2026.09.13 with Z3",
        "solver_ms": sum(r["smt_ms"] for r in real.values()),
        "functions_under_contract": sorted({c["file"] + " " + c["what"] for r in real.values() for c in r["report"].get("contracts", [])}),
        "functions_without_contract": sorted({c["file"] + " " + c["what"] for r in real.values() for c in r["report"].get("uncontracted", [])}),
        "functions_discharged": sorted({"%s (%s)" % (f[0], f[1]) for r in real.values() for f in r.get("functions", []) if f[2]}),
        "source_rewrites": sorted({c["file"] + ": " + c["what"] for r in real.values() for c in r["report"].get("rewrites", [])}),
        "items_left_out": sorted({c["file"] + ": " + c["what"] for r in real.values() for c in r["report"].get("dropped", [])}),
        "units": {u: {"state": r["state"], "verified": r["verified"], "errors": r["errors"], "why": r["why"], "solver_ms": r["smt_ms"],
                      "assumptions_refute_false": units.get(u + "-canary", {}).get("refuted")} for u, r in real.items()},
        "assumed_contracts_tried_on_the_real_std": hres.get("assume", {}).get("contracts", {}),
        "bounded_stand_in": {
            "used_instead_of_a_proof_for": lost,
            "note": "the same specification in executable form, run on the real crate; finds failing inputs; never counted as proved",
            "evaluations": h.get("evaluations", 0), "distinct_nontrivial": h.get("distinct_nontrivial", 0), "rule": h.get("rule", ""),
            "samples": h.get("samples", []), "wall_s": h.get("wall_s", 0)},
    }
    if conf.get("residual"):
        cov["not_proved"] = conf["residual"]
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": conf.get("level", "proof"), "coverage": cov,
          "assumptions": tb, "wall_s": round(time.time() - T0, 2), "violations": len(hfails) + sum(len(real[u]["fails"]) for u in failed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
